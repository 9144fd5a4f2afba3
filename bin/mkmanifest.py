#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+: TLC model checking of the design model (OpenMatch.tla) against the monitor, and TLC validation of traces recorded from om-core against the same monitor (Monitor.tla)"
CHECKS = {
 "C01": (TV, "model_checking", "exhaustive for the design within the constants of the configurations; real executions are sampled"),
 "C02": ("TLA+: TicketTimes.tla states the rule for a ticket's times and TLC checks its laws; TLC validates what om-core made of submitted tickets against it (TicketTrace.tla)", "model_checking", "laws exhaustive over a small grid of times; real tickets: a cross product of boundary times, contents at random"),
 "C03": (TV, "model_checking", "as C01"),
 "C04": (TV, "model_checking", "as C01"),
 "C05": (TV, "model_checking", "as C01"),
 "C06": ("TLA+: Expiry.tla states what may and must be offered, answered and held over time; TLC proves the maintenance cycle against it (MCExpiry.tla) and validates the recorded lives of real tickets (ExpiryTrace.tla)", "model_checking", "exhaustive for the design within the constants; real tickets are sampled, in real time and on logs with a written past"),
 "C07": ("TLA+: Filters.tla defines pool membership; TLC enumerates tickets and pools from it (FilterCases.tla) and validates the pools that om-core built of them (FilterTrace.tla)", "model_checking", "all tickets and pools over a small ordered domain, mapped to concrete values"),
 "C08": ("TLA+: Chunks.tla states what is a legal way of sending a profile; TLC proves the way of cutting it (MCChunks.tla) and validates the chunks that functions received from om-core (ChunkTrace.tla)", "model_checking", "exhaustive for the design within the constants; real profiles and tickets are sampled around the size limits"),
 "C09": ("TLA+: Chunks.tla defines reassembly; TLC proves the library's algorithm (MCReassemble.tla), enumerates all its cases (ReassembleCases.tla), which are replayed into the library, and validates the outcomes (ReassembleTrace.tla)", "model_checking", "all sequences of up to three chunks of two pools with a failure at any place; larger ones sampled"),
 "C10": (TV, "model_checking", "as C01"),
 "C11": (TV, "model_checking", "as C01"),
 "C12": (TV, "model_checking", "as C01"),
 "C13": (TV, "model_checking", "as C01"),
 "C14": (TV, "model_checking", "as C01; hostile inputs are generated at random"),
 "C15": (TV, "model_checking", "as C01"),
 "C16": ("TLA+: SampleFns.tla states what each function has to make of a profile; TLC proves the three algorithms for scaled-down matches (MCSampleFns.tla), enumerates pool sizes at which the number of matches changes (SampleCases.tla), which are replayed into the real functions, and validates what these stream (SampleTrace.tla)", "model_checking", "exhaustive for the design within the constants; real functions: enumerated pool sizes, larger ones sampled"),
 "C17": ("TLA+: Matchmaker.tla states what the example matchmaker owes; TLC proves its way of activating tickets (MCMatchmaker.tla), and validates what the real one asked of a server (MatchmakerTrace.tla)", "model_checking", "exhaustive for the design within the constants; real runs are sampled, with numbers of tickets around the multiples of the batch size"),
 "C18": ("TLA+: Metrics.tla states what the exported figures must be, given the history; TLC proves the way they are kept (MCMetrics.tla) and validates the figures of real servers against their recorded histories (MetricsTrace.tla)", "model_checking", "exhaustive for the design within the constants; real histories are sampled, the figures of each compared exactly, except the durations"),
 "C19": ("TLA+: Gateway.tla states the HTTP form of the API; TLC proves the way of translating (MCGateway.tla), and validates calls made both ways, and whole scenarios over HTTP, against it (GatewayTrace.tla) and against the monitor (OMTrace.tla)", "model_checking", "exhaustive for the design within the constants; real calls are sampled"),
 "C20": ("TLA+: Batching.tla states when a batch is legal, in time and in order; TLC proves the collecting loop (MCBatching.tla) and validates the batches that om-core wrote (BatchTrace.tla)", "model_checking", "exhaustive for the design within the constants; real batches are sampled, in real time"),
}
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
                 "technique": t, "level": l, "level_note": n} for p, (t, l, n) in sorted(CHECKS.items())],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed at process boundaries, or through build overlays that exist only in /verif."}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for p in props:
    if p not in CHECKS:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
