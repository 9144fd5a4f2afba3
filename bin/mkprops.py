#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": mech,
                  "observe_at": observe or [], "hook_needed": hook}})
M = lambda name, where: {"name": name, "where": where}
S = lambda name, meaning, where: {"name": name, "meaning": meaning, "where": where}
MAIN, CACHE, REDIS, MEM = ("core/main.go", "core/internal/statestore/cache/replicatedticketcache.go",
   "core/internal/statestore/redis/redis.go", "core/internal/statestore/memory/main.go")
STORE = "core/internal/statestore/datatypes/store.go"

p("C01", "An acknowledged ticket is stored once under its own unique id",
  "Every CreateTicket call that reports success returns a non-empty ticket id that no other creation ever returns, on any instance, before or after any restart, with either state storage. The update log holds under that id the ticket that this very caller submitted, so it can be activated and matched by that id on every instance even after the accepting instance is killed and restarted. A creation whose storage write failed is answered with an error, never with a success.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "all interleavings of creations with each other and with other updates sharing a batch, all storage faults (error replies, outages, dropped connections) and kills of any instance",
  "No test creates a ticket at all: the state storage, cache and server packages have no passing tests; batching across callers, storage faults and restarts are never exercised.",
  [MAIN, CACHE, REDIS, MEM],
  [M("handler waits for the storage result of its own request", MAIN + ":CreateTicket"),
   M("results are routed back by position in the batch", CACHE + ":OutgoingReplicationQueue"),
   M("stream entry id becomes the ticket id", REDIS + ":SendUpdates"), M("id generator of the in-memory log", MEM + ":getReplId")],
  [S("update log", "ordered list of ticket/activate/deactivate/assign entries", REDIS)],
  ["CreateTicket reply", "XADD commands seen by the state storage", "pools received by a matchmaking function"])

p("C02", "A stored ticket carries exactly what its creator asked for",
  "A created ticket keeps the submitted tags, string and double arguments and extensions unchanged, and any id put in by the client is ignored. Its creation time is the submitted one if that is a valid timestamp and otherwise the time of the request. Its expiration time is the submitted one if that is valid and not later than creation time plus the configured ticket lifetime, and otherwise exactly creation time plus that lifetime.",
  ["inputs", "configurations"],
  "all combinations of absent, invalid, past, present, future and boundary timestamps, with all attribute and extension contents, and all configured lifetimes",
  "No test calls CreateTicket; the time normalisation has a case analysis over two optional, possibly invalid timestamps and a configured lifetime that nothing samples.",
  [MAIN, CACHE, "proto/v2/messages.proto"],
  [M("timestamp normalisation and re-marshalling of the ticket", MAIN + ":CreateTicket"),
   M("ticket is unmarshalled and given its id on arrival", CACHE + ":IncomingReplicationQueue")],
  [], ["ticket bytes in the update log", "tickets in pools received by a matchmaking function"])

p("C03", "Only active tickets are ever offered to matchmaking functions",
  "A ticket is offered in a pool only if, in the order in which the serving instance applies the update log, its latest state change is an activation: newly created and deactivated tickets are never offered, at no moment and however the pool snapshot interleaves with concurrent updates, batches and expiry. Once an activation has been applied the ticket is offered to every later invocation whose filters it meets, until it is deactivated or expires.",
  ["schedules", "histories"],
  "all histories of create/activate/deactivate on any number of tickets and instances, and all interleavings of a pool snapshot with updates being applied",
  "No test runs an invocation or the replication queues; the guarantee depends on the order of two separate cache writes and of two separate snapshot reads running concurrently.",
  [MAIN, CACHE],
  [M("inactive mark is stored before the ticket", CACHE + ":IncomingReplicationQueue"),
   M("snapshot of tickets minus inactive set", MAIN + ":setDifference"),
   M("activate/deactivate generate updates", MAIN + ":updateTicketsActiveState")],
  [S("tickets / inactive set", "local replica of the ticket state", CACHE)],
  ["pools received by a matchmaking function"])

p("C04", "Instances converge by applying the same log once, in order",
  "Any two instances that have consumed the same updates hold the same tickets, the same active/inactive states and the same assignments, whatever the poll sizes and batch boundaries, whenever each joined, after restarts, and after transient read failures of the state storage. Every update in the log is applied by every running instance, exactly once and in log order.",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "all logs of updates, all splits of the log into polls, all join and restart points and read faults, on several instances",
  "No test applies a single update to a cache; ordering, paging, restart replay and multi-instance agreement are not exercised.",
  [CACHE, REDIS, MEM],
  [M("single ordered apply loop", CACHE + ":IncomingReplicationQueue"), M("read cursor over the log", REDIS + ":GetUpdates"),
   M("in-memory log hand-over", MEM + ":GetUpdates")],
  [S("read cursor", "id of the last update read from the log", REDIS)],
  ["pools and assignments served by each instance", "cache contents"])

p("C05", "Every update request gets its own truthful outcome",
  "Every update submitted by a caller is answered exactly once with its own outcome, whatever other updates, valid or invalid, share its batch. Success is reported only for updates that are in the log; an update that was rejected, or whose storage write failed or was interrupted, is reported as failed and identified by its own ticket id. The activate, deactivate and create-assignments calls pass these failures on to their caller: they report success only if all their valid updates were stored.",
  ["inputs", "schedules", "fault_sequences"],
  "all batches of valid and invalid updates, all per-command error replies and connection faults, all groupings of concurrent callers into batches",
  "The only tests of the storage layer do not compile; nothing exercises a batch with an invalid member, an error reply or an outage.",
  [REDIS, CACHE, MAIN, STORE],
  [M("per-update result array built from pipelined replies", REDIS + ":SendUpdates"),
   M("results routed to the requester's channel", CACHE + ":OutgoingReplicationQueue"),
   M("failures collected into error details", MAIN + ":addStateUpdateErrorDetails"), M("assignment failures", MAIN + ":CreateAssignments")],
  [], ["results of the state storage layer", "RPC status and details", "XADD commands seen by the state storage"])

p("C06", "Expired tickets leave on time and unexpired ones stay",
  "A ticket is not offered any more once its expiration time has passed, to within one cache maintenance cycle and even while updates keep streaming in without a pause; it never comes back. A ticket still inactive when the configured ticket lifetime has passed since it entered the log is forgotten together with its inactive mark, in that order, so it is never offered; inactive marks and assignments are dropped once the lifetime (for assignments: plus the configured additional lifetime) has passed since the ticket entered the log. Nothing is dropped before its time.",
  ["histories", "schedules", "configurations"],
  "all histories of updates and passing time, all expiration times and configured lifetimes, with either state storage's ids",
  "No test runs an expiry cycle or controls time.",
  [CACHE, REDIS, MEM],
  [M("expiration closure after each apply cycle", CACHE + ":IncomingReplicationQueue"), M("limit on consecutive update processing", CACHE + ":IncomingReplicationQueue")],
  [S("entry time", "creation time encoded in the ticket id", CACHE)],
  ["cache contents", "pools received by a matchmaking function"])

p("C07", "A pool holds exactly the tickets that meet all its filters",
  "A ticket is in a pool exactly when it has every required tag, every string argument equal to the required value (present and case-sensitive), and every double argument present and within the requested range with each bound included or excluded as asked, NaN never being in range; and, when a creation-time filter is given, a creation time within its start and end with the bounds included or excluded as asked, an absent start or end leaving that side open. A pool whose creation-time filter holds an invalid timestamp is not filled. Tickets and pools with any fields missing are handled without failing.",
  ["inputs"],
  "all tickets and pools: every combination of filters, boundary, infinite and NaN values, bounds and missing fields",
  "The tests sample a few dozen single-filter cases, and their inclusion half asserts the opposite of what its name says, so a filter that rejects everything passes.",
  ["core/internal/filter/filter.go", MAIN],
  [M("filter evaluation", "core/internal/filter/filter.go:In"), M("filter validation", "core/internal/filter/filter.go:ValidatePoolFilters"), M("pool filling", MAIN + ":InvokeMatchmakingFunctions")],
  [], ["result of the filter function", "pools received by a matchmaking function"])

p("C08", "Each matchmaking function receives the whole profile in legal chunks",
  "For each invocation, every listed matchmaking function receives the same profile as a sequence of chunks, each announcing the true number of chunks, each carrying the profile's name and extensions and every validly filtered pool with its name, filters and extensions as requested, and each small enough to be received (4 MiB) as long as the empty profile and any one ticket fit together. Over all chunks, every pool contains each of its matching active tickets exactly once and nothing else, including pools for which there are no tickets at all.",
  ["inputs"],
  "all profiles (any number of pools, overlapping filters, names, extensions) and all ticket populations and sizes, including ones that end exactly at a chunk boundary",
  "No test invokes a matchmaking function or builds a chunk.",
  [MAIN, "proto/v2/messages.proto"],
  [M("chunking loop and request assembly", MAIN + ":InvokeMatchmakingFunctions")],
  [], ["chunks received by a matchmaking function"])

p("C09", "Reassembling a chunked profile gives back the original",
  "For every sequence of chunks, the matchmaking-function server library returns a profile whose name and extensions are those sent and in which every pool named in any chunk appears once, with its name, filters and extensions as sent and with the participants of all its chunks concatenated in order, nothing lost, duplicated or put into another pool. It reads exactly the announced number of chunks, and a stream that fails or ends before that yields an error and no profile; chunks that omit a pool or its participants are handled.",
  ["inputs", "fault_sequences"],
  "all chunk sequences: any number of chunks and pools, pools present in any subset of chunks, empty or absent participants, stream failures at any point",
  "The library has no tests.",
  ["mmf/server/server.go"], [M("chunk concatenation", "mmf/server/server.go:GetChunkedRequest")], [],
  ["profile returned to a matchmaking function"])

p("C10", "Every match from every function reaches the caller exactly once",
  "Each match that any invoked matchmaking function streams back is delivered to the invoking caller exactly once and unmodified, whatever the number, speed and order of functions and matches, and also when that or another function later fails, times out or cannot be reached. The invocation completes after all its functions have finished, failed or exceeded the configured time limit, with all delivered matches received before its completion, and it always does complete.",
  ["schedules", "fault_sequences", "inputs"],
  "all schedules of concurrent matchmaking functions and of the fan-in to one caller, all failure points of each function, both deactivation modes",
  "No test invokes a matchmaking function; losing the last match or a match before a failure needs a particular interleaving.",
  [MAIN],
  [M("fan-out goroutines, fan-in goroutine and wait groups", MAIN + ":InvokeMatchmakingFunctions")],
  [], ["matches received by the caller", "matches sent by the functions"])

p("C11", "Tickets of returned matches are taken out of circulation",
  "By the time an invocation completes, every ticket of every match any of its functions returned, in any roster, has been deactivated: the deactivation is in the update log and in effect on the serving instance, unless the state storage refused it or stopped delivering updates for a minute. If the server is configured to wait for deactivation, this already holds for a match's tickets when that match is delivered to the caller. It holds as well when the caller cancels or disconnects (the functions keep running), and no other ticket is deactivated.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "all matches and rosters, schedules of matches, replication delays and invocations, caller cancellation points, both deactivation modes",
  "No test invokes a matchmaking function; the guarantee spans the function stream, the outgoing queue, the log and the incoming queue.",
  [MAIN, CACHE, "core/internal/config/config.go"],
  [M("deactivation goroutine per match", MAIN + ":InvokeMatchmakingFunctions"), M("wait for local replication", MAIN + ":InvokeMatchmakingFunctions")],
  [], ["update log", "pools of later invocations on the serving instance", "order of match delivery and replication"])

p("C12", "Invalid requests are rejected and change nothing",
  "A ticket creation without a ticket, an activation or deactivation without ids, an invocation without profile or without functions, and an assignment request without roster or assignment are answered with InvalidArgument and have no effect; so are activation, deactivation and assignment requests with more than the configured maximum number of updates, while a request with exactly the maximum is processed in full. Ids that do not have the form of an id assigned by the state storage never cause a state update, and do not keep the valid ids of the same request from being processed.",
  ["inputs", "configurations"],
  "all requests, counts around every configured limit, and all mixes of well-formed and malformed ids",
  "No test calls the API.",
  [MAIN, "core/internal/config/config.go", REDIS, MEM],
  [M("request validation in each handler", MAIN), M("id pattern", REDIS + ":GetReplIdValidationRegex")],
  [], ["RPC status", "XADD commands seen by the state storage"])

p("C13", "Watchers get the assignment stored for each ticket they watch",
  "A watch on a list of ticket ids streams, for each listed id, exactly one response carrying that id and an assignment that was stored for it and was current at some moment of the watch, with connection and extensions unchanged, whether the assignment was made before or during the watch and on whatever instance. The watch ends as soon as every listed id has been answered and otherwise no later than the configured ticket lifetime after the later of its beginning and the creation of the newest listed ticket, never answering for tickets without assignment; assignments made after a watch has ended are stored as usual.",
  ["schedules", "histories", "inputs"],
  "all interleavings of assignments and watches over several tickets, callers and instances, including assignments after the end of a watch",
  "No test creates or watches an assignment.",
  [MAIN, CACHE], [M("polling goroutine per id and timeout", MAIN + ":WatchAssignments"), M("assignment updates", MAIN + ":CreateAssignments"), M("assignment application", CACHE + ":IncomingReplicationQueue")],
  [S("assignments", "local replica of assignments", CACHE)], ["WatchAssignments stream"])

p("C14", "Nothing a client or matchmaking function does stops the server",
  "No request, no stream of matches (including matches without tickets, without rosters or with unknown, empty or duplicate ticket ids), no failure, delay, disconnect or cancellation of a client or matchmaking function, and no outage of the state storage terminates the server or makes it permanently unable to serve: afterwards, with storage reachable, tickets can still be created, activated, offered and matched. This stays true over any number of requests and storage polls, however small the configured storage connection limit.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "all requests, function behaviours, disconnect and failure points, storage outages, and arbitrarily long runs",
  "No test starts the server; crashes need a particular failure after a particular message, or a long run that uses up a resource.",
  [MAIN, CACHE, REDIS],
  [M("goroutine and channel life cycles", MAIN + ":InvokeMatchmakingFunctions"), M("watch goroutines", MAIN + ":WatchAssignments"), M("connection pools", REDIS + ":New")],
  [], ["server process", "API availability"])

p("C15", "The shared log is read without gaps and trimmed only when stale",
  "Successive polls of the state storage return every update of the log exactly once, in log order and with command, ticket id and value as written, across empty polls, paging limits, error replies and reconnects, starting from the beginning of the log for a new instance. Each write of a batch also removes log entries older than the configured ticket lifetime and never removes an entry younger than that. At most the configured number of storage connections is used, however long the server runs.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "all logs, page sizes, lifetimes, entry ages around the lifetime, and read or write faults",
  "The tests of this package do not compile; none contacts a storage server.",
  [REDIS, STORE],
  [M("XREAD cursor", REDIS + ":GetUpdates"), M("XTRIM after each batch", REDIS + ":SendUpdates"), M("connection pools", REDIS + ":New")],
  [S("read cursor", "last id read", REDIS)], ["updates returned by the storage layer", "commands seen by the state storage", "open connections"])

p("C16", "The sample matchmaking functions form complete, disjoint matches",
  "For every profile whose pools are disjoint, each sample function streams only complete matches (solo duel: one roster of two; team shooter: two teams of one tank, one healer and three dps from the pools of those names; battle royale: one roster of one hundred from the pool it uses), uses no ticket twice and no ticket that was not offered, and leaves fewer tickets than would be needed for one more match. Match ids are distinct within a run, and every match names its function and profile.",
  ["inputs"],
  "all numbers of tickets in all pools, delivered in any chunking",
  "The functions have no tests.",
  ["functions/golang/soloduel/soloduel.go", "functions/golang/teamshooter/teamshooter.go", "functions/golang/battleroyale/battleroyale.go"],
  [M("Run loops", "functions/golang/*/*.go:Run")], [], ["matches streamed by the functions"])

p("C17", "The example matchmaker activates every ticket once in legal batches",
  "Every ticket id queued for activation by the example matchmaker, whether newly created or from a rejected match, is sent in exactly one activation call, no call carries more than the 500 ids the server accepts by default, and none is left behind however many are queued. Activations of tickets of rejected matches are completed before the next matchmaking cycle is started, and those calls carry whole rejected matches, never tickets of accepted ones.",
  ["inputs", "schedules"],
  "all numbers of queued tickets (around multiples of the batch size) and all delays of the activation calls",
  "The example has no tests.",
  ["matchmaker-example/main.go"], [M("activation batching", "matchmaker-example/main.go:activateTickets")], [],
  ["calls received by the server"])

p("C18", "Reported metrics equal what actually happened",
  "The exported counters agree with the history of the server: matches received counts, per function name, the matches its streams delivered; activations, deactivations and assignments per call record one sample per processed call with the number of updates it made; the number of open assignment watches returns to zero when all watches have ended, answered or not; and every finished RPC is counted in the duration metric, failed ones in the error metric, under the RPC's name.",
  ["histories", "fault_sequences"],
  "all histories of calls, including ones ending in errors and timeouts",
  "No test reads a metric.",
  [MAIN, "core/metrics.go", "core/server.go"],
  [M("metric updates in handlers", MAIN), M("stats handler", "core/server.go:HandleRPC")], [], ["/metrics endpoint"])

p("C19", "The HTTP/JSON API behaves like the gRPC API",
  "Each RPC can be called over HTTP with JSON at its documented method and path, has the same effect on the ticket state and returns the same result as the gRPC call with the same message; errors carry the HTTP status corresponding to the gRPC code, and streaming calls deliver every message as its own JSON result.",
  ["inputs"],
  "all RPCs, with valid and invalid requests",
  "No test uses the gateway.",
  ["core/server.go", "pkg/api/v2/api.pb.gw.go", "core/pkg/api/v2/api.pb.gw.go", "proto/v2/api.yaml"],
  [M("gateway set-up", "core/server.go:start"), M("generated handlers", "pkg/api/v2/api.pb.gw.go")], [], ["HTTP responses", "update log"])

p("C20", "Updates are batched in order, within size and time limits",
  "Update requests are written to the state storage in the order they were queued, each exactly once, in batches of at most the configured size; a full batch is written at once and an incomplete one no later than the configured wait time after its first request, as soon as the previous write has finished. An update stored by one call that has returned precedes in the log every update of a call made afterwards, and the updates of one call are stored in the order given.",
  ["schedules", "configurations"],
  "all arrival times of requests, batch sizes, wait times and write durations",
  "No test runs the outgoing queue.",
  [CACHE, MAIN], [M("collect-and-execute loop", CACHE + ":OutgoingReplicationQueue"), M("ordered submission", MAIN + ":updateTicketsActiveState")],
  [S("request queue", "updates waiting to be written", CACHE)], ["batches handed to the state storage", "order of XADD commands"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
