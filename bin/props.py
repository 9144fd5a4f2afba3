"""One function per property: what its check runs."""
import glob, json, os, random, re, sys
from concurrent.futures import ThreadPoolExecutor
import vp
from vp import CheckError, log, THOROUGH, SEED

# A server that is gone, does not answer or does not get on keeps no promise.
COMMON = {"server-died", "no-answer", "not-applied", "unable-to-serve"}


def n(quick, thorough):
    return thorough if THOROUGH else quick


def together(*fs):
    """Runs the given functions at the same time; the first failure counts."""
    with ThreadPoolExecutor(len(fs)) as ex:
        rs = [ex.submit(f) for f in fs]
    for r in rs:
        r.result()


def models(c, quick, controls=(), thorough=()):
    """The design model with several configurations; `controls` are broken designs that TLC must reject."""
    def go():
        for cfg in list(quick) + (list(thorough) if THOROUGH else []):
            mod = "MCOpenMatch"
            if isinstance(cfg, tuple):
                mod, cfg = cfg
            c.model(mod, cfg + ".cfg", workers=4, timeout=800)
        for cfg in controls:
            mod = "MCOpenMatch"
            if isinstance(cfg, tuple):
                mod, cfg = cfg
            r = c.model(mod, cfg + ".cfg", workers=4, timeout=800, ok_codes=(0, 11, 12, 13))
            if r.code == 0:
                raise CheckError("the broken design %s is accepted by the specification" % cfg)
            c.notes.setdefault("broken_designs_rejected", []).append(cfg)
    return go


def simulate(c, cfg="SimAllN", num=None, depth=120):
    def go():
        k = num or n(400, 20000)
        r = vp.tlc("MCOpenMatch", cfg + ".cfg", workers=4, timeout=850, args=["-simulate", "num=%d" % k, "-depth", str(depth), "-seed", str(SEED)])
        c.notes["simulated_behaviours"] = c.notes.get("simulated_behaviours", 0) + k * 4
        c.transitions += r.states
    return go


def core(c, fams, rules, module="OMTrace", known=None, also=()):
    """Drives om-core built from /repo through scenario families and validates the recorded traces.
    known: {rule: marker}; such a rule is reported as the known finding with that marker, if it is listed.
    also: further modules to validate the same traces with, as to all of their rules."""
    def go():
        b, h = vp.build_core(), vp.build_harness()
        files = []
        rounds = n(1, 3)
        for fam, q, t, *arg in fams:
            for k in range(rounds):
                d = c.dir("%s-%d" % (fam, k))
                vp.drive(h, fam, d, seed=SEED + 7919 * k, n=n(q, t), bin_core=b, arg=arg[0] if arg else "", timeout=800)
                files += glob.glob(d + "/*.json")
        log("recorded %d traces" % len(files))
        c.traces_ok(files, rules, module=module, known=known)
        for m in also:
            c.traces_ok(files, None, module=m)
    return go


def maker(c, q, t):
    """Drives the example matchmaker, built from /repo, against a stand-in for om-core."""
    def go():
        b, h = vp.build_matchmaker(), vp.build_harness()
        files = []
        for k in range(n(1, 3)):
            d = c.dir("maker-%d" % k)
            vp.drive(h, "maker", d, seed=SEED + 7919 * k, n=n(q, t), bin_core=b, timeout=800)
            files += glob.glob(d + "/*.json")
        c.traces_ok(files, None, module="MatchmakerTrace")
    return go


def own_fault(out):
    """Whether the harness process was ended by an unrecoverable error in the code that it runs."""
    i = out.find("fatal error: ")
    if i < 0:
        return False
    first = "\n\n".join(out[i:].split("\n\n")[:2])  # what happened, and where
    return re.search(r"/(functions/golang|mmf/server)/", first) is not None


def lib(c, fams, rules, module):
    """As core, for code that runs inside the harness."""
    def go():
        h = vp.build_harness()
        files = []
        for fam, q, t, arg in fams:
            for k in range(n(1, 4)):
                d = c.dir("%s-%d" % (fam, k))
                try:
                    vp.drive(h, fam, d, seed=SEED + 7919 * k, n=n(q, t), arg=arg, timeout=800)
                except vp.CheckError as e:
                    if not own_fault(str(e)):
                        raise
                    p = os.path.join(d, "crash.txt")
                    open(p, "w").write(str(e))
                    c.violation("crash", str(e)[-1500:], p)
                files += glob.glob(d + "/*.json")
        log("recorded %d traces" % len(files))
        c.traces_ok(files, rules, module=module)
    return go


def bursts(c):
    """The ways in which updates of a ticket can meet in a batch, enumerated by TLC: a file for the family "burst"."""
    out = os.path.join(c.dir("bursts"), "bursts.json")
    c.model("BurstCases", env={"OUT": out})
    return out


A_REDIS = "the state storage is a redis stand-in that implements the commands Open Match uses; redis itself is trusted"
A_MODEL = "the design model is checked exhaustively for the constants in its configuration files only"
A_TRACE = "real executions are sampled: the recorded traces are checked completely, schedules not met are not"


def C01(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCUpdates"], ["MCXshift"], ["MCTwo"]),
             core(c, [("create", 8, 16), ("memory", 2, 6)],
                  COMMON | {"success-not-stored", "empty-id", "wrong-id", "id-reused", "ticket-content", "pool-active-missing", "invalid-accepted", "spurious-update"}))


def C02(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(lambda: c.model("MCTicketTimes"),
             core(c, [("times", 4, 12)], None, module="TicketTrace"),
             core(c, [("create", 3, 6), ("memory", 2, 4)], COMMON | {"ticket-content"}))


def C03(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCSnapshot"], ["MCXsnap"], ["MCTwo"]),
             core(c, [("mix", 8, 16), ("replicas", 4, 8), ("memory", 2, 4), ("burst", 3, 9, bursts(c)), ("swap", 4, 8)],
                  COMMON | {"pool-inactive-offered", "pool-active-missing", "pool-unknown-ticket"}))


def C04(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCTwo"], [], ["MCUpdates"]),
             core(c, [("replicas", 8, 20), ("swap", 2, 4), ("slowpoll", 2, 4), ("bulk", 2, 6)],
                  COMMON | {"pool-inactive-offered", "pool-active-missing", "pool-unknown-ticket", "ticket-content", "watch-wrong-assignment", "log-gap", "log-not-followed", "log-reread"}))


def C05(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCUpdates"], ["MCXshift"]),
             core(c, [("outcome", 6, 16), ("mix", 4, 8), ("burst", 9, 18, bursts(c))],
                  COMMON | {"success-not-stored", "wrong-id", "stored-but-failed", "failure-not-reported", "outcome-inconsistent", "not-written", "spurious-update"}))


def C06(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE, "real time: lateness is judged by the count of maintenance cycles the server reports (its duration histogram), or without it by a slack of one poll wait + 2.5 s; earliness exactly"]
    X = "MCExpiry"
    together(models(c, [(X, "MCExpiry")], [(X, "MCXmarkonly"), (X, "MCXstarve"), (X, "MCXearly"), (X, "MCXlate")] +
                    ([(X, "MCXmarkfirst"), (X, "MCXnorecheck"), (X, "MCXasgttl"), (X, "MCXticketonly")] if THOROUGH else []),
                    [(X, "MCExpiry1"), (X, "MCExpiry2")]),
             core(c, [("expire", 6, 12)], None, module="ExpiryTrace"))


def C07(c):
    c.assumptions += [A_REDIS, A_TRACE, "doubles and times are compared only by order, so a small ordered domain stands for all values; the harness maps it to concrete values in several order-preserving ways"]
    d = c.dir("cases")
    cases = os.path.join(d, "cases.json")
    c.model("FilterCases", env={"OUT": cases})
    together(core(c, [("filter", 4, 12, cases)], None, module="FilterTrace", known={"known-creation-time": "[creation-time]"}),
             core(c, [("mix", 2, 6)], COMMON | {"pool-filter", "pool-active-missing", "pool-duplicate"}))


def C08(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE, "message sizes are taken at the receiving function"]
    X = "MCChunks"
    together(models(c, [(X, "MCChunks")], [(X, "MCXchunk" + b) for b in ["nosize", "omit"] + (["reset0", "first", "lose", "count", "grow"] if THOROUGH else [])],
                    [(X, "MCChunksBig")]),
             core(c, [("chunk", 7, 14)], None, module="ChunkTrace"),
             core(c, [("mix", 2, 4)], COMMON | {"pool-duplicate", "pool-set", "functions-differ", "pool-unknown"}))


def C09(c):
    c.assumptions += [A_MODEL, "chunks beyond the bounds of the model are sampled"]
    X = "MCReassemble"
    d = c.dir("cases")
    cases = os.path.join(d, "cases.json")
    c.model("ReassembleCases", env={"OUT": cases})
    together(models(c, [(X, "MCReassemble")], [(X, "MCXre" + b) for b in ["replace", "partial"] + (["front", "empty", "onemore"] if THOROUGH else [])]),
             lib(c, [("reassemble", 4, 8, cases)], None, "ReassembleTrace"))


def C10(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCMatches"], ["MCXfanin", "MCXdrain"], ["MCMatchesW"]),
             core(c, [("matches", 8, 16), ("deact", 3, 4)],
                  COMMON | {"match-invented", "match-duplicated", "match-altered", "match-after-end", "match-lost", "completed-early",
                            "invocation-never-completes", "limit-ignored", "cut-before-limit"}))


def C11(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCMatchesW"], ["MCXwait"] if THOROUGH else [], ["MCMatches"]),
             core(c, [("deact", 8, 20), ("matches", 4, 8)],
                  COMMON | {"spurious-deactivation", "not-deactivated", "delivered-before-deactivation", "pool-inactive-offered"}))


def C12(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCUpdates"]),
             core(c, [("invalid", 4, 8)],
                  COMMON | {"invalid-accepted", "spurious-update", "spurious-deactivation", "not-written", "failure-not-reported", "stored-but-failed", "outcome-inconsistent"}))


def C13(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCTwo"]),
             core(c, [("watch", 8, 16), ("replicas", 3, 6)],
                  COMMON | {"watch-unlisted", "watch-duplicate", "watch-wrong-assignment", "watch-never-ends", "watch-ended-early", "watch-unanswered"}))


def C14(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    X = "MCHold"
    together(models(c, ["MCLive", (X, "MCHold")], [(X, "MCXholdwatch"), (X, "MCXholdsend")]),
             core(c, [("hostile", 10, 20), ("soak", 2, 4), ("deact", 3, 4), ("invalid", 2, 4), ("watch", 2, 4)],
                  COMMON | {"invocation-never-completes", "held-after-end"}))


def C15(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE]
    together(models(c, ["MCTwo"]),
             core(c, [("log", 12, 24), ("trim", 4, 8), ("replicas", 3, 6), ("bulk", 2, 6)],
                  COMMON | {"log-gap", "log-not-followed", "log-reread", "trimmed-early", "not-trimmed", "too-many-connections", "ticket-content", "watch-wrong-assignment"}))


def C16(c):
    c.assumptions += [A_MODEL, "pool sizes beyond those enumerated are sampled"]
    X = "MCSampleFns"
    d = c.dir("cases")
    cases = os.path.join(d, "cases.json")
    c.model("SampleCases", env={"OUT": cases})
    together(models(c, [(X, "MCSampleFns")], [(X, "MCXfn" + b) for b in ["keep", "greedyend"] + (["short", "reuse", "brshort"] if THOROUGH else [])],
                    [(X, "MCSampleFnsBig")]),
             lib(c, [("samples", 4, 16, cases)], None, "SampleTrace"))


def C17(c):
    c.assumptions += [A_MODEL, A_TRACE, "the matchmaker is observed by a stand-in for om-core, which streams it matches of made-up tickets; which matches it rejects is its own choice and told by its metrics"]
    X = "MCMatchmaker"
    together(models(c, [(X, "MCMatchmaker"), (X, "MCMatchmakerFront")],
                    [(X, "MCXmm" + b) for b in ["lateadd", "bounded", "rest"] + (["nowait", "one", "shared", "keep", "skip", "all"] if THOROUGH else [])],
                    [(X, "MCMatchmakerFrontBig"), (X, "MCMatchmakerBig")]),
             maker(c, 18, 54))


def C18(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE, "what a function sent before the time limit cut it off may or may not have arrived; how a call ends that its caller gives up is open; durations are judged roughly"]
    X = "MCMetrics"
    together(models(c, [(X, "MCMetrics")], [(X, "MCXmet" + b) for b in ["allcancel", "onok", "asked"] + (["leakcancel", "leaktimeout", "plusone", "lastname", "refused", "failedonly", "noerr", "swap"] if THOROUGH else [])],
                    [(X, "MCMetrics1"), (X, "MCMetricsBig")]),
             core(c, [("metrics", 12, 24)], None, module="MetricsTrace"))


def C19(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE, "extensions are of types that the server knows: others have no JSON form"]
    X = "MCGateway"
    together(models(c, [(X, "MCGateway")], [(X, "MCXgw" + b) for b in ["buffer", "mid", "body"] + (["late", "ok", "swallow", "array"] if THOROUGH else [])]),
             core(c, [("gateway", 8, 18)], None, module="GatewayTrace"),
             core(c, [(f, 2, 6, "http") for f in ["mix", "outcome", "invalid", "watch", "matches", "deact"]], None, also=["GatewayTrace"]))


def C20(c):
    c.assumptions += [A_REDIS, A_MODEL, A_TRACE, "real time: lateness of a batch is judged with a slack"]
    X = "MCBatching"
    together(models(c, [(X, "MCBatching")], [(X, "MCXbatch" + b) for b in ["debounce", "lifo", "nolimit"] + (["patient", "again", "drop", "latetimer", "onlyfull"] if THOROUGH else [])],
                    [(X, "MCBatchingBig")]),
             core(c, [("batch", 14, 28)], None, module="BatchTrace"),
             core(c, [("mix", 3, 8), ("outcome", 3, 8), ("burst", 3, 9, bursts(c))], COMMON | {"order-in-call", "spurious-update", "not-written"}))
