"""Shared machinery of the checks: building the code under test, running TLC, validating traces."""
import functools, hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")      # other trees only while developing the checks
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VP_BUILD") or os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


class CheckError(Exception):
    """The check itself could not give an answer."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def goenv(**kw):
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false",
             GO111MODULE="on", GONOSUMDB="*", GONOSUMCHECK="1", GOWORK="off")
    e.update(kw)
    return e


def run(cmd, cwd=None, env=None, timeout=600, check=True, quiet=True):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        raise CheckError("timeout: %s\n%s" % (" ".join(cmd), out[-3000:]))
    if check and p.returncode != 0:
        raise CheckError("failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return path
    except OSError:
        pass
    tmp = "%s.%d.%d" % (path, os.getpid(), next(_count))
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)
    return path


_count = itertools.count()
_building = threading.RLock()


def once(f):
    """Parts of a check run at the same time: each thing is built by one of them, and once."""
    done = {}

    @functools.wraps(f)
    def g(*a, **kw):
        k = repr((a, sorted(kw.items())))
        with _building:
            if k not in done:
                done[k] = f(*a, **kw)
            return done[k]
    return g


_goroot = None


def goroot():
    global _goroot
    if _goroot is None:
        _goroot = run(["go", "env", "GOROOT"], env=goenv(), cwd="/").stdout.strip()
    return _goroot


def overlay(name, repl):
    return write(os.path.join(BUILD, name), json.dumps({"Replace": repl}, indent=1))


def listen_overlay():
    """net.Listen and net.Dialer with addresses replaced according to $VP_LISTEN_MAP, so that instances can run side by side."""
    src = os.path.join(goroot(), "src/net/dial.go")
    s = open(src).read()
    sig = "func Listen(network, address string) (Listener, error) {\n"
    if s.count(sig) != 1:
        raise CheckError("net.Listen not found in " + src)
    s = s.replace(sig, sig + "\taddress = vpMap(address)\n")
    sig = "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
    if s.count(sig) != 1:
        raise CheckError("Dialer.DialContext not found in " + src)
    s = s.replace(sig, sig + "\taddress = vpMap(address)\n")
    s = s.replace('import (\n', 'import (\n\tvpsys "syscall"\n', 1)
    s += open(os.path.join(VERIF, "harness/overlay/listen.go.txt")).read()
    out = write(os.path.join(BUILD, "dial.go"), s)
    return {src: out}


def go_work():
    """A workspace of /repo's modules and the harness, outside /repo."""
    src = open(os.path.join(REPO, "go.work")).read()
    uses = re.findall(r"^\s*(?:use\s+)?(\./\S+)", src, re.M)
    uses = [os.path.normpath(os.path.join(REPO, u)) for u in uses]
    ts = os.path.join(REPO, "functions/golang/teamshooter")
    if os.path.exists(ts + "/go.mod") and ts not in uses:
        uses.append(ts)
    uses.append(os.path.join(VERIF, "harness"))
    txt = "go 1.22\n\nuse (\n" + "".join("\t%s\n" % u for u in uses) + ")\n"
    w = write(os.path.join(BUILD, "go.work"), txt)
    if os.path.exists(REPO + "/go.work.sum"):
        write(os.path.join(BUILD, "go.work.sum"), open(REPO + "/go.work.sum").read())
    return w


@once
def build_core(race=False):
    ov = overlay("ov-listen.json", listen_overlay())
    out = os.path.join(BUILD, "om-core" + ("-race" if race else ""))
    cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["."]
    run(cmd, cwd=REPO + "/core", env=goenv(), timeout=800)
    return out


@once
def build_matchmaker():
    w = go_work()
    ov = overlay("ov-listen.json", listen_overlay())
    out = os.path.join(BUILD, "matchmaker")
    run(["go", "build", "-overlay", ov, "-o", out, "."], cwd=REPO + "/matchmaker-example", env=goenv(GOWORK=w), timeout=800)
    return out


@once
def build_harness(cmd="omdrv"):
    w = go_work()
    out = os.path.join(BUILD, cmd)
    run(["go", "build", "-o", out, "./cmd/" + cmd], cwd=VERIF + "/harness", env=goenv(GOWORK=w), timeout=800)
    return out


@once
def build_inpkg(name, files, pkg="core/internal/zzverif", extra=None, module="core"):
    """Compiles a test binary out of harness files laid into a (virtual) package of the repository."""
    repl = dict(extra or {})
    for f in files:
        dst = os.path.join(REPO, pkg, os.path.basename(f).replace(".go.txt", ".go"))
        repl[dst] = f
    ov = overlay("ov-%s.json" % name, repl)
    out = os.path.join(BUILD, name + ".test")
    rel = "./" + os.path.relpath(os.path.join(REPO, pkg), os.path.join(REPO, module))
    run(["go", "test", "-vet=off", "-c", "-overlay", ov, "-o", out, rel], cwd=os.path.join(REPO, module), env=goenv(), timeout=800)
    return out


def scratch(name):
    d = os.path.join(BUILD, "run", "%s-%d-%d" % (name, os.getpid(), next(_count)))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


JAR = "/opt/veriftools/tla/tla2tools.jar"


class Tlc:
    def __init__(self):
        self.out, self.states, self.distinct, self.code = "", 0, 0, 0


def tlc(module, cfg=None, env=None, workers=4, timeout=600, args=(), ok_codes=(0,), heap="4g"):
    """Runs TLC in /verif/spec; raises CheckError unless it ends with one of ok_codes."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=_mk(BUILD))
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -XX:+UseParallelGC -Xss64m -Djava.io.tmpdir=%s" % (heap, meta)
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        p = run(cmd, cwd=SPEC, env=e, timeout=timeout, check=False)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc()
    r.out, r.code = p.stdout, p.returncode
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", r.out)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"number of states generated: (\d+)", r.out)
    if m:
        r.states = int(m.group(1))
    if r.code not in ok_codes:
        raise CheckError("TLC %s/%s ended with %d\n%s" % (module, cfg, r.code, r.out[-5000:]))
    return r


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def unq(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


RULE = re.compile(r'<<\s*"RULE",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)


def printed(out):
    """TLC wraps long printed values over several lines; undo it."""
    return re.sub(r"\n\s+", " ", out)


def validate(files, module="OMTrace", per_run=8, jobs=4, timeout=600, env=None):
    """Validates traces (JSON event arrays) with TLC; returns (hits, events): hits = [(file, pos, rule, info)]."""
    files = list(files)
    if not files:
        return [], 0
    files.sort(key=lambda f: -os.path.getsize(f))
    n = max(1, min((len(files) + per_run - 1) // per_run, len(files)))
    n = max(n, min(jobs, len(files)))
    groups = [files[k::n] for k in range(n)]

    def one(g):
        e = {"TN": str(len(g))}
        e.update(env or {})
        for k, f in enumerate(g):
            e["T%d" % (k + 1)] = os.path.abspath(f)
        r = tlc(module, env=e, workers=2, timeout=timeout)
        out = printed(r.out)
        ends = {int(a): int(b) for a, b in re.findall(r'<<\s*"TRACE-END",\s*(\d+),\s*(\d+)\s*>>', out)}
        if len(ends) != len(g):
            raise CheckError("trace validation incomplete: %s\n%s" % (g, r.out[-4000:]))
        hits = set()
        found = RULE.findall(out)
        for a, b, c, d in found:
            hits.add((g[int(a) - 1], int(b), c, unq(d)))
        if len(re.findall(r'<<\s*"RULE"', out)) != len(found):
            raise CheckError("cannot read TLC output\n" + r.out[-4000:])
        return sorted(hits), sum(ends.values())

    hits, evs = [], 0
    with ThreadPoolExecutor(jobs) as ex:
        for h, n in ex.map(one, groups):
            hits += h
            evs += n
    return sorted(hits), evs


def drive(binary, family, out, seed=None, n=1, bin_core=None, arg="", timeout=500, tier=None, env=None):
    cmd = [binary, family, "-out", out, "-seed", str(SEED if seed is None else seed), "-n", str(n), "-tier", tier or TIER]
    if bin_core:
        cmd += ["-bin", bin_core]
    if arg:
        cmd += ["-arg", arg]
    p = run(cmd, timeout=timeout, check=False, env=env)
    if p.returncode != 0:
        i = p.stdout.find("fatal error: ")
        raise CheckError("harness %s failed (%d):\n%s" % (family, p.returncode, p.stdout[i:i + 4000] if i >= 0 else p.stdout[-4000:]))
    return p.stdout
