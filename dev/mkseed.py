"""Makes and tries planted bugs. A batch file calls seed(...) for each; `python3 batch.py [ID...]` does it.
For each: patch made in a copy of /repo, built, stable packages tested, demonstration run without and with it,
and kept in /verif/seeded/<id>.  Then the check of the property is run against the copy."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(V, "dev/seedlib")
ONLY = sys.argv[1:]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def seed(id, prop, needs, breaks, edits, demo, ws=False, checks=None, files=None):
    if ONLY and id not in ONLY:
        return
    base = "/tmp/seed-" + id
    tree = base + "/repo"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        sh("cp -a /repo " + tree, "/")
        d = base + "/new"
        os.makedirs(d)
        for f in ("lib.go.txt", "demo.sh") if not ws else ("wslib.go.txt", "wsdemo.sh"):
            shutil.copy(LIB + "/" + f, d + "/" + f.replace("ws", ""))
        if not ws:
            s = open(V + "/harness/fakeredis/fakeredis.go").read()
            open(d + "/fakeredis.go.txt", "w").write(s)
        open(d + "/demo.go.txt", "w").write(demo.lstrip())
        for n, txt in (files or {}).items():
            open(d + "/" + n, "w").write(txt)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        t = time.time()
        r = sh("bash %s/demo.sh" % d, tree, timeout=300)
        print(id, "clean demo:", r.returncode, "%.0fs" % (time.time() - t), flush=True)
        if r.returncode != 0:
            print(r.stdout[-2500:])
            return
        for f, old, new in edits:
            p = tree + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        sh("gofmt -l core mmf functions matchmaker-example", tree)
        open(d + "/patch.diff", "w").write(sh("git diff", tree).stdout)
        b = sh("export GOWORK=off GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off; cd core && go build -o /dev/null . && go test -json ./internal/... . 2>&1; cd ..; bash %s/dev/mkwork.sh $PWD ../w.work; export GOWORK=$(realpath ../w.work); go build -o /dev/null $(go list -m -f '{{.Dir}}/...') 2>&1 && echo BUILT" % V, tree, timeout=300)
        passed = set()
        for l in b.stdout.splitlines():
            try:
                j = json.loads(l)
                if j.get("Action") == "pass" and j.get("Test"):
                    passed.add(j["Package"] + "/" + j["Test"])
            except ValueError:
                pass
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
        bad = miss or not b.stdout.rstrip().endswith("BUILT")
        print(id, "build+tests:", "BAD %s %s" % (sorted(miss)[:3], b.stdout[-600:]) if bad else "ok", flush=True)
        if bad:
            return
        rs = []
        for k in range(3):
            r = sh("bash %s/demo.sh" % d, tree, timeout=300)
            rs.append(r.returncode)
        print(id, "bug demo:", rs, r.stdout[-300:].strip(), flush=True)
        if 0 in rs:
            return
        out = os.path.join(V, "seeded", id)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        for c in checks or [prop]:
            t = time.time()
            env = dict(os.environ, VP_REPO=tree, VP_BUILD=base + "/.vpb", VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run([V + "/bin/check", c], env=env, capture_output=True, text=True)
            vs = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
            print(id, "check", c, "->", r.returncode, "%.0fs" % (time.time() - t), vs or r.stdout[-600:], flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
