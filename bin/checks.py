#!/usr/bin/env python3
"""bin/check <property>

Each check (1) checks the specification that states the property with TLC, (2) builds the code under
test from /repo as it is now, (3) drives it and records what it does, (4) lets TLC decide whether the
recorded behaviour is one the specification allows.  Exit 0: it is.  Exit 1 and a VIOLATION line: it is
not.  Exit 2: no answer.
"""
import glob, importlib, json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from vp import CheckError, log, TIER, SEED, VERIF, BUILD


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.assumptions, self.viol, self.notes, self.known = [], [], [], {}, []
        self.dirs = []
        self.findings = load_findings(prop)

    def dir(self, name):
        d = vp.scratch("%s-%s" % (self.prop, name))
        self.dirs.append(d)
        return d

    # -- the specification on its own
    def model(self, module, cfg=None, **kw):
        r = vp.tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.states
        n = self.notes.setdefault("model_runs", [])
        n.append({"module": module, "config": cfg or module + ".cfg", "distinct_states": r.distinct, "states_generated": r.states})
        log("TLC %s %s: %d states, %d transitions" % (module, cfg or "", r.distinct, r.states))
        return r

    # -- recorded behaviour against the specification
    def traces_ok(self, files, rules, module="OMTrace", known=None, **kw):
        files = list(files)
        if not files:
            raise CheckError("nothing was recorded")
        hits, evs = vp.validate(files, module=module, **kw)
        self.traces += len(files)
        self.events += evs
        if len(self.samples) < 3:
            f = files[0]
            t = json.load(open(f))
            self.samples.append({"trace": os.path.basename(f), "length": len(t), "first": t[:4]})
        other = {}
        for f, pos, rule, info in hits:
            if known and rule in known:
                mine = [x for x in self.findings if known[rule] in x]
                if mine:
                    self.known_finding(mine[0])
                    continue
            if rules is None or rule in rules:
                self.violation(rule, info, f, pos)
            else:
                if rule not in other:
                    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
                    q = os.path.join(BUILD, "replay", "%s-other-%s-%s" % (self.prop, rule, os.path.basename(f)))
                    shutil.copyfile(f, q)
                    log("rule %s (of another property) broken at %s of %s: %s" % (rule, pos, q, info[:300]))
                other[rule] = other.get(rule, 0) + 1
                if rule.startswith("harness"):
                    raise CheckError("harness fault: %s %s in %s at %d" % (rule, info, f, pos))
        if other:
            self.notes.setdefault("rules_of_other_properties_broken", {}).update(other)
            log("broken, but not of this property:", other)
        log("validated %d traces, %d events; %d broken rules" % (len(files), evs, len(hits)))

    def violation(self, rule, info, source=None, pos=None):
        self.viol.append((rule, info, source, pos))

    def known_finding(self, what):
        if what not in self.known:
            self.known.append(what)

    def finish(self):
        rep = os.path.join(BUILD, "replay")
        os.makedirs(rep, exist_ok=True)
        level = LEVEL.get(self.prop, "model_checking")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:4] or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - vp.T0, 2), "violations": len(self.viol)}
        if self.known:
            cov["known_findings_met"] = self.known
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.viol:
            p = ""
            for k, (rule, info, source, pos) in enumerate(self.viol[:20]):
                q = os.path.join(rep, "%s-%d-%d.json" % (self.prop, SEED, k))
                if source and os.path.exists(source):
                    q2 = os.path.join(rep, "%s-%s" % (self.prop, os.path.basename(source)))
                    shutil.copyfile(source, q2)
                else:
                    q2 = None
                with open(q, "w") as f:
                    json.dump({"property": self.prop, "rule": rule, "info": info, "trace": q2, "position": pos, "seed": SEED, "tier": TIER}, f, indent=1)
                p = p or q
                print("broken rule %s at %s of %s: %s" % (rule, pos, q2, str(info)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        for x in self.dirs:
            shutil.rmtree(x, ignore_errors=True)
        log("%s: %d states, %d traces, %d violations" % (self.prop, self.states, self.traces, len(self.viol)))
        return 1 if self.viol else 0


LEVEL = {}


def load_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    import props
    f = getattr(props, prop, None)
    if f is None:
        print("no check for", prop)
        return 2
    c = Check(prop)
    try:
        f(c)
    except CheckError as e:
        if c.viol:      # what was found stands
            print("incomplete:", str(e)[:1500])
            return c.finish()
        print("CHECK-ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        if c.viol:
            return c.finish()
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
