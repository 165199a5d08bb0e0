#!/usr/bin/env python3
"""Decide one property from /repo's current sources:  check.py <ID> [--tier quick|thorough]

exit 0: the property holds on everything analysed;  exit 1: violation (one VIOLATION line per construct);
exit 3: the analysis itself could not be carried out (no verdict)."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import model

LEVEL = "other"


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []          # (key, loc, message)
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.rule = ""

    def report(self, key, loc, msg):
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, loc, msg))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, least=1):
        if self.counts.get(name, 0) < least:
            raise model.AnalysisBroken("only %d %s found, expected at least %d: the analysis lost its subject"
                                       % (self.counts.get(name, 0), name, least))


def known(pid):
    out = {}
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                rest = line[len("known: property=" + pid + " "):]
                key, _, what = rest.partition(" :: ")
                assert key.startswith("key="), line
                out[key[4:].strip()] = what
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    c = Ctx(pid, tier)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(c)
    except model.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        kn = known(pid)
        if not any(k not in kn for k, _, _ in c.viol):
            sys.exit(3)
        # what was found before the analysis gave up is still a violation
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        sys.exit(3)
    kn = known(pid)
    new = [(k, l, m) for k, l, m in c.viol if k not in kn]
    print("property %s: rule: %s" % (pid, c.rule))
    print("analysed: " + ", ".join("%s=%s" % (k, v) for k, v in c.counts.items()))
    for k, l, m in c.viol:
        if k in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    rd = HERE + "/replays"
    os.makedirs(rd, exist_ok=True)
    rp = "%s/%s.txt" % (rd, pid)
    with open(rp, "w") as fh:
        for k, l, m in new:
            fh.write("%s\n  key: %s\n  %s\n\n" % (l, k, m))
    for k, l, m in new:
        print("  %s: %s\n      [key=%s]" % (l, m, k))
    for k, l, m in new:
        print("VIOLATION property=%s replay=%s %s: %s" % (pid, rp, l, m.split("\n")[0]))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    cov = {"explanation": c.rule, "counts": c.counts}
    if c.notes:
        cov["notes"] = c.notes
    cov["known_findings_seen"] = [k for k, _, _ in c.viol if k in kn]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL,
          "coverage": cov, "assumptions": c.assumptions or ["the source parses as the build compiles it (clang 18, build flags of /repo)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open("%s/evidence/%s.json" % (HERE, pid), "w") as fh:
        json.dump(ev, fh, indent=1)
    if new:
        sys.exit(1)
    print("OK property %s holds (%.1f s)" % (pid, time.time() - t0))


main()
