#!/usr/bin/env python3
"""check.py ID [--repo DIR]: decide one property of /repo's current source."""
import sys, os, json, importlib, argparse, warnings, traceback
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from engine.project import Project, AnalysisBroken
from engine.report import Report


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                head, _, rest = line.partition(" | ")
                rule, _, construct = rest.partition(" | ")
                construct, _, what = construct.partition(" | ")
                out.append((rule.strip(), construct.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--evidence", default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = a.evidence or os.path.join(HERE, "evidence", a.id + ".json")
    try:
        mod = importlib.import_module("checks." + a.id.lower())
        proj = Project(a.repo)
        R = Report(a.id, proj, a.tier if a.tier in ("quick", "thorough") else "quick", seed)
        mod.check(R)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.id, e))
        return 2
    kn = known(a.id)
    left = []
    for v in R.viol:
        hit = [k for k in kn if k[0] == v["rule"] and k[1] == v["construct"]]
        if hit:
            R.known.append("%s | %s" % (v["rule"], v["construct"]))
            print("KNOWN-FINDING: property=%s %s" % (a.id, hit[0][2] or v["msg"]))
        else:
            left.append(v)
    R.viol = left
    R.evidence(ev, getattr(mod, "LEVEL", "other"), mod.TECHNIQUE)
    if left:
        rp = os.path.join(os.path.dirname(ev), a.id + ".violation.txt")
        with open(rp, "w") as f:
            for v in left:
                f.write("rule %s\nconstruct %s\nat %s\n%s\n" % (v["rule"], v["construct"], v["where"], v["msg"]))
                for t in v["trace"]:
                    f.write("    %s\n" % t)
                f.write("\n")
        for v in left:
            print("VIOLATION property=%s replay=%s" % (a.id, rp))
            print("  [%s] %s: %s (at %s)" % (v["rule"], v["construct"], v["msg"], v["where"]))
            for t in v["trace"][-8:]:
                print("      via %s" % t)
        return 1
    print("OK property=%s obligations=%d rules=%d functions=%d %.2fs" % (a.id, R.obligations, len(R.rules), len(R.units), __import__("time").time() - R.t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
