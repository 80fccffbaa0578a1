"""Collects obligations, violations and coverage of one check; writes the evidence file."""
import json, os, time
from .project import AnalysisBroken


class Report:
    def __init__(self, prop, proj, tier="quick", seed=1):
        self.prop = prop; self.p = proj; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.viol = []          # {rule, construct, where, msg, trace}
        self.counts = {}
        self.rules = []
        self.units = set()
        self.samples = []
        self.assume = []
        self.known = []

    def rule(self, name, text):
        self.rules.append("%s: %s" % (name, text))

    def ok(self, rule, construct, n=1):
        self.obligations += n; self.discharged += n
        self.count(rule, n)
        if len(self.samples) < 12 and not any(s.startswith(rule) for s in self.samples[-2:]):
            self.samples.append("%s: %s" % (rule, construct))

    def bad(self, rule, construct, msg, where="", trace=()):
        self.obligations += 1
        self.count(rule, 1)
        for v in self.viol:
            if v["rule"] == rule and v["construct"] == construct:
                return
        self.viol.append(dict(rule=rule, construct=construct, msg=msg, where=where, trace=list(trace)))

    def obl(self, cond, rule, construct, msg="", where="", trace=()):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, msg, where, trace)
        return cond

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, n, least=1):
        """A rule that matches nothing proves nothing."""
        self.counts["instances " + what] = n
        if n < least:
            raise AnalysisBroken("%s: found %d instances of %s, expected at least %d" % (self.prop, n, what, least))

    def uses(self, A):
        for c in A.I.ctxs:
            self.units.add(c.func.qual)
        self.counts["supergraph states"] = self.counts.get("supergraph states", 0) + len(A.I.states)
        self.counts["call sites in context"] = self.counts.get("call sites in context", 0) + len(A.I.calls)
        if A.I.truncated:
            self.counts["calls left symbolic for recursion or depth"] = len(A.I.truncated)

    def evidence(self, path, level, technique):
        cov = {
            "explanation": "Decided from the source of %s (digest %s) by %s; nothing of the repository was executed." % (self.p.root, self.p.digest[:16], technique),
            "rule": " | ".join(self.rules),
            "obligations": self.obligations,
            "discharged": self.discharged,
            "functions_analysed": len(self.units),
            "functions": sorted(x[len("vanillaplusjs."):] for x in self.units)[:400],
            "measured": self.counts,
            "samples": self.samples,
            "known_findings": self.known,
            "exhaustive": True,
        }
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 3), violations=len(self.viol))
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, path)
