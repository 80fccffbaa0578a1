"""C07: what building reports as produced or reused is of a form the scan of the same file announces."""
import ast
from engine.q import *
from engine.absint import neg
from checks.out_common import *

TECHNIQUE = "abstract interpretation of each scan and build step (manipulators driven in every order); inclusion of the reported path forms, and must-condition comparison of the places that record them"
REL = mk("sym", "relpath")


def check(R):
    R.rule("announced", "every path form which building reports as produced or reused is accepted by a path form which scanning announces")
    R.rule("conditions", "what scanning requires before it announces such a path, building requires as well")
    R.rule("forwarded", "a step which forwards the outputs of a partial build forwards the announcements of the same partial scan")
    R.rule("numbering", "where outputs are numbered, scanning and building advance the number under the same conditions")
    ms = manipulators(R.p)
    R.need("rewriting steps with a scan and a build", len(ms))
    jobs = [("manip", c, c.qual) for c in ms] + [("handler", h, h) for h in handlers(R.p)]
    R.need("kinds of files", len(jobs) - len(ms))
    n = 0
    for kind, x, name in jobs:
        if kind == "manip":
            SA, sq = drive_manip(R.p, x, "scan")
            BA, bq = drive_manip(R.p, x, "build")
            ren = None
        else:
            SA, sq, r1 = drive_handler(R.p, x, "scan_file", ms)
            BA, bq, r2 = drive_handler(R.p, x, "build_file", ms)
        R.uses(SA)
        R.uses(BA)
        n += compare(R, name, kind, SA, sq, BA, bq)
    R.need("output forms of builds", n)
    R.assume += ["variable name components (an icon's name, an image format) compare as equal when both are variable"]


def compare(R, name, kind, SA, sq, BA, bq):
    s, b = reported(SA, sq), reported(BA, bq)
    sc = {form(t, REL): t for t in s.get("produces", ()) if t is not NONE}
    bd = {}
    for f in ("produced", "reused"):
        for t in b.get(f, ()):
            if t is not NONE:
                bd.setdefault(form(t, REL), t)
    short = name.split("vanillaplusjs.")[-1].replace("build.", "")
    sr, br = at_return(SA, sq, REL, True), at_return(BA, bq, REL)
    ss, sat = recorded(SA, sq, REL, kind == "handler", True)
    bs, bat = recorded(BA, bq, REL, kind == "handler")
    for f, t in sorted(bd.items(), key=lambda x: showform(x[0])):
        acc = [g for g in sc if accepts(g, f)]
        rule = "forwarded" if f and f[0][0] == "m" else "announced"
        at = BA.where(bat[("P", f)]) if ("P", f) in bat else ""
        if not R.obl(bool(acc), rule, "%s: %s" % (short, showform(f)), "building may report %s, which scanning never announces" % showform(f), at,
                     ["scanning announces only: " + ", ".join(sorted(map(showform, sc))[:12])]):
            continue
        bad = None
        for sx, bx in ((ss, bs), (sr, br)):
            places = [x for g in acc for x in sx.get(("P", g), ())]
            if not places or ("P", f) not in bx:
                continue
            need = frozenset.intersection(*places)
            for m in bx[("P", f)]:
                if not any(p <= m for p in places) and need - m:
                    bad = need - m
        R.obl(bad is None, "conditions", "%s: %s" % (short, showform(f)), "scanning announces it only under a condition building does not need", at,
              ["only if %s%s" % ("" if v else "not ", show(x)) for x, v in (bad or ())])
    # numbered outputs: the number is advanced in the same cases
    sn, bn = numbering(SA, sq, s), numbering(BA, bq, b)
    for k in sorted(set(sn) & set(bn)):
        d = set()
        for m in bn[k]:
            if m not in sn[k]:
                d = min((set(m ^ o) for o in sn[k]), key=len)
                break
        R.obl(not d, "numbering", "%s: number advanced at %s line %d" % (short, k[0].split(".")[-1], k[2]), "scanning and building advance the number in different cases", "",
              ["%s%s" % ("" if v else "not ", show(x)) for x, v in sorted(d, key=lambda y: show(y[0]))])
    return len(bd)


def fleeting(I, c, n):
    """A local variable advanced once in a call is no running number."""
    ir = I.ctxs[c].ir
    stores = [ir.nodes[t] for t, l in n.succ if ir.nodes[t].op == "store" and ir.nodes[t].a["src"] == n.dst]
    if len(stores) != 1 or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(I.ctxs[c].func.node)):
        return False
    seen, st = set(), [t for t, l in n.succ]
    while st:
        t = st.pop()
        if t not in seen:
            seen.add(t)
            st += [u for u, l in ir.nodes[t].succ]
    return n.id not in seen


def numbering(A, q, rep):
    I = A.I
    ids = set()
    for f in ("produces", "produced", "reused"):
        for t in rep.get(f, ()):
            for x in subterms(t):
                if x.k == "count":
                    ids.add((x.a[0], x.a[1]))
    out = {}
    if not ids:
        return out
    M = must(A, A.start(A.eid[q]), A.F.exits(), True)
    for s, (c, pc, part) in enumerate(I.states):
        n = I.node(s)
        if (I.ctxs[c].sig, n.id) in ids and s in M and not fleeting(I, c, n):
            out.setdefault((I.func(s).qual, n.id, n.line), set()).add(frozenset((norm(x), v) for x, v in M[s]))
    return out
