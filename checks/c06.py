"""C06: scanning and building select the same kind of processing."""
from engine.q import *
from engine.paths import paths, clash, TooMany

TECHNIQUE = "path enumeration of the two dispatch functions with path-specific values; every pair of paths with compatible conditions must select the same handler module"
SCAN, BUILD = B + "scan_file.scan_file", B + "build_file.build_file"


def check(R):
    R.rule("agree", "no file satisfies the conditions of a scan path and of a build path which select different handlers")
    R.rule("one-kind", "every path selects exactly one handler and returns what it returns")
    hpkg = B + "handlers."
    hs = {q: f for q, f in R.p.funcs.items() if q.startswith(hpkg) and f.cls is None and f.parent is None}
    mods = {}
    for q, f in hs.items():
        if f.name in ("scan_file", "build_file"):
            mods.setdefault(f.module.name, set()).add(f.name)
    opaque = OPAQUE + tuple(q for q, f in hs.items() if f.name in ("scan_file", "build_file"))
    res = {}
    for role, q, other in (("scan", SCAN, "build_file"), ("build", BUILD, "scan_file")):
        f = R.p.func(q)
        ps = f.params()
        A = Ana(R.p, [(q, {}, None)], opaque=opaque, futures=False)
        R.uses(A)
        I = A.I
        sel = {}
        def event(s, val, I=I, A=A):
            nd = I.node(s)
            if nd.op != "call":
                return None
            fs = [t for t in val(nd.a["f"]) if t.k in ("func", "closure") and t.a[0] in opaque]
            if not fs:
                return None
            return (s, tuple(sorted({t.a[0] for t in fs})))
        try:
            ps_ = paths(A, A.start(A.eid[q])[0], event)
        except TooMany:
            R.bad("one-kind", q, "the selection cannot be enumerated")
            return
        keep = []
        for atoms, evs, end in ps_:
            R.obl(len(evs) == 1, "one-kind", "%s%s" % (q.split(".")[-1], cond(atoms)), "a file is handled by %d kinds of processing" % len(evs), A.where(end), [show(x) + (" holds" if v else " does not hold") for x, v in atoms])
            if len(evs) == 1:
                s, names = evs[0]
                R.obl(len(names) == 1, "one-kind", "%s%s" % (q.split(".")[-1], cond(atoms)), "which processing is selected cannot be determined", A.where(s)) if len(names) == 1 else None
                keep.append((atoms, {n.rsplit(".", 1)[0] for n in names}, {n.rsplit(".", 1)[1] for n in names}, s))
                R.obl(not any(n.endswith("." + other) for n in names), "agree", "%s%s" % (q.split(".")[-1], cond(atoms)), "%s calls %s" % (q, other), A.where(s))
        res[role] = (keep, A, ps)
    if len(res) < 2:
        return
    (sk, SA, sp), (bk, BA, bp) = res["scan"], res["build"]
    # the same names for the parameters of both
    ren = {mk("sym", b): mk("sym", s) for s, b in zip(sp, bp)}
    n = 0
    for sa, sm, _, ss in sk:
        for ba, bm, _, bs in bk:
            ba2 = [(subst(x, ren), v) for x, v in ba]
            # delays and the like say nothing about the file
            if any(clash(x, v, y, w) for x, v in sa for y, w in ba2):
                continue
            n += 1
            R.obl(sm & bm if len(sm) > 1 or len(bm) > 1 else sm == bm, "agree", "scan%s / build%s" % (cond(sa), cond(ba2)),
                  "scanning selects %s and building selects %s for the same file" % ("/".join(short(m) for m in sorted(sm)), "/".join(short(m) for m in sorted(bm))), BA.where(bs),
                  [show(x) + (" holds" if v else " does not hold") for x, v in list(sa) + ba2])
    R.count("pairs of compatible paths", n)
    R.assume += ["file names with a suffix like .html are not dot files without a name"]


def short(m):
    return m.split(".")[-1]


def cond(atoms):
    return "[" + ", ".join(("" if v else "not ") + show(x) for x, v in atoms if x.k != "unk") + "]"


def subst(t, ren):
    if t in ren:
        return ren[t]
    if not any(has(t, lambda y: y is k) for k in ren):
        return t
    def go(x):
        if isinstance(x, T):
            return subst(x, ren)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return mk(t.k, *[go(x) for x in t.a])
