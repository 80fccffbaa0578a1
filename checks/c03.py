"""C03: an external file's verification is skipped only if nothing about it changed."""
from engine.q import *
from engine.sigs import *
from .ext_common import *
from .c02 import from_old

TECHNIQUE = "guard analysis over the interprocedural control-flow graph: the conditions holding on every path that skips processing an external file"
COLD = B + "cold_incremental_rebuild.cold_incremental_rebuild"
HOT = B + "hot_incremental_rebuild.hot_incremental_rebuild"


def check(R):
    A = Ana(R.p, [COLD], opaque=OPAQUE + (HOT,))
    R.uses(A)
    I, F = A.I, A.F
    R.rule("integrity", "a path that does not process a configured external file passes the equality of its remembered and its configured integrity")
    R.rule("signature", "and the equality of modification time, size and inode measured now at its location with the remembered ones of the same file")
    R.rule("all", "the cold build ends the check of external files normally only after every configured file was looked at")
    R.rule("first", "the rebuild starts only after the external files were checked")
    loops = ext_loops(A)
    Pall, P, moves = handlers(A)
    if not P:
        R.bad("all", "check_external_files", "external files are never verified"); return
    done = A.done(Pall)
    use = {}
    for s, items in loops.items():
        if F.reach(items, stop_node=lambda x: x == s) & Pall:
            # loops over a list filled by another such loop handle every element by construction
            its = I.rv(s, I.node(s).a["it"])
            if its & A.todo_lists:
                continue
            use[s] = items
    R.obl(use, "all", "loop over the configured external files", "no loop over the configured external files leads to their verification")

    def item_of(t):
        return ext_key(t)

    def integ(x, v):
        if not (x.k == "cmp" and x.a[0] == "Eq" and v):
            return False
        for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            ba = attr_base(a, "integrity")
            if ba is not None and ext_item(ba) is not None and not from_old(A, a) and is_old(b, "integrity"):
                return True
        return False

    def is_old(b, f):
        if not from_old(A, b):
            return False
        return (b.k == "attr" and b.a[1] == f) or (b.k == "item" and isstr(b.a[1]) and cval(b.a[1]) == f)

    eqok = whole_eq(A)

    def olds(t):
        """Is t a remembered signature (each field from the same remembered field)?"""
        if t.k in ("attr", "item"):
            return is_old(t, "signature")
        if t.k not in ("obj", "repl"):
            return False
        for f in FIELDS:
            vals = set(fields_of(A, t, f) or ())
            # all fields by their names (**), or a value for records which lack one
            vals = {x for x in vals if not (x.k == "val" and is_old(x.a[0], "signature"))} or vals and {None}
            if vals == {None}:
                continue
            if any(x.k != "const" for x in vals):
                vals = {x for x in vals if x.k != "const"}
            if not vals or not all(is_old(x, f) and has(x, lambda y: isstr(y) and cval(y) == "signature" or y.k == "attr" and y.a[1] == "signature") for x in vals):
                return False
        return True

    def atloc(p):
        r = folder_of(p)
        return r is not None and len(r) == 1 and ext_key(r[0]) is not None

    def sig(field):
        def pred(x, v):
            if not (x.k == "cmp" and x.a[0] == "Eq" and v):
                return False
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                m = measured(A, a)
                if m is not None and m[1] == field and atloc(m[0]) and is_old(b, field):
                    return True
                if eqok:
                    p = sig_of_path(A, a)
                    if p is not None and atloc(p) and olds(b):
                        return True
                if a.k == "tup" and b.k == "tup" and len(a.a[0]) == len(b.a[0]):
                    for xs, ys in zip(a.a[0], b.a[0]):
                        if xs and ys and all(measured(A, q) and measured(A, q)[1] == field and atloc(measured(A, q)[0]) for q in xs) and all(is_old(q, field) for q in ys):
                            return True
            return False
        return pred

    for s, items in use.items():
        where = A.where(s)
        tg = {s} | set(A.exits(None, True, False)) | {q for q in range(len(I.states)) for t, l in I.pred[q] if l == "done" and t == s}
        for rule, what, pred in [("integrity", "remembered integrity", integ)] + [("signature", f, sig(f)) for f in FIELDS]:
            bad = F.guarded(tg, A.any(done, A.holds(pred)), start=items)
            R.obl(not bad, rule, "skipping an external file: %s" % what,
                  "an external file can be left unverified without its %s having been found unchanged" % what, where, A.trace(bad=min(bad)) if bad else ())
    # the loop runs unless nothing is configured; then the rebuild
    hot = set(A.named(HOT))
    R.need("calls of the rebuild", len(hot))
    over = set()
    for s in use:
        over.add(s)
    gen = A.any(lambda a, b, l: a in over and l == "done", A.holds(lambda x, v: falsy_ext(x, v) or (x.k == 'dict' and not A.V(x, '*k'))))
    bad = F.guarded(hot, gen)
    R.obl(not bad, "first", "rebuild after the external files were checked", "the rebuild can start without the configured external files having been looked at", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())
    from engine.par import Jobs
    J = Jobs(A)
    for fut, subs in J.subs.items():
        if subs & P:
            bad = J.undrained(fut, hot)
            R.obl(not bad, "first", "rebuild after the outcome of the verification is known", "the rebuild can start while an external file is still being verified or after that failed", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())
    if not any(subs & P for subs in J.subs.values()):
        R.ok("first", "verification is synchronous")
