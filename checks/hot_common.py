"""What the checks of cold and hot rebuilds share."""
from engine.q import *
from .out_common import ADD

COLDF = B + "cold_incremental_rebuild.cold_incremental_rebuild"
EXTF = B + "cold_incremental_rebuild.check_external_files"
HOTF = B + "hot_incremental_rebuild.hot_incremental_rebuild"
BUILDF = B + "build_file.build_file"
SCANF = B + "scan_file.scan_file"
BULK = ("extend", "update", "union", "difference_update")


def cold(R):
    A = Ana(R.p, [(COLDF, {}, None)], opaque=OPAQUE + (HOTF, EXTF))
    R.uses(A)
    return A


def hot(R):
    A = Ana(R.p, [(HOTF, {}, None)], opaque=OPAQUE + (BUILDF, SCANF))
    R.uses(A)
    return A


def bound(A, q, args, kws):
    """{parameter: values} of a call of a function of the package."""
    ps = A.p.funcs[q].params()
    d = dict(zip(ps, args))
    d.update({k: v for k, v in kws.items() if isinstance(k, str)})
    return d


def conts(vs):
    return {t for t in vs if t.k in ("dict", "set", "list")}


def puts(A):
    """(state, container, keys/elements, values, containers copied from) of everything put into a container."""
    I = A.I
    for sid, f, args, kws, e in A.F.calls():
        if f.k in ("meth", "attr") and isinstance(f.a[0], T) and args:
            m = f.a[1]
            if m in ADD:
                if m in ("extend", "update", "union"):
                    if f.a[0].k == "dict":
                        for d in args[-1]:
                            ks, vs = (A.V(d, "*k"), A.V(d, "*v")) if d.k == "dict" else (frozenset([mk("key", d)]), frozenset([mk("val", d)]))
                            yield sid, f.a[0], ks, vs, conts([d])
                    else:
                        yield sid, f.a[0], I.elems(sid, args[-1]), frozenset(), conts(args[-1])
                else:
                    yield sid, f.a[0], args[-1], frozenset(), set()
            elif m == "setdefault":
                yield sid, f.a[0], args[0], args[1] if len(args) > 1 else frozenset(), set()
        if f.k == "ext" and f.a[0] in ("set", "frozenset", "list", "dict", "sorted", "tuple") and args:
            n = I.node(sid)
            for t, l in I.succ[sid]:
                if l not in ("exc", "call") and n.dst is not None:
                    for o in conts(I.rv(t, n.dst)):
                        yield sid, o, I.elems(sid, args[0]), frozenset(), conts(args[0])
    for sid in range(len(I.states)):
        n = I.node(sid)
        if n.op == "setsub":
            for o in I.rv(sid, n.a["obj"]):
                yield sid, o, I.rv(sid, n.a["idx"]), I.rv(sid, n.a["src"]), set()
        elif n.op == "augop":
            for o in I.rv(sid, n.a["l"]):
                if o.k in ("list", "set"):
                    r = I.rv(sid, n.a["r"])
                    yield sid, o, I.elems(sid, r), frozenset(), conts(r)
        elif n.op == "accadd":
            for o in I.rv(sid, n.a["obj"]):
                src = I.rv(sid, n.a["src"])
                if o.k == "dict":
                    for t in src:
                        if t.k == "tup" and len(t.a[0]) == 2:
                            yield sid, o, t.a[0][0], t.a[0][1], set()
                elif o.k in ("list", "set"):
                    yield sid, o, src, frozenset(), set()


def drops(A):
    """(state, container, keys/elements) of everything taken out of a container; elements None for everything."""
    I = A.I
    for sid, f, args, kws, e in A.F.calls():
        if f.k in ("meth", "attr") and isinstance(f.a[0], T):
            m = f.a[1]
            if m in ("remove", "discard", "pop") and (args or m == "pop"):
                yield sid, f.a[0], args[0] if args else frozenset([ANY])
            elif m in ("clear", "popitem"):
                yield sid, f.a[0], None
            elif m == "difference_update" and args:
                yield sid, f.a[0], I.elems(sid, args[0])
    for sid in range(len(I.states)):
        n = I.node(sid)
        if n.op == "delsub":
            for o in I.rv(sid, n.a["obj"]):
                yield sid, o, I.rv(sid, n.a["idx"])


def differences(A):
    """(state, result, left, right) of set differences."""
    I = A.I
    for sid in range(len(I.states)):
        n = I.node(sid)
        l = r = None
        if n.op == "bin" and n.a["op"] == "Sub":
            l, r = I.rv(sid, n.a["l"]), I.rv(sid, n.a["r"])
        elif sid in I.calls:
            for f, args, kws, e in I.calls[sid]:
                if f.k in ("meth", "attr") and f.a[1] == "difference" and args and isinstance(f.a[0], T):
                    l, r = frozenset([f.a[0]]), args[0]
        if l and n.dst is not None:
            for t, lab in I.succ[sid]:
                if lab != "exc":
                    for o in I.rv(t, n.dst):
                        yield sid, o, l, r


def loops(A):
    """{next state: (item states, done states)}"""
    I = A.I
    return {s: ([t for t, l in I.succ[s] if l == "item"], [t for t, l in I.succ[s] if l == "done"]) for s in A.F.node_states("next")}


def body(A, s, items):
    """States of one round of a loop."""
    return A.F.reach(items, stop_node=lambda x: x == s)


def uncovered(A, targets, gen, start):
    return A.F.guarded(targets, gen, start=start)
