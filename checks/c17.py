"""C17: the fingerprint of the image settings depends on every setting."""
import ast
from engine.q import *
from engine.carry import Carry

TECHNIQUE = "must-dataflow (which inputs every returned value is certain to carry through operations which keep them apart), with loops summarised by one round, against the declared fields of the settings"
IMG = B + "html.manips.images."
FN = IMG + "metadata.hash_image_settings"
UNSTABLE = {"hash", "id", "time.time", "time.time_ns", "random.random", "os.getpid", "uuid.uuid4", "uuid.uuid1", "os.urandom", "random.randint", "datetime.datetime.now", "time.monotonic", "os.getenv", "os.environ.get"}


def check(R):
    R.rule("depends", "the returned fingerprint carries the setting on every path")
    R.rule("order", "dictionaries contribute in the order of their sorted keys")
    R.rule("stable", "nothing which differs between processes contributes")
    p = R.p
    if FN not in p.funcs:
        R.need("hash_image_settings", 0)
    cls = find_cls(p, "ImageSettings")
    A = Ana(p, [(FN, {}, None)], distinct=True)
    R.uses(A)
    I = A.I
    root = mk("sym", p.funcs[FN].params()[0])

    def path(t):
        if t == root:
            return ()
        if t.k == "attr":
            r = path(t.a[0])
            return r and r + (t.a[1],) if r else (r + (t.a[1],) if r is not None else None)
        if t.k == "elem":
            r = path(t.a[0])
            return r + ("#",) if r in isdict else None
        if t.k in ("key", "val"):
            r = path(t.a[0])
            return r + ("#" if t.k == "key" else "*",) if r is not None else None
        if t.k == "item" and isinstance(t.a[1], T) and t.a[1].k in ("key", "elem") and path(t.a[1]) is not None:
            r = path(t.a[0])
            return r + ("*",) if r is not None else None
        return None

    leaves = []
    isdict = set()

    def walk(c, pre, seen=()):
        for f in p.all_fields(c):
            ann = p.field_annotation(c, f)
            go(ann, pre + (f,), seen + (c.qual,), f)

    def go(ann, pa, seen, f):
        if ann is not None:
            k = p.annotation_class(*ann)
            if k is not None and k.is_dataclass and k.qual not in seen:
                return walk(k, pa, seen)
            e = p.elem_annotation(*ann)
            if e is not None and e[0] is not None:
                leaves.append(pa + ("#",))
                return go((e[1], ann[1]), pa + ("*",), seen, f)
            if e is not None:
                return go((e[1], ann[1]), pa + ("*",), seen, f)
            if "dict" in ast.unparse(ann[0]).lower():
                leaves.append(pa + ("#",)); leaves.append(pa + ("*",))
                return
        leaves.append(pa)
    walk(cls, ())
    R.need("settings", len(leaves), 6)
    isdict |= {l[:-1] for l in leaves if l[-1] == "#"} | {()}

    def unordered(vs):
        out = False
        for t in vs:
            if t.k in ("key", "val", "elem") and path(t) is not None:
                out = True
            if t.k == "tup" and any(x.k in ("key", "val") and path(x) is not None for y in t.a[0] for x in y):
                out = True
            if path(t) is not None and any(path(t) == d[:len(path(t))] for d in isdict):
                out = True
        return out

    C = Carry(A, path, unordered)
    cid = A.eid[FN]
    st = {A.start(cid)[0]: {(cid, p.funcs[FN].params()[0]): frozenset([("leaf", ())])}}
    envs, esc = C.run(st, True)
    got = None
    for x in A.exits(cid):
        for s, l in I.pred[x]:
            if s in envs and l not in ("exc", "excret"):
                e = C.edge(s, x, l, C.step(s, envs[s], True), True)
                v = C.read(e, (cid, "%ret"), True)
                got = v if got is None else got & v
    got = {t[1] for t in (got or ()) if t[0] == "leaf"}
    for l in leaves:
        alt = [l]
        if l[-1] == "name" and len(l) >= 2 and l[-2] == "*":
            # a format is named by its key
            alt.append(l[:-2] + ("#",))
        if l[-1] == "#" and find_named(p, cls, l):
            alt.append(l[:-1] + ("*", "name"))
        ok = any(g == a[:len(g)] for a in alt for g in got)
        R.obl(ok, "depends", "setting %s" % ".".join(l), "the fingerprint does not depend on it on every path (or loses part of it)", FN)
    for s in C.problems:
        R.bad("order", "iteration contributing to the fingerprint", "its order is that of the dictionary", A.loc(s))
    R.ok("order", "iterations of the settings")
    for sid, f, args, kws, e in A.F.calls():
        nm = A.F.name(f)
        R.obl(nm not in UNSTABLE, "stable", "call of %s" % nm, "its result differs between processes", A.loc(sid))
    R.assume.append("each format is stored under its own name")


def find_named(p, cls, l):
    return l == ("formats", "#")
