"""Enumerates the acyclic paths of a small supergraph with path-specific values and the conditions taken."""
from .q import *
from .absint import rdefs


class TooMany(Exception):
    pass


def canon(t, v):
    """Normal form of a condition about names: suffix tests are ('suffix', term, text)."""
    t, v = atom(t, v)
    if t.k == "cmp" and t.a[0] in ("NotEq", "NotIn", "IsNot", "Is"):
        op = {"NotEq": "Eq", "NotIn": "In", "IsNot": "Eq", "Is": "Eq"}[t.a[0]]
        t, v = mk("cmp", op, t.a[1], t.a[2]), (v if t.a[0] == "Is" else not v)
    if t.k == "cmp" and t.a[0] == "Eq":
        a, b = t.a[1], t.a[2]
        if a.k == "const" and b.k != "const":
            a, b = b, a
        elif a.k == b.k == "const":
            pass
        elif b.k != "const" and a.k != "const" and show(a) > show(b):
            a, b = b, a
        # splitext(x)[1] == ".css"
        if isstr(b) and a.k in ("item", "call") and "splitext" in show(a):
            if a.k == "item" and a.a[1].k == "const" and cval(a.a[1]) in (1, -1) and a.a[0].k == "call":
                return mk("call", ".endswith", a.a[0].a[1], b), v
            if a.k == "call" and a.a[0].endswith("splitext1"):
                return mk("call", ".endswith", a.a[1], b), v
        t = mk("cmp", "Eq", a, b)
    return t, v


def clash(x, v, y, w):
    """Whether the conditions cannot both hold."""
    if x is y:
        return v is not w
    if v and w and x.k == y.k == "call" and x.a[0] == y.a[0] and x.a[0] in (".endswith", ".startswith") and len(x.a) == 3 and x.a[1] is y.a[1] and isstr(x.a[2]) and isstr(y.a[2]):
        p, q = cval(x.a[2]), cval(y.a[2])
        return not (p.endswith(q) or q.endswith(p)) if x.a[0] == ".endswith" else not (p.startswith(q) or q.startswith(p))
    if x.k == y.k == "call" and x.a[0] == y.a[0] and x.a[0] in (".endswith", ".startswith") and len(x.a) == 3 and x.a[1] is y.a[1] and isstr(x.a[2]) and isstr(y.a[2]) and v is not w:
        a, b = (cval(x.a[2]), cval(y.a[2])) if v else (cval(y.a[2]), cval(x.a[2]))
        return a.endswith(b) if x.a[0] == ".endswith" else a.startswith(b)     # a holds, b does not
    if v and w and x.k == y.k == "cmp" and x.a[0] == y.a[0] == "Eq" and x.a[1] is y.a[1] and x.a[2].k == y.a[2].k == "const":
        return x.a[2] is not y.a[2]
    return False


def consistent(atoms, x, v):
    return not any(clash(x, v, y, w) for y, w in atoms)


def paths(A, start, event, limit=20000, exc=False, steps=400000):
    """Yields (atoms, events, end state). ``event(sid, values)`` -> label or None; values(var) gives the path's values."""
    I = A.I
    out = []
    st = [(start, {}, (), (), frozenset())]
    n = 0
    while st:
        s, env, atoms, evs, seen = st.pop()
        n += 1
        if n > steps or len(out) > limit:
            raise TooMany()
        cid, pc, part = I.states[s]
        nd = I.node(s)
        def val(var, cid=cid, pc=pc, s=s, env=env):
            if (cid, var) in env:
                return env[(cid, var)]
            return I.rv(s, var)
        e = event(s, val)
        if e is not None:
            evs = evs + (e,)
        new = None
        if nd.op == "load" and (cid, nd.a["name"]) in env:
            new = env[(cid, nd.a["name"])]
        elif nd.op == "store":
            v = val(nd.a["src"])
            env = dict(env); env[(cid, nd.dst)] = v
        elif nd.op == "cmp":
            l, r = val(nd.a["l"]), val(nd.a["r"])
            if len(l) == 1 and len(r) == 1:
                new = frozenset(x for x in [I.cmp_(s, nd.a["op"], next(iter(l)), next(iter(r)))])
        elif nd.op == "attr":
            o = val(nd.a["obj"])
            if len(o) == 1:
                new = I.getattr_(None, next(iter(o)), nd.a["name"])
        elif nd.op == "ret" and I.ctxs[cid].csid is not None:
            c0 = I.states[I.ctxs[cid].csid]
            caller = I.ctxs[c0[0]].ir.nodes[c0[1]]
            env = dict(env); env[(c0[0], caller.dst)] = val(nd.a["src"])
        elif nd.op == "const":
            new = frozenset([const(nd.a["v"])])
        if nd.dst and nd.op not in ("store",):
            env = dict(env)
            if new is not None:
                env[(cid, nd.dst)] = new
            else:
                env[(cid, nd.dst)] = I.V.get((cid, nd.id), EMPTY) or I.rv(s, nd.dst)
            if nd.op == "call" and any(l == "call" for _, l in I.succ[s]):
                env.pop((cid, nd.dst), None)
        nxt = [(t, l) for t, l in I.succ[s] if exc or l != "exc" and l != "excret"]
        if not nxt:
            out.append((atoms, evs, s))
            continue
        conds = val(nd.a["c"]) if nd.op == "branch" else None
        for t, l in nxt:
            at = atoms
            if conds is not None and l in ("T", "F"):
                want = l == "T"
                cs = [x for x in conds if not (x.k == "const" and truth(x) != want) and not (x.k in ("mod", "func", "bound", "class", "closure", "obj", "tup") and not want)]
                if not cs:
                    continue
                if len(cs) == 1 and cs[0].k not in ("const", "mod", "func", "bound", "class", "closure", "obj"):
                    x, v = canon(cs[0], want)
                    if not consistent(at, x, v):
                        continue
                    if (x, v) not in at:
                        at = at + ((x, v),)
                elif len(cs) > 1:
                    x, v = mk("unk", I.where(s), s), want
                    if not consistent(at, x, v):
                        continue
                    at = at + ((x, v),)
            if (t, l) in seen:
                continue
            st.append((t, env, at, evs, seen | {(t, l)}))
    return out
