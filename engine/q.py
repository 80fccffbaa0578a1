"""Queries over a supergraph: which states a call returns to normally, what must hold before a point is reached."""
from .terms import *
from .absint import Interp, atom, neg, truth, combos, pick
from .facts import Facts, Eff, under, MUTATING
from .project import Project, AnalysisBroken

PKG = "vanillaplusjs."
B = PKG + "build."
OPAQUE = (B + "ioutil.makedirs_safely",)
# text-level machinery which neither touches files nor decides about paths
TEXT = ("tokenizer", "serializer", "parser.", "unicode_derived", "derived_core", "ioutil.P")


def std_inline(f):
    return not any(x in f.qual for x in TEXT)


class Ana:
    def __init__(self, proj, entries, opaque=OPAQUE, inline=std_inline, futures=True, max_states=400000, max_depth=14, frozen=(), fixed=None, distinct=False):
        self.p = proj
        self.I = I = Interp(proj, opaque=opaque, inline=inline, max_states=max_states, max_depth=max_depth, frozen=frozen)
        I.distinct = distinct
        I.fixed = fixed or {}      # (class name, attribute) -> values, for instances which come from outside
        self.eid = {}
        for e in entries:
            q, bind, cls = e if isinstance(e, tuple) else (e, None, None)
            f = proj.func(q) if isinstance(q, str) else q
            self.eid[f.qual] = I.entry(f, bind, cls)
        I.run()
        self.spawned = {}       # (sid, qual) -> cid
        while futures and self._spawn():
            I.run()
        self.F = Facts(I)
        self._callidx = None

    def _spawn(self):
        I = self.I
        new = False
        for sid, rec in list(I.calls.items()):
            for (f, args, kws, entered) in rec:
                tgt = None
                if f.k == "meth" and f.a[1] in ("submit", "map") and args and (f.a[1] == "submit" or f.a[0].k == "executor"):
                    tgt, rest = args[0], args[1:]
                    if f.a[1] == "map":
                        rest = [I.elems(None, a) if False else frozenset(x for t in a for x in self._els(t)) for a in rest]
                elif f.k == "ext" and f.a[0].split(".")[-1] == "Timer" and len(args) > 1:
                    tgt, rest = args[1], []
                    for t in kws.get("args", args[2] if len(args) > 2 else frozenset()):
                        if t.k == "tup":
                            rest = list(t.a[0])
                elif f.k == "meth" and f.a[1] in ("run_in_executor",) and len(args) >= 2:
                    tgt, rest = args[1], args[2:]
                elif f.k == "ext" and f.a[0].split(".")[-1] in ("Process", "Thread", "Timer") and "target" in kws:
                    tgt = kws["target"]
                    rest = []
                    for t in kws.get("args", frozenset()):
                        if t.k == "tup":
                            rest = list(t.a[0])
                elif f.k == "ext" and f.a[0] == "asyncio.to_thread" and args:
                    tgt, rest = args[0], args[1:]
                if not tgt:
                    continue
                for t in tgt:
                    q, pre = None, []
                    if t.k in ("func", "closure"):
                        q = t.a[0]
                    elif t.k == "bound":
                        q = t.a[1]; pre = [frozenset([t.a[0]])]
                    elif t.k == "partial" and t.a[0].k == "func":
                        q = t.a[0].a[0]; pre = list(t.a[1])
                    fn = I.lookup(q) if q else None
                    if fn is None or (I.inline_pred and not I.inline_pred(fn)) or fn.qual in I.opaque:
                        continue
                    ps = fn.params()
                    vals = pre + list(rest)
                    key = (sid, q)
                    if key not in self.spawned:
                        bind = {p: v for p, v in zip(ps, vals)}
                        cid = I.entry(fn, bind)
                        if t.k == "closure":
                            I.ctxs[cid].defcid = t.a[1]
                        self.spawned[key] = cid
                        new = True
                    else:
                        cid = self.spawned[key]
                        for p, v in zip(ps, vals):
                            if not v <= I.V.get((cid, "p:" + p), frozenset()):
                                I.add((cid, "p:" + p), v)
                                new = True
        return new

    def _els(self, t):
        st = self.I.V.get((t, "*"), frozenset())
        return st or {mk("elem", t)}

    # ---- calls
    def calls(self, pred):
        """States calling something for which pred(callee term, args, kws) holds."""
        out = {}
        for sid, rec in self.I.calls.items():
            for (f, args, kws, e) in rec:
                if pred(f, args, kws):
                    out[sid] = (f, args, kws, e)
        return out

    def named(self, *names):
        """Calls to library or package functions, or to methods when the name starts with a dot."""
        ns = set(names)
        return self.calls(lambda f, a, k: (f.k in ("ext", "func", "class", "closure") and f.a[0] in ns) or (f.k == "bound" and f.a[1] in ns)
                          or (f.k == "meth" and "." + f.a[1] in ns))

    def done(self, states):
        """Edge predicate: a call made at one of the states has returned normally."""
        I = self.I
        states = set(states)
        def gen(s, t, l):
            if s in states and l not in ("exc", "call"):
                return True
            if l == "ret":
                c = I.ctxs[I.states[s][0]].csid
                return c in states
            return False
        return gen

    def after(self, states):
        """States reached by the normal return of the calls made at ``states``."""
        I = self.I
        states = set(states)
        out = set()
        for s in range(len(I.succ)):
            if s in states:
                for t, l in I.succ[s]:
                    if l not in ("exc", "call"):
                        out.add(t)
            else:
                c = I.ctxs[I.states[s][0]].csid
                if c in states:
                    for t, l in I.succ[s]:
                        if l == "ret":
                            out.add(t)
        return out

    # ---- conditions
    def holds(self, pred):
        """Edge predicate: leaving a branch by this edge means pred(atom term, truth) for every possible condition value."""
        I = self.I
        memo = {}
        def gen(s, t, l):
            if l not in ("T", "F"):
                return False
            k = (s, l)
            if k not in memo:
                at = self.F.edge_atoms(s, l)
                memo[k] = bool(at) and all(pred(x, v) for x, v in at)
            return memo[k]
        return gen

    @staticmethod
    def any(*gens):
        return lambda s, t, l: any(g(s, t, l) for g in gens)

    def exits(self, cid=None, normal=True, exceptional=False):
        I = self.I
        cids = [cid] if cid is not None else [c for c, _ in I.entries]
        out = []
        for sid, (c, pc, part) in enumerate(I.states):
            if c in cids:
                ir = I.ctxs[c].ir
                if (normal and pc == ir.exit) or (exceptional and pc == ir.excexit):
                    out.append(sid)
        return out

    def start(self, cid):
        return [s for c, s in self.I.entries if c == cid]

    def trace(self, key=None, bad=None, n=12):
        """Source positions of the path found by the last guarded()."""
        par = self.F.gpar
        k = (bad, False)
        out = []
        while k in par and len(out) < 4000:
            w = self.I.where(k[0])
            if not out or out[-1] != w:
                out.append(w)
            k = par[k]
        out.reverse()
        return out[-n:]

    def ancestors(self, sid):
        """Calling contexts of a state, innermost first."""
        out = []
        c = self.I.states[sid][0]
        while c is not None:
            out.append(c)
            cs = self.I.ctxs[c].csid
            c = self.I.states[cs][0] if cs is not None else None
        return out

    def within(self, cid, sid):
        return cid in self.ancestors(sid)

    def where(self, sid):
        return self.F.at(sid)

    def loc(self, sid):
        return self.I.where(sid)

    def V(self, *key):
        return self.I.V.get(key, frozenset())


# ---- term patterns

def attr_base(t, name):
    if t.k == "attr" and t.a[1] == name:
        return t.a[0]
    return None


def is_call(t, *names):
    return t.k == "call" and t.a[0] in names


def has(t, pred):
    return any(pred(x) for x in subterms(t))


def folder_of(t):
    """The path below the project folder (a list of parts), when the path is located from context.folder."""
    ps = parts(t)
    if ps and ps[0].k == "attr" and ps[0].a[1] == "folder":
        if len(ps) > 1 and isstr(ps[1]) and cval(ps[1]).startswith("/"):
            r = cval(ps[1])[1:]
            return ([const(r)] if r else []) + ps[2:]
        return ps[1:] if len(ps) == 1 else None
    return None


def rel(t):
    r = folder_of(t)
    return cat(r) if r else None


def find_cls(proj, name):
    hits = [c for c in proj.classes.values() if c.name == name]
    return hits[0] if len(hits) == 1 else None


def must(A, start, ends=None, choices=False):
    """For every state reachable from ``start``: the conditions every path from there has met. With ``ends``:
    leaving out conditions which merely decide whether an end is reached at all."""
    I = A.I
    co = A.F.reach(ends, back=True) if ends else None
    res = {s: frozenset() for s in start}
    work = list(start)
    while work:
        s = work.pop()
        cur = res[s]
        for (t, l) in I.succ[s]:
            nxt = cur
            if l in ("T", "F"):
                skip = co is not None and not any(u in co for u, k in I.succ[s] if k != l and k in ("T", "F"))
                if skip:
                    at = ()
                else:
                    at = {atom(x, l == "T") for x in A.F.conds(s) if not (x.k == "const" and truth(x) != (l == "T"))}
                cs = A.F.conds(s) if not skip and choices and (len(at) != 1 or choices and next(iter(at))[0].k == "const") else ()
                if len(cs) > 1 and len({truth(x) for x in cs}) > 1 and len([1 for _, k in I.succ[s] if k in ("T", "F")]) == 2 and any(x.k == "const" for x in cs):
                    at = {choice(A, s, l == "T")}
                elif choices and len(at) > 1 and len({v for _, v in at}) == 1:
                    at = {(mk("alt", frozenset(x for x, _ in at)), next(iter(at))[1])}
                if len(at) == 1:
                    x = next(iter(at))
                    if x[0].k != "const":
                        nxt = frozenset(y for y in cur if y[0] is not x[0]) | {x}
            old = res.get(t)
            new = nxt if old is None else old & nxt
            if new != old:
                res[t] = new
                work.append(t)
    return res


def norm(t, memo={}):
    """The term without the places where things were created, so that terms of different analyses compare."""
    if t in memo:
        return memo[t]
    def go(x):
        if isinstance(x, T):
            return norm(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    if t.k in ("file", "list", "set", "dict", "count", "obj", "fresh") and t.k != "any":
        n = {"file": 2, "obj": 1, "fresh": 1}.get(t.k, 0)
        r = mk(t.k, *([go(x) for x in t.a[:n]] + ["", ""][: max(0, 2 if t.k != "fresh" else 1)]))
    else:
        r = mk(t.k, *[go(x) for x in t.a])
    memo[t] = r
    return r


def choice(A, s, v):
    """A condition on the program's own state, by its text."""
    import ast
    e = A.I.node(s).a.get("e")
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        o = type(e.ops[0]).__name__
        p = {"NotEq": ast.Eq, "IsNot": ast.Is, "NotIn": ast.In}.get(o)
        if p:
            e = ast.Compare(e.left, [p()], e.comparators)
            v = not v
    return (mk("choice", ast.unparse(e) if e is not None else str(A.I.node(s).line)), v)


def emptiness(x, v):
    """(container, found empty) for a condition which tests whether a container is empty."""
    if x.k in ("list", "set", "dict"):
        return x, not v
    if x.k == "call" and x.a[0] in ("len", "bool", "any") and len(x.a) > 1 and isinstance(x.a[1], T):
        r = emptiness(x.a[1], v)
        return r if r is not None else (x.a[1], not v)
    if x.k == "cmp" and x.a[0] in ("Eq", "Lt", "LtE", "Gt", "GtE"):
        op, a, b = x.a
        if b.k != "const":
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq"}[op]
        if b.k == "const" and type(cval(b)) is int and a.k == "call" and a.a[0] == "len" and len(a.a) > 1:
            k = (op, cval(b))
            if k in (("Eq", 0), ("Lt", 1), ("LtE", 0)):
                return a.a[1], v
            if k in (("Gt", 0), ("GtE", 1)):
                return a.a[1], not v
    return None
