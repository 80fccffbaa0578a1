"""The development server's file-event handler: its record of pending events, its lock, and lock-held states."""
import ast
from engine.q import *

HOT = B + "hot_incremental_rebuild.hot_incremental_rebuild"
OPQ = OPAQUE + (HOT, B + "cold_incremental_rebuild.cold_incremental_rebuild", PKG + "runners.build.build", PKG + "runners.run.run")
LOCKS = ("threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore",
         "multiprocessing.Lock", "multiprocessing.RLock")
REENTRANT = ("threading.RLock", "threading.Condition", "multiprocessing.RLock")
MUT = {"add", "remove", "discard", "clear", "update", "pop", "append", "extend", "insert", "popleft", "appendleft", "popitem", "setdefault",
       "difference_update", "intersection_update", "symmetric_difference_update", "__ior__", "__isub__"}


def handler_class(p):
    hits = [c for c in p.classes.values() if any(isinstance(b, (ast.Name, ast.Attribute)) and ast.unparse(b).split(".")[-1].endswith("EventHandler") for b in c.node.bases)
            and any(m.startswith("on_") or m == "dispatch" for m in c.methods)]
    return hits


class Handler:
    def __init__(self, p, cls):
        self.p = p; self.cls = cls
        ms = {}
        for k in reversed(p.mro(cls)):
            ms.update(k.methods)
        self.methods = ms
        called = set()
        for name, m in ms.items():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in ms and x.attr != name:
                    called.add(x.attr)
        self.callbacks = [m for n, m in ms.items() if n.startswith("on_") or n == "dispatch"]
        self.ctor = ms.get("__init__")
        # what is called on a handler from outside of the class
        outside = set()
        for f in p.funcs.values():
            if f.cls is cls:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr in ms and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                    outside.add(x.attr)
        self.loop = [m for n, m in ms.items() if m not in self.callbacks and n != "__init__" and not m.is_property and not m.is_static
                     and (n in outside or (n not in called and not n.startswith("__")))]
        self.entries = [(m, None, cls) for m in self.callbacks + self.loop]

    def analyse(self, extra=()):
        es = list(self.entries) + list(extra)
        A = Ana(self.p, es, opaque=OPQ)
        self.A = A
        self.I = A.I
        self.selfs = {t for t, c in A.I.symtype.items() if c is self.cls or self.cls in self.p.mro(c)} | {mk("sym", "self")}
        return A

    # ---- locations
    def loc_of(self, t):
        """('a','b') for self.a.b; None when the term is not part of a handler."""
        out = []
        while t.k == "attr":
            out.append(t.a[1]); t = t.a[0]
        if t in self.selfs and out:
            return tuple(reversed(out))
        return None

    def base_loc(self, t):
        if t in self.selfs:
            return ()
        return self.loc_of(t)


def lock_types(p, cls):
    """Attribute path -> constructor of the lock, for the locks the constructors create."""
    out = {}
    def visit(k, pre, d):
        if d > 3:
            return
        ini = p.find_method(k, "__init__")
        if ini is None:
            return
        for st in ast.walk(ini.node):
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        for v in ([st.value] if not isinstance(st.value, ast.IfExp) else [st.value.body, st.value.orelse]):
                            if isinstance(v, ast.Call):
                                r = p.resolve_expr(v.func, k.module)
                                if r and r[0] == "ext" and r[1] in LOCKS:
                                    out[pre + (t.attr,)] = r[1]
                                elif r and r[0] == "class" and p.classes[r[1]] is not k:
                                    visit(p.classes[r[1]], pre + (t.attr,), d + 1)
    visit(cls, (), 0)
    return out


def held_states(H, locks):
    """Explores (state, held) where held is a sorted tuple of (lock, depth); returns state -> set of held, plus problems."""
    A, I = H.A, H.I
    out = {}
    probs = []
    # values the constructor stored as locks
    lv = {}
    for t in H.selfs:
        for l in locks:
            x = frozenset([t])
            for name in l:
                x = frozenset(v for y in x for v in A.V(y, name))
            for v in x:
                lv.setdefault(v, set()).add(l)
    def lockof(t):
        l = H.loc_of(t)
        if l in locks:
            return l
        h = lv.get(t, ())
        return next(iter(h)) if len(h) == 1 else None
    work = [(s, ()) for _, s in I.entries]
    seen = set(work)
    acq_calls = {}
    for sid, rec in I.calls.items():
        for f, a, k, e in rec:
            if f.k == "meth" and f.a[1] in ("acquire", "release", "__enter__", "__exit__"):
                l = lockof(f.a[0])
                if l in locks:
                    acq_calls.setdefault(sid, []).append((f.a[1], l, bool(a) or bool(k), f))
    def inc(h, l, n):
        d = dict(h)
        d[l] = d.get(l, 0) + n
        if d[l] == 0:
            del d[l]
        return tuple(sorted(d.items()))
    par = {}
    while work:
        s, h = k0 = work.pop()
        out.setdefault(s, set()).add(h)
        n = I.node(s)
        ops = []     # (which, lock, only on normal)
        if n.op in ("with_enter", "with_exit"):
            for t in I.rv(s, n.a["ctx"]):
                l = lockof(t)
                if l in locks:
                    ops.append((1 if n.op == "with_enter" else -1, l))
        for m, l, args, f in acq_calls.get(s, ()):
            if m in ("acquire", "__enter__"):
                if not args:
                    ops.append((1, l))
            else:
                ops.append((-1, l))
        cond = []
        if n.op == "branch":
            for t in A.F.conds(s):
                tt, val = atom(t, True)
                if tt.k == "call" and len(tt.a) > 1 and tt.a[0] in ("acquire", ".acquire"):
                    l = lockof(tt.a[1])
                    mine = {x[2] for q, xs in acq_calls.items() if I.states[q][0] == I.states[s][0] for x in xs if x[0] == "acquire" and x[1] == l}
                    if l in locks and mine == {True}:
                        cond.append((l, "T" if val else "F"))
        for t, lab in I.succ[s]:
            nh = h
            if lab != "exc":
                for d, l in ops:
                    cur = dict(h).get(l, 0)
                    if d > 0 and cur and locks[l] not in REENTRANT:
                        probs.append(("deadlock", s, l))
                    if d < 0 and not cur:
                        probs.append(("unheld-release", s, l))
                        continue
                    nh = inc(nh, l, d)
            else:
                for d, l in ops:
                    if d < 0 and dict(h).get(l, 0):
                        nh = inc(nh, l, d)
            for l, which in cond:
                if lab == which:
                    nh = inc(nh, l, 1)
            if sum(x for _, x in nh) > 6:
                probs.append(("unreleased", s, nh[0][0]))
                continue
            k = (t, nh)
            if k not in seen:
                seen.add(k); par[k] = k0
                work.append(k)
    H.hpar = par
    return out, probs
