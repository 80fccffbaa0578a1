"""C32: a freshly written configuration has what a build needs."""
import ast
import operator
from decimal import Decimal, InvalidOperation
from engine.q import *
from engine.consts import explore

TECHNIQUE = "the configuration literal which init writes is reconstructed from the source and every read of the configuration in the build's call graph (terms rooted at the loaded file) is resolved in it: keys, types, method receivers and rejecting branches"
INIT = "vanillaplusjs.runners.init."
BUILD = "vanillaplusjs.runners.build.build"
COLD = B + "cold_incremental_rebuild.cold_incremental_rebuild"
HOT = B + "hot_incremental_rebuild.hot_incremental_rebuild"
LOAD = B + "graph.FileDependencyGraph.load"
ICONS = B + "css.manips.icons.settings.load_icon_settings"
CONFIG = "vanillaplusjs.json"


class Sent:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


UNK, MISSING = Sent("unknown"), Sent("missing")


def check(R):
    R.rule("key", "every key which a build looks up in the configuration without a fallback is in the configuration that init writes")
    R.rule("type", "every value of it which a build checks or uses by a method has that type")
    R.rule("accepted", "the build starts: no check of a configuration value turns the one that init writes away")
    lits = literals(R)
    if not lits:
        R.assume.append("the configuration written by init could not be reconstructed; nothing is decided about it")
        R.ok("key", "init")
        return
    entries = [BUILD] + [m.qual for m in prepares(R.p)]
    A = Ana(R.p, [(q, {}, None) for q in entries], opaque=OPAQUE + (COLD, HOT, LOAD, ICONS))
    R.uses(A)
    for lit in lits:
        reads(R, A, lit, entries)


def prepares(p):
    """Methods of the development server which load the configuration."""
    from .dev_common import handler_class
    out = []
    for c in handler_class(p):
        for m in c.methods.values():
            if m.name == "prepare_rebuild":
                out.append(m)
    return out


# ---- what init writes
def literals(R):
    A = Ana(R.p, [(INIT + "init", {}, None)])
    R.uses(A)
    I, F = A.I, A.F
    out = []
    paths = {}
    for sid, f, args, kws, e in F.calls():
        if f.k == "ext" and f.a[0] == "json.dump" and len(args) > 1:
            if any(isconf(t) for t in args[1]):
                out += [d for d in args[0]]
        elif f.k in ("attr", "meth") and f.a[1] in ("write", "write_text") and args and isconf(f.a[0]):
            for t in args[0]:
                out += [x for x in unwrap(t)]
    lits = []
    for d in out:
        v = value(A, d, 0)
        if isinstance(v, dict):
            lits.append(v)
    return lits


def unwrap(t):
    if t.k == "call" and t.a[0] == "json.dumps" and len(t.a) > 1:
        return [t.a[1]]
    return [y for x in t.a if isinstance(x, T) for y in unwrap(x)] if t.k in ("cat", "bin") else []


def isconf(t):
    if t.k == "file":
        t = t.a[0]
    ps = parts(t)
    return bool(ps) and isstr(ps[-1]) and cval(ps[-1]).split("/")[-1] == CONFIG


def value(A, t, d):
    """The Python value of a term, as JSON would have it; UNK where it is not known."""
    if d > 12:
        return UNK
    if t.k == "const":
        return cval(t)
    if t.k == "dict":
        ks = A.V(t, "*k")
        if any(not isstr(k) and k.k != "const" for k in ks) or (t, "~") in A.I.V and A.I.V[(t, "~")]:
            return UNK
        out = {}
        for k in ks:
            vs = A.I.V.get((t, "[" + repr(cval(k))), None)
            if vs is None:
                vs = A.I.V.get((t, "['%s'" % cval(k)), frozenset())
            out[cval(k) if isinstance(cval(k), str) else str(cval(k))] = one(A, vs, d)
        return out
    if t.k == "sym":
        return default(A, t)
    if t.k == "list":
        return [value(A, x, d + 1) for x in A.V(t, "*")]
    if t.k == "tup":
        return [one(A, x, d) for x in t.a[0]]
    if t.k in ("bin", "call"):
        v = number(A, t, d)
        return str(v) if isinstance(v, Decimal) else v
    return UNK


ARITH = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow}


def number(A, t, d):
    """The value of an arithmetic expression of constants (a decimal is written as text)."""
    if t.k == "const":
        return cval(t)
    try:
        if t.k == "call" and str(t.a[0]).split(".")[-1] in ("Decimal", "float", "int", "str") and len(t.a) == 2 and isinstance(t.a[1], T):
            v = number(A, t.a[1], d)
            return UNK if v is UNK else {"Decimal": Decimal, "float": float, "int": int, "str": str}[str(t.a[0]).split(".")[-1]](v)
        if t.k == "bin" and t.a[0] in ARITH:
            l, r = (next(iter(x)) if isinstance(x, frozenset) and len(x) == 1 else x for x in t.a[1:3])
            l, r = (number(A, x, d) if isinstance(x, T) else UNK for x in (l, r))
            if all(isinstance(x, (int, float, Decimal)) and not isinstance(x, bool) for x in (l, r)):
                return ARITH[t.a[0]](l, r)
    except (ValueError, TypeError, ArithmeticError):
        pass
    return UNK


def default(A, t):
    """What a parameter of init is when it is not given."""
    f = A.p.funcs.get(INIT + "init")
    a = f.node.args if f else None
    names = [x.arg for x in a.args] if a else []
    if t.a[0] in names:
        i = names.index(t.a[0]) - (len(names) - len(a.defaults))
        if i >= 0 and isinstance(a.defaults[i], ast.Constant):
            return a.defaults[i].value
    return UNK


def one(A, vs, d):
    xs = [value(A, x, d + 1) for x in vs]
    return xs[0] if len(xs) == 1 else UNK


# ---- what a build reads
class Lit:
    def __init__(self, A, lit):
        self.A = A
        self.lit = lit
        self.memo = {}

    def rooted(self, t):
        if t.k == "call" and t.a[0] in ("json.load", "json.loads") or t.k in ("call", "meth") and str(t.a[0]).split(".")[-1] in ("load", "loads"):
            return has(t, lambda x: x.k == "file" and isconf(x))
        return False

    def conc(self, t, d=0):
        """[values] the term may have; None if it does not come from the configuration."""
        if d > 20:
            return [UNK]
        if self.rooted(t):
            return [self.lit]
        if t.k == "item" and isinstance(t.a[0], T):
            base = self.conc(t.a[0], d + 1)
            if base is None:
                return None
            i = t.a[1]
            ks = [cval(i)] if isinstance(i, T) and i.k == "const" else self.conc(i, d + 1) if isinstance(i, T) else [i]
            out = []
            for b in base:
                for k in ks or [UNK]:
                    out.append(self.at(b, k))
            return out
        if t.k in ("val", "key", "elem") and isinstance(t.a[0], T):
            base = self.conc(t.a[0], d + 1)
            if base is None:
                return None
            out = []
            for b in base:
                if isinstance(b, dict):
                    out += list(b.values()) if t.k == "val" else list(b) if t.k in ("key", "elem") else [UNK]
                elif isinstance(b, list) and t.k == "elem":
                    out += b
                else:
                    out.append(UNK)
            return out
        if t.k == "call" and str(t.a[0]).split(".")[-1] == "get" and len(t.a) > 2 and isinstance(t.a[1], T):
            base = self.conc(t.a[1], d + 1)
            if base is None or t.a[2].k != "const":
                return base and [UNK]
            dv = value(self.A, t.a[3], 0) if len(t.a) > 3 else None
            return [dv if self.at(b, cval(t.a[2])) is MISSING else self.at(b, cval(t.a[2])) for b in base]
        if t.k == "call" and str(t.a[0]).split(".")[-1] in ("Decimal", "float", "int", "str") and len(t.a) == 2 and isinstance(t.a[1], T):
            base = self.conc(t.a[1], d + 1)
            if base is None:
                return None
            fn = {"Decimal": Decimal, "float": float, "int": int, "str": str}[str(t.a[0]).split(".")[-1]]
            out = []
            for b in base:
                try:
                    out.append(UNK if b is UNK or b is MISSING or isinstance(b, (dict, list)) else fn(b))
                except (ValueError, TypeError, InvalidOperation):
                    out.append(UNK)
            return out
        return None

    def at(self, b, k):
        if b is UNK or k is UNK:
            return UNK
        if b is MISSING:
            return UNK      # the lookup around it is reported
        if isinstance(b, dict):
            return b.get(k, MISSING)
        if isinstance(b, list) and isinstance(k, int):
            return b[k] if -len(b) <= k < len(b) else MISSING
        return UNK

    def path(self, t):
        if t.k == "item":
            i = t.a[1]
            return self.path(t.a[0]) + "[" + (repr(cval(i)) if isinstance(i, T) and i.k == "const" else "...") + "]"
        if t.k in ("val", "key", "elem"):
            return self.path(t.a[0]) + "[*]"
        return "config" if self.rooted(t) else show(norm(t))[:40]

    def holds(self, x):
        """True, False or None: does the condition hold for the configuration (for every value it may stand for)?"""
        rs = set()
        if x.k == "cmp":
            o, l, r = x.a
            if o == "In" and r.k == "dict":
                a = self.conc(l)
                ks = [y for k in self.A.V(r, "*k") for y in (self.conc(k) if self.conc(k) is not None else [value(self.A, k, 0)])]
                if a is None or any(y is UNK for y in a + ks):
                    return None
                rs = {None if y in ks else False for y in a}
            else:
                a, b = self.conc(l), self.conc(r)
                if a is None and b is None:
                    return None
                a = [value(self.A, l, 0)] if a is None else a
                b = [value(self.A, r, 0)] if b is None else b
                for y in a:
                    for z in b:
                        if y is UNK or z is UNK or y is MISSING or z is MISSING:
                            return None
                        try:
                            rs.add({"Eq": lambda: y == z, "In": lambda: y in z, "Lt": lambda: y < z, "LtE": lambda: y <= z, "Gt": lambda: y > z, "GtE": lambda: y >= z, "Is": lambda: y is z}[o]())
                        except (KeyError, TypeError):
                            return None
        elif x.k == "call" and x.a[0] == "isinstance" and len(x.a) == 3:
            a = self.conc(x.a[1])
            ts = types(x.a[2])
            if a is None or ts is None or any(y is UNK or y is MISSING for y in a):
                return None
            rs = {isinstance(y, ts) for y in a}
        else:
            a = self.conc(x)
            if a is None or any(y is UNK or y is MISSING for y in a):
                return None
            rs = {bool(y) for y in a}
        return next(iter(rs)) if len(rs) == 1 else None


def types(t):
    m = {"dict": dict, "str": str, "int": int, "float": float, "list": list, "bool": bool, "Decimal": Decimal, "tuple": tuple, "set": set}
    ts = [x for f in t.a[0] for x in f] if t.k == "tup" else [t]
    out = []
    for x in ts:
        n = str(x.a[0]).split(".")[-1] if x.k in ("ext", "class", "func", "sym") and x.a else None
        n = n or (x.a[0] if x.a and isinstance(x.a[0], str) else None)
        if n == "NoneType" or x.k == "const" and cval(x) is None:
            out.append(type(None))
        elif n in m:
            out.append(m[n])
        else:
            return None
    return tuple(out)


def reads(R, A, lit, entries):
    I, F = A.I, A.F
    L = Lit(A, lit)
    n = 0
    start = [s for q in entries for s in A.start(A.eid[q])]

    memo = {}

    def gone(s, t, l):
        """The edge is not taken with this configuration."""
        if l not in ("T", "F"):
            return False
        if (s, l) not in memo:
            memo[(s, l)] = gone1(s, l)
        return memo[(s, l)]

    def gone1(s, l):
        at = F.edge_atoms(s, l)
        if not at:
            return False
        return all(L.holds(x) is not None and L.holds(x) is not b for x, b in at)
    live = explore(A, start, gone)
    for s in sorted(live):
        node = I.node(s)
        if node.op == "sub":
            for o in I.rv(s, node.a["obj"]):
                base = L.conc(o)
                if base is None:
                    continue
                for i in I.rv(s, node.a["idx"]):
                    vals = L.conc(mk("item", o, i)) or []
                    con = L.path(mk("item", o, i))
                    n += 1
                    miss = any(v is MISSING for v in vals) and not guarded(A, L, start, gone, s, o, i) and not caught(I, s)
                    R.obl(not miss, "key", con + " in " + I.func(s).qual.split(".")[-1], "%s is read without a fallback but init does not write it" % con, A.loc(s))
    for sid, f, args, kws, e in F.calls():
        if sid not in live:
            continue
        if f.k in ("attr", "meth") and isinstance(f.a[0], T):
            vals = L.conc(f.a[0])
            for v in vals or []:
                if v is UNK or v is MISSING:
                    continue
                con = L.path(f.a[0]) + "." + f.a[1]
                good = hasattr(v, f.a[1]) or narrowed(A, L, start, gone, sid, f.a[0], v)
                R.obl(good, "type", con + " in " + I.func(sid).qual.split(".")[-1], "init writes %r for %s, which has no method %s" % (v, L.path(f.a[0]), f.a[1]), A.loc(sid))
        if f.k == "ext" and f.a[0].startswith("pytypeutils.check"):
            for k, vs in kws.items():
                for t in vs:
                    if t.k != "tup" or len(t.a[0]) != 2:
                        continue
                    ts = [types(x) for x in t.a[0][1]]
                    if len(ts) != 1 or ts[0] is None:
                        continue
                    for x in t.a[0][0]:
                        for v in L.conc(x) or []:
                            if v is UNK:
                                continue
                            w = None if v is MISSING else v
                            good = isinstance(w, ts[0]) and not (isinstance(w, bool) and bool not in ts[0]) or narrowed(A, L, start, gone, sid, x, w)
                            R.obl(good, "type", "%s is %s" % (L.path(x), "/".join(y.__name__ for y in ts[0])), "init writes %s for %s, which the build does not accept" % (str(w)[:60], L.path(x)), A.loc(sid))
    # the build starts
    for q in entries:
        S = explore(A, A.start(A.eid[q]), gone)
        if q == BUILD:
            goal = {sid for sid, f, args, kws, e in F.calls() if f.k == "func" and f.a[0] == COLD}
            R.obl(not goal or goal & S, "accepted", "build", "the build rejects the configuration that init writes before it starts", why(A, L, A.start(A.eid[q]), gone))
        else:
            goal = {s for s in S if s in set(A.exits(A.eid[q]))}
            R.obl(goal, "accepted", q.split(".")[-1], "the rebuild rejects the configuration that init writes before it starts", "")
    # environment variables cannot be expected
    for s in sorted(live):
        node = I.node(s)
        if node.op == "sub" and any(o.k == "ext" and o.a[0] == "os.environ" for o in I.rv(s, node.a["obj"])):
            for i in I.rv(s, node.a["idx"]):
                src = i
                while src.k == "slice":
                    src = src.a[0]
                vals = L.conc(src)
                if vals is None:
                    continue
                n += 1
                bad = [v for v in vals if isinstance(v, str) and v.startswith("env://")]
                R.obl(not bad, "key", "environment for " + L.path(src), "init writes %r, for which a build reads an environment variable without a fallback" % (bad[:1] or [""])[0], A.loc(s))
    R.need("reads of the configuration", n)


def guarded(A, L, start, gone, s, o, i):
    """The lookup happens only where the key was found."""
    def stop(u, t, l):
        return gone(u, t, l) or any(b and x.k == "cmp" and x.a[0] == "In" and x.a[1] is i and x.a[2] is o for x, b in (A.F.edge_atoms(u, l) or ()))
    return s not in explore(A, start, stop)


def narrowed(A, L, start, gone, s, x, v):
    """The value v of x does not get to s: a condition before it leaves it out."""
    def stop(u, t, l):
        if gone(u, t, l):
            return True
        for y, b in (A.F.edge_atoms(u, l) or ()):
            if y is x and bool(v) != b:
                return True
            if y.k == "cmp" and y.a[0] in ("Eq", "Is") and y.a[1] is x and y.a[2].k == "const" and (cval(y.a[2]) == v and type(cval(y.a[2])) is type(v)) != b:
                return True
            if y.k == "call" and y.a[0] == "isinstance" and y.a[1] is x and len(y.a) == 3 and types(y.a[2]) is not None and isinstance(v, types(y.a[2])) != b:
                return True
        return False
    k = (x, repr(v))
    if k not in L.memo:
        L.memo[k] = explore(A, start, stop)
    return s not in L.memo[k]


def caught(I, s):
    """An exception of this state is handled in the same function."""
    return any(l == "exc" and I.node(t).op not in ("excexit",) for t, l in I.succ[s])


def why(A, L, start, gone):
    S = explore(A, start, gone)
    for s in sorted(S):
        for t, l in A.I.succ[s]:
            if t not in S and gone(s, t, l):
                return A.loc(s)
    return ""
