"""Are the items of a list-handling program neither lost, nor repeated, nor reordered?

An abstract interpretation like that of progress.py in which lists are known by their contents: a sequence of items
("one", s) and of pieces of unknown length ("all", s). A ledger, kept next to the program's own lists, says what the
contents have to be; it is changed by the operations which the program is asked to perform and compared with what the
program does. Names of items are normalised at the head of each loop and neighbours which always occur together are
joined, so the states are finite in number when the program's lists follow the ledger.
"""
import builtins
from collections import deque
from .progress import *
from .progress import Raises, TooBig, Split
from .terms import *


class GiveUp(Exception):
    pass


class Fork(Exception):
    def __init__(self, envs):
        self.envs = envs


class Thrown(Raises):
    def __init__(self, kind, value=UNK):
        self.kind = kind; self.value = value


S0 = ()
REFS = ("L", "rev", "lenof", "O", "D")
MARK = ("v", ("k", "%heap"))
GENERIC = ("Exception", "BaseException")
MUTATE = ("append", "appendleft", "insert", "extend", "extendleft", "pop", "popleft", "clear", "remove", "reverse", "sort")


class Seqs(Progress):
    HEADS = ("loophead", "next", "entry")
    MAX = 20000
    WIDE = 14
    MOST = 2
    strict = False

    def __init__(self, A, fl=None):
        super().__init__(A, lambda f: None, fl)
        self.bad = []
        self.gave = None
        self.short = False

    # ---- driver ---------------------------------------------------------------------------------------------------
    def run(self, cid, env=()):
        ir = self.I.ctxs[cid].ir
        ev = next(i for i, x in enumerate(ir.nodes) if x.op == "entry")
        start = (cid, ev, frozenset(dict(env).items()))
        seen = {start}
        par = {start: None}
        st = deque([start])
        self.cur = None
        try:
            while st:
                x = st.popleft()
                if len(self.bad) > 3:
                    break
                if len(seen) > self.MAX:
                    raise GiveUp("too many cases")
                self.cur = x
                self.par = par
                if any(k[0] == "list" and sum(1 for p in v if p[0] != "v") > self.WIDE for k, v in x[2]):
                    raise GiveUp("a list with many parts")
                for y in self.step(x):
                    if y not in seen:
                        seen.add(y); par[y] = x
                        st.append(y)
        except GiveUp as e:
            self.gave = "%s (%s)" % (e, self.at(self.cur) if self.cur else "")
        if self.short and self.gave is None:
            self.gave = "only for replacements of at most two tokens"
        self.states = len(seen)
        return self.gave is None

    def at(self, x):
        ss = self.F.at.get(x[:2], ())
        return self.A.loc(ss[0]) if ss else "?"

    def report(self, rule, msg):
        x = self.cur
        key = (rule, msg, x[0], x[1])
        if key in {b[0] for b in self.bad}:
            return
        tr = []
        while x is not None:
            l = self.at(x)
            if not tr or tr[-1] != l:
                tr.append(l)
            x = self.par[x]
        self.bad.append((key, rule, msg, self.at(self.cur), tr[:14][::-1]))

    def step(self, x):
        cid, pc, fe = x
        env = dict(fe)
        n = self.I.ctxs[cid].ir.nodes[pc]
        try:
            res = self.exec(cid, pc, n, env, S0, False, None)
        except Fork as f:
            return [(cid, pc, frozenset(e.items())) for e in f.envs]
        except Raises as e:
            kind = getattr(e, "kind", None)
            env[("exc", "cur")] = ("stop", kind, getattr(e, "value", UNK))
            return self.thrown(cid, n, env)
        out = []
        for c2, p2, e2 in res:
            e2 = self.gc(e2, self.where(c2, p2))
            if self.I.ctxs[c2].ir.nodes[p2].op in self.HEADS:
                e2 = canon(e2, self.MOST)
            out.append((c2, p2, frozenset(e2.items())))
        return out

    def thrown(self, cid, n, env):
        while True:
            ts = [t for t, l in n.succ if l == "exc"]
            ir = self.I.ctxs[cid].ir
            ts = [t for t in ts if ir.nodes[t].op != "excexit"]
            if ts:
                return [(cid, t, frozenset(self.gc(env, self.where(cid, t)).items())) for t in ts]
            c = self.I.ctxs[cid]
            if c.csid is None:
                return []
            k = self.I.states[c.csid][:2]
            env = {x: y for x, y in env.items() if x[0] != cid}
            cid = k[0]
            n = self.I.ctxs[cid].ir.nodes[k[1]]

    def gc(self, env, stack):
        out = dict(self.prune(env, stack))
        keep = set()
        work = [v for k, v in out.items() if k[0] != "list"]
        while work:
            v = work.pop()
            if not isinstance(v, tuple):
                continue
            if len(v) == 2 and v[0] in REFS:
                if v[1] not in keep:
                    keep.add(v[1])
                    work.extend(out.get(("list", v[1]), ()))
            else:
                work.extend(v)
        if ("led", "foreign") in out:
            out[("led", "foreign")] = tuple(x for x in out[("led", "foreign")] if x in keep)
        return {k: v for k, v in out.items() if k[0] != "list" or k[1] in keep}

    # ---- lists ----------------------------------------------------------------------------------------------------
    def new(self, env, parts):
        i = 0
        while ("list", i) in env:
            i += 1
        env[("list", i)] = tuple(parts)
        return ("L", i)

    def parts(self, env, v):
        if v[0] == "L":
            return env[("list", v[1])]
        if v[0] == "rev":
            return None
        if v[0] == "seq":
            return tuple(("v", K(x)) for x in v[1])
        if v[0] == "k" and v[1] in ((), []):
            return ()
        return None

    def first(self, env, parts, last=False):
        """The first item is known after this, or there is none."""
        if not parts:
            return None
        p = parts[-1 if last else 0]
        if p[0] == "all":
            self.fork(env, p[1], last)
        return p

    def fork(self, env, s, last=False):
        """A piece is either empty or has a first (last) item."""
        a, b = fresh(env), fresh(env, 1)
        new = (("all", b), ("one", a)) if last else (("one", a), ("all", b))
        raise Fork([subst(env, s, ()), subst(env, s, new)])

    def empty(self, env, parts):
        if any(p[0] != "all" for p in parts):
            return False
        if not parts:
            return True
        self.fork(env, parts[0][1])

    def trim(self, env, p, lo, hi):
        for i in range(lo):
            if self.first(env, p) is not None:
                p = p[1:]
        for i in range(hi):
            if self.first(env, p, True) is not None:
                p = p[:-1]
        return p

    def unk(self, why):
        if self.strict:
            raise GiveUp(why)
        return UNK

    def lose(self, env, i):
        self.unk("a list changes in a way which is not followed")
        forget(env, {i})

    def item(self, p):
        return p if p[0] == "one" else p[1]

    def elem(self, v):
        return v if v[0] == "one" else ("v", v)

    def change(self, env, v):
        if v[1] in env.get(("led", "foreign"), ()):
            self.report("foreign", "the list which a rewriting step returned is changed in place: the step may still hold it")

    # ---- exec -----------------------------------------------------------------------------------------------------
    def truth(self, S, v):
        if v[0] == "L":
            return not self.empty(self.env, self.env[("list", v[1])])
        if v[0] in ("one", "man", "gen", "obj", "stop", "rev"):
            return True
        return super().truth(S, v)

    def exec(self, cid, pc, n, env, S, ended, head):
        self.env = env
        V = lambda r: self.val(cid, pc, env, r)
        op, a = n.op, n.a
        go = [t for t, l in n.succ if l not in ("exc", "excret")]

        def put(v):
            e = dict(env)
            if n.dst is not None:
                e[(cid, n.dst)] = v
                e.pop((cid, "@" + n.dst), None)
            return [(cid, t, e) for t in go]

        if op in ("build", "concat") and a.get("kind") in ("list", "tuple"):
            parts = []
            for p in a["parts"]:
                if isinstance(p, str):
                    parts.append(self.elem(V(p)))
                else:
                    q = self.parts(env, V(p[1]))
                    if q is None:
                        return put(self.unk("list"))
                    parts += q
            env = dict(env)
            return self.putin(cid, n, env, go, self.new(env, parts))
        if op == "unknown":
            return put(self.unk("unknown operation"))
        if op == "fmt":
            return put(UNK)
        if op in ("bin", "augop"):
            l, r = V(a["l"]), V(a["r"])
            if any(x[0] == "k" and type(x[1]) in (int, float) for x in (l, r)):
                return put(UNK)
            if l[0] == "L" and a["op"] == "Add":
                p, q = self.parts(env, l), self.parts(env, r)
                if q is None:
                    if op == "augop":
                        self.lose(env, l[1])
                    return put(self.unk("list"))
                env = dict(env)
                if op == "bin":
                    return self.putin(cid, n, env, go, self.new(env, p + q))
                self.change(env, l)
                env[("list", l[1])] = p + q
                return self.putin(cid, n, env, go, l)
            if l[0] in ("L", "one") or r[0] in ("L", "one"):
                if a["op"] == "Add" and self.parts(env, l) is not None and self.parts(env, r) is not None:
                    env = dict(env)
                    return self.putin(cid, n, env, go, self.new(env, self.parts(env, l) + self.parts(env, r)))
                return put(UNK)
        if op == "sub":
            o, i = V(a["obj"]), V(a["idx"])
            if o[0] == "L" and i in (K(0), K(-1)):
                p = self.first(env, env[("list", o[1])], i == K(-1))
                if p is None:
                    raise Raises()
                return put(self.item(p))
            if o[0] in ("L", "one", "obj", "man"):
                return put(UNK)
        if op == "slice":
            o = V(a["obj"])
            if o[0] == "L":
                lo, hi = [V(a[k]) if a.get(k) is not None else K(None) for k in ("lo", "hi")]
                p = env[("list", o[1])]
                lo = 0 if lo == K(None) else lo[1] if lo[0] == "k" else None
                hi = 0 if hi == K(None) else hi[1] if hi[0] == "k" else None
                if a.get("step") is not None or type(lo) is not int or type(hi) is not int or not 0 <= lo < 4 or not -4 < hi < 4 or hi > 0 and lo:
                    return put(self.unk("slice"))
                if hi > 0:
                    q, rest = (), p
                    for i in range(hi):
                        x = self.first(env, rest)
                        if x is not None:
                            q += (x,)
                            rest = rest[1:]
                    p = q
                else:
                    p = self.trim(env, p, lo, -hi)
                env = dict(env)
                return self.putin(cid, n, env, go, self.new(env, p))
            if o[0] in ("one", "obj"):
                return put(UNK)
        if op in ("unpack", "unpack_star"):
            o = V(a["src"])
            if o[0] == "L":
                p = env[("list", o[1])]
                if op == "unpack_star":
                    q = self.trim(env, p, a["i"], a["n"] - 1 - a["i"])
                    env = dict(env)
                    return self.putin(cid, n, env, go, self.new(env, q))
                if a.get("star"):
                    q = self.trim(env, p, 0, a["n"] - 1 - a["i"])
                    p = q and self.first(env, q, True)
                else:
                    q = self.trim(env, p, a["i"], 0)
                    p = q and self.first(env, q)
                if p:
                    return put(self.item(p))
                raise Raises()
        if op in ("setsub", "delsub"):
            o = V(a["obj"])
            if o[0] == "L":
                i = V(a["idx"])
                if op == "delsub" and i == K(0):
                    p = env[("list", o[1])]
                    if self.first(env, p) is None:
                        raise Raises()
                    self.change(env, o)
                    env = dict(env)
                    env[("list", o[1])] = p[1:]
                    return [(cid, t, env) for t in go]
                self.lose(env, o[1])
            return [(cid, t, env) for t in go]
        if op == "attr":
            o = V(a["obj"])
            if o[0] == "stop" and a["name"] == "value":
                return put(o[2])
            k = self.fieldkey(cid, pc, a)
            if k is not None and k in env and o == UNK or k is not None and k in env and o == NN:
                return put(env[k])
            if o[0] in ("L", "one", "man", "gen", "obj", "rev"):
                return put(("m", o, a["name"]))
            if o == K(None):
                raise Raises()
            h = self.attribute(cid, pc, env, o, a["name"])
            if h is not None:
                return put(h)
        if op == "setattr":
            k = self.fieldkey(cid, pc, a)
            env = dict(env)
            if k is None:
                for x in [x for x in env if x[0] == "field" and x[1].endswith("." + a["name"])]:
                    env[x] = UNK
                return [(cid, t, env) for t in go]
            env[k] = V(a["src"])
            return [(cid, t, env) for t in go]
        if op == "next":
            return self.over(cid, pc, n, env, V)
        if op == "dispatch":
            cur = env.get(("exc", "cur"), ("stop", None, UNK))
            hs = []
            for t, l in n.succ:
                if isinstance(l, tuple) and l[0] == "h":
                    ty = a["types"][l[1]] if l[1] < len(a["types"]) else []
                    names = [getattr(x, "id", getattr(x, "attr", "")) for x in ty]
                    if cur[1] is None:
                        hs.append(t)
                    elif not names or any(x == cur[1] or x in GENERIC for x in names):
                        hs = [t]
                        break
            else:
                if cur[1] is None or not hs:
                    return [(cid, t, env) for t in hs] + self.up(cid, n, env)
            return [(cid, t, env) for t in hs]
        if op == "handler":
            return put(env.get(("exc", "cur"), UNK)) if n.dst is not None else [(cid, t, env) for t in go]
        if op == "raise":
            if a.get("assert"):
                self.report("assert", "an assertion fails although the calls come in the agreed order")
                raise Thrown("AssertionError")
            v = V(a["exc"]) if a.get("exc") else env.get(("exc", "cur"), UNK)
            if v[0] == "stop":
                raise Thrown(v[1], v[2])
            raise Raises()
        if op in ("yield", "yieldfrom", "await", "closure"):
            if op == "closure":
                return put(UNK)
            raise GiveUp(op)
        if op == "cmp":
            l, r = V(a["l"]), V(a["r"])
            for x, y, f in ((l, r, False), (r, l, True)):
                if x[0] == "lenof":
                    e = self.empty(env, env[("list", x[1])]) if ("list", x[1]) in env else None
                    o = a["op"]
                    if f:
                        o = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(o, o)
                    if e is not None and y == K(0) and o in ("Gt", "NotEq", "Eq", "LtE"):
                        return put(K(not e if o in ("Gt", "NotEq") else e))
                    if e is not None and y == K(1) and o in ("GtE", "Lt"):
                        return put(K(not e if o == "GtE" else e))
                    return put(UNK)
            if l[0] in ("L", "one", "man", "gen", "obj", "stop", "rev") or r[0] in ("L", "one", "man", "gen", "obj", "stop", "rev"):
                if a["op"] in ("Is", "IsNot", "Eq", "NotEq"):
                    for x, y in ((l, r), (r, l)):
                        if x == K(None) or x == K(False) or x == K(True):
                            if y[0] == "one" and x != K(None):
                                return put(UNK)
                            return put(K(a["op"] in ("IsNot", "NotEq")) if y[0] != "obj" else UNK)
                    if l == r and l[0] != "obj":
                        return put(K(a["op"] in ("Is", "Eq")))
                return put(UNK)
            if a["op"] in ("Is", "IsNot") and l[0] == r[0] == "k" and (l[1] is None or isinstance(l[1], bool)) and isinstance(r[1], (bool, type(None))):
                return put(K((l[1] is r[1]) == (a["op"] == "Is")))
        if op == "call":
            return self.docall(cid, pc, n, env, V, put, go)
        if op == "accadd":
            o = V(a["obj"])
            if o[0] == "L":
                env = dict(env)
                env[("list", o[1])] += (self.elem(V(a["src"])),)
            return [(cid, t, env) for t in go]
        if op == "store":
            v = V(a["src"])
            return put(v)
        return super().exec(cid, pc, n, env, S, ended, head)

    def up(self, cid, n, env):
        ts = [t for t, l in n.succ if l == "exc" and self.I.ctxs[cid].ir.nodes[t].op != "excexit"]
        if ts:
            return [(cid, t, env) for t in ts]
        c = self.I.ctxs[cid]
        if c.csid is None:
            return []
        k = self.I.states[c.csid][:2]
        env = {x: y for x, y in env.items() if x[0] != cid}
        n2 = self.I.ctxs[k[0]].ir.nodes[k[1]]
        return self.up(k[0], n2, env)

    def putin(self, cid, n, env, go, v):
        env[(cid, n.dst)] = v
        env.pop((cid, "@" + n.dst), None)
        return [(cid, t, env) for t in go]

    def fieldkey(self, cid, pc, a):
        vs = {t for t in self.F.vals(cid, pc, a["obj"])}
        if len(vs) == 1:
            return ("field", show(next(iter(vs)))[:80] + "." + a["name"])
        return None

    def enter(self, f):
        return True

    def attribute(self, cid, pc, env, o, name):
        return None

    def over(self, cid, pc, n, env, V):
        it = n.a["it"]
        v = V(it)
        key = (cid, "@" + it)
        item = [t for t, l in n.succ if l == "item"]
        done = [t for t, l in n.succ if l == "done"]
        if v[0] in ("L", "rev"):
            last = v[0] == "rev"
            rest = env.get(key)
            src = ("L", v[1])
            if rest is None:
                env = dict(env)
                env[key] = rest = self.new(env, env[("list", v[1])])
                return [(cid, pc, env)]
            p = self.first(env, env[("list", rest[1])], last)
            env = dict(env)
            if p is None:
                del env[key]
                return [(cid, t, env) for t in done]
            ps = env[("list", rest[1])]
            env[("list", rest[1])] = ps[:-1] if last else ps[1:]
            env[(cid, n.dst)] = self.item(p)
            return [(cid, t, env) for t in item]
        h = self.iterated(cid, pc, n, env, v, item, done)
        if h is not None:
            return h
        return super().iterate(cid, pc, n, env, S0, V)

    def iterated(self, cid, pc, n, env, v, item, done):
        return None

    def hook(self, cid, pc, n, env, fs, fv, args, put):
        """What the ledger has to do with a call; None: nothing."""
        return None

    def docall(self, cid, pc, n, env, V, put, go):
        fs = self.F.vals(cid, pc, n.a["f"])
        args = [V(r) for r in n.a["args"] if isinstance(r, str)]
        star = [V(r[1]) for r in n.a["args"] if not isinstance(r, str)]
        kws = {k: V(r) for k, r in n.a["kws"]}
        fv = V(n.a["f"])
        if star:
            full = []
            for r in n.a["args"]:
                if isinstance(r, str):
                    full.append(V(r))
                else:
                    p = self.parts(env, V(r[1]))
                    if p is None or any(x[0] == "all" for x in p):
                        break
                    full += [self.item(x) for x in p]
            else:
                args, star = full, []
        h = self.hook(cid, pc, n, env, fs, fv, args, put)
        if h is not None:
            return h
        if fv[0] == "m" and fv[1][0] == "L":
            return self.listop(cid, n, env, fv[1], fv[2], args, put, go)
        if fv[0] == "m" and fv[1][0] in ("one", "obj", "man", "gen", "rev"):
            cov = self.cover(env, [fv[1]] + args)
            if fv[2] == "copy" and fv[1][0] == "one":
                return put(("obj", ()))
            return put(("obj", cov)) if cov else put(UNK)
        names = {self.A.F.name(f) for f in fs}
        nm = next(iter(names)) if len(names) == 1 else None
        short = (nm or "").rsplit(".", 1)[-1]
        if isinstance(getattr(builtins, short, None), type) and issubclass(getattr(builtins, short), BaseException):
            return put(("stop", short, UNK))
        if short in ("list", "tuple", "deque", "iter") and not kws and len(args) <= 1 and not star:
            if not args:
                env = dict(env)
                return self.putin(cid, n, env, go, self.new(env, ()))
            if args[0][0] == "L" and short == "iter":
                return put(args[0])
            p = self.parts(env, args[0])
            if p is not None:
                env = dict(env)
                return self.putin(cid, n, env, go, self.new(env, p))
        if short == "chain" and args and all(self.parts(env, x) is not None for x in args):
            env = dict(env)
            return self.putin(cid, n, env, go, self.new(env, sum([self.parts(env, x) for x in args], ())))
        if short == "reversed" and len(args) == 1 and args[0][0] == "L":
            return put(("rev", args[0][1]))
        if short == "len" and len(args) == 1 and args[0][0] == "L":
            return put(("lenof", args[0][1]))
        if short == "isinstance" and len(args) == 2:
            if args[0][0] == "L":
                return put(K(True))
            if args[0][0] == "k":
                return put(K(False)) if args[0][1] is None or isinstance(args[0][1], bool) else put(UNK)
            return put(UNK)
        if short == "bool" and len(args) == 1 and args[0][0] in ("L", "one", "man"):
            return put(K(self.truth(S0, args[0])))
        ent = [c for c in self.F.called.get((cid, pc), ()) if self.enter(self.I.ctxs[c].func)]
        if ent:
            out = []
            seen = set()
            for c in sorted(ent):
                f = self.I.ctxs[c].func
                if f.qual in seen:
                    continue
                seen.add(f.qual)
                if f.is_gen:
                    cov = self.cover(env, args + list(kws.values()))
                    if cov or any(x[0] in ("L", "man") for x in args):
                        raise GiveUp("generator")
                    return put(UNK)
                up = self.where(cid, pc)
                if c in up:
                    raise GiveUp("recursion")
                if star:
                    return put(UNK)
                ps = f.params()
                off = 1 if any(t.k in ("bound", "class") for t in fs) else 0
                e = {k: v for k, v in env.items() if k[0] != c}
                for p, d in defaults(f).items():
                    e[(c, p)] = d
                for p, v in zip(ps[off:], args):
                    e[(c, p)] = v
                for p, v in kws.items():
                    if p in ps:
                        e[(c, p)] = v
                ir = self.I.ctxs[c].ir
                ev = next(i for i, x in enumerate(ir.nodes) if x.op == "entry")
                out.append((c, ev, e))
            return out
        if self.strict:
            for f in fs:
                g = self.A.p.funcs.get(f.a[-1]) if f.k in ("bound", "func") and hasattr(self.A.p, "funcs") else None
                if g is not None and self.enter(g):
                    raise GiveUp("recursion")
        allv = args + star + list(kws.values())
        if short == "next" or fv[0] == "?" and any(method_name(f) in ("send", "__next__") for f in fs):
            e = dict(env)
            e[("exc", "cur")] = ("stop", "StopIteration", UNK)
            return put(UNK) + [(c, t, dict(fe)) for c, t, fe in self.thrown(cid, n, e)]
        cov = self.cover(env, allv)
        if any(f.k == "class" for f in fs) or cov:
            ty = {show(t).rsplit(".", 1)[-1] for k, r in n.a["kws"] if k == "type" for t in self.F.vals(cid, pc, r)}
            if ty and all(any(x in t for x in ("comment", "whitespace", "terminator")) for t in ty):
                return put(("obj", cov, "blank"))
            return put(("obj", cov))
        return put(UNK)

    def cover(self, env, vs):
        """The items which values are made of."""
        out = []
        for v in vs:
            if v[0] in ("one",):
                out.append(v)
            elif v[0] == "L":
                for p in env.get(("list", v[1]), ()):
                    out += [p] if p[0] != "v" else self.cover(env, [p[1]])
            elif v[0] == "obj":
                out += v[1]
        return tuple(out)

    def listop(self, cid, n, env, o, m, args, put, go):
        p = env[("list", o[1])]
        def done(q, v=K(None)):
            self.change(env, o)
            e = dict(env)
            e[("list", o[1])] = tuple(q)
            if n.dst is not None:
                e[(cid, n.dst)] = v
                e.pop((cid, "@" + n.dst), None)
            return [(cid, t, e) for t in go]
        if m == "pop" and args == [K(0)] or m == "popleft" and not args:
            x = self.first(env, p)
            if x is None:
                raise Raises()
            return done(p[1:], self.item(x))
        if m == "pop" and (not args or args == [K(-1)]):
            x = self.first(env, p, True)
            if x is None:
                raise Raises()
            return done(p[:-1], self.item(x))
        if m == "append" and len(args) == 1:
            return done(p + (self.elem(args[0]),))
        if m == "appendleft" and len(args) == 1 or m == "insert" and len(args) == 2 and args[0] == K(0):
            return done((self.elem(args[-1]),) + p)
        if m == "extend" and len(args) == 1:
            q = self.parts(env, args[0])
            if q is None:
                self.lose(env, o[1])
                return put(K(None))
            return done(p + q)
        if m == "extendleft" and len(args) == 1 and args[0][0] == "rev":
            return done(env[("list", args[0][1])] + p)
        if m == "extendleft" and len(args) == 1 and self.parts(env, args[0]) is not None:
            q = self.parts(env, args[0])
            for x in q:
                if x[0] == "all":
                    self.short = True
                    a, b = fresh(env), fresh(env, 1)
                    raise Fork([subst(env, x[1], ()), subst(env, x[1], (("one", a),)), subst(env, x[1], (("one", a), ("one", b)))])
            return done(q[::-1] + p)
        if m == "clear" and not args:
            return done(())
        if m == "copy" and not args:
            e = dict(env)
            return self.putin(cid, n, e, go, self.new(e, p))
        if m in MUTATE:
            self.lose(env, o[1])
        return put(UNK)

    def back(self, cid, v, env):
        f = self.I.ctxs[cid].func
        if f.qual.rsplit(".", 1)[-1] == "__init__":
            v = NN
        return super().back(cid, v, env)


def walk(v, f):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] in ("one", "all") and isinstance(v[1], str):
            f(v)
        else:
            for x in v:
                walk(x, f)


def fresh(env, k=0):
    used = set()
    for v in env.values():
        walk(v, lambda x: used.add(x[1]))
    i = 0
    while True:
        if "n%d" % i not in used:
            if k == 0:
                return "n%d" % i
            k -= 1
        i += 1


def replace(v, s, new):
    """Everywhere a piece s is put in the place of; v is a tuple of anything."""
    if not isinstance(v, tuple):
        return v
    out = []
    for x in v:
        if x == ("all", s) or x == ("one", s):
            out += new
        else:
            out.append(replace(x, s, new))
    return tuple(out)


def subst(env, s, new):
    return {k: replace(v, s, new) if not (isinstance(v, tuple) and len(v) == 2 and v == ("one", s)) else v for k, v in env.items()}


def forget(env, ids):
    def f(v):
        if not isinstance(v, tuple):
            return v
        if len(v) == 2 and v[0] in REFS and v[1] in ids:
            return UNK
        return tuple(f(x) for x in v)
    for k in list(env):
        if k[0] == "list" and k[1] in ids:
            del env[k]
        elif k != ("led", "foreign"):
            env[k] = f(env[k])


def plain(v):
    if v[:1] == (MARK,):
        return False
    hit = []
    walk((v,), lambda x: hit.append(x))
    return not hit and not any(isinstance(p, tuple) and p[0] == "L" for x in v for p in x)


def canon(env, most=2):
    big = {k[1] for k, v in env.items() if k[0] == "list" and len(v) > most and plain(v)}
    if big:
        env = dict(env)
        forget(env, big)
    # neighbours which always come together
    while True:
        seqs = [v for k, v in env.items() if k[0] == "list" or k[0] == "led" and isinstance(v, tuple)]
        loose = set()
        for k, v in env.items():
            if k[0] not in ("list", "led"):
                walk((v,), lambda x: loose.add(x[1]))
        for k, v in env.items():
            if k[0] == "list" or k[0] == "led" and isinstance(v, tuple):
                for x in v:
                    if not (isinstance(x, tuple) and len(x) == 2 and x[0] in ("one", "all")):
                        walk((x,), lambda y: loose.add(y[1]))
        nxt, prv = {}, {}
        for v in seqs:
            for i, x in enumerate(v):
                if isinstance(x, tuple) and len(x) == 2 and x[0] in ("one", "all") and isinstance(x[1], str):
                    y = v[i + 1] if i + 1 < len(v) else None
                    w = v[i - 1] if i else None
                    nxt.setdefault(x[1], set()).add(y[1] if isinstance(y, tuple) and len(y) == 2 and y[0] in ("one", "all") else None)
                    prv.setdefault(x[1], set()).add(w[1] if isinstance(w, tuple) and len(w) == 2 and w[0] in ("one", "all") else None)
        for a in sorted(nxt):
            if a in loose or len(nxt[a]) != 1:
                continue
            b = next(iter(nxt[a]))
            if b is None or b in loose or b == a or prv.get(b) != {a}:
                continue
            if any(sum(1 for x in v if x in (("one", c), ("all", c))) > 1 for v in seqs for c in (a, b)):
                continue
            env = {k: replace(replace(v, b, ()), a, (("all", a),)) if k[0] in ("list", "led") else v for k, v in env.items()}
            break
        else:
            break
    # names by order of occurrence
    ids, names = {}, {}
    order = []
    def visit(v):
        if not isinstance(v, tuple):
            return
        if len(v) == 2 and v[0] in ("one", "all") and isinstance(v[1], str):
            names.setdefault(v[1], "s%d" % len(names))
        elif len(v) == 2 and v[0] in REFS and isinstance(v[1], int):
            if v[1] not in ids:
                ids[v[1]] = len(ids)
                visit(env.get(("list", v[1]), ()))
        else:
            for x in v:
                visit(x)
    for k in sorted((k for k in env if k[0] != "list"), key=repr):
        if k == ("led", "foreign"):
            continue
        visit(env[k])
    def ren(v):
        if not isinstance(v, tuple):
            return v
        if len(v) == 2 and v[0] in ("one", "all") and isinstance(v[1], str):
            return (v[0], names[v[1]])
        if len(v) == 2 and v[0] in REFS and isinstance(v[1], int):
            return (v[0], ids[v[1]])
        return tuple(ren(x) for x in v)
    out = {}
    for k, v in env.items():
        if k == ("led", "foreign"):
            out[k] = tuple(sorted(ids[x] for x in v if x in ids))
        elif k[0] == "list":
            if k[1] in ids:
                out[("list", ids[k[1]])] = ren(v)
        else:
            out[k] = ren(v)
    return out
