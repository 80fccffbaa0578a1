"""Which inputs a value is certain to carry: a must-dataflow over the registers of the inlined control-flow graph.

A value carries an input when it was computed from it, on every path, by operations which keep
different inputs apart (string conversion, multiplication by an odd constant, concatenation, ...).
Loops are summarised by one round: what every round adds to a variable that keeps its previous value.
A branch which finds a value equal to a constant pins it: whatever is computed there carries it."""
import heapq
from .terms import *

KEEP = {"str", "repr", "ord", "list", "tuple", "enumerate", "iter", "reversed", "json.dumps", "dataclasses.asdict", "bytes", "bytearray",
        "int.from_bytes", "vars", "dict", "decimal.Decimal", "format", "hex", "zip", "operator.index"}
KEEPM = {"encode", "keys", "values", "items", "hexdigest", "digest", "copy", "get", "format", "join", "as_tuple", "to_bytes", "from_bytes", "as_integer_ratio", "__str__", "__repr__"}
GROW = {"append", "update", "extend", "add", "write", "insert", "appendleft"}
LOSSLESS_HASH = ("hashlib.",)
MARK = {("mult",), ("sorted",), ("str",)}
ORDER = ("Add", "BitXor")


class Carry:
    def __init__(self, A, path, unordered):
        """path(term) -> tag payload of an input; unordered(terms) -> iterating these has no fixed order."""
        self.A = A
        self.I = A.I
        self.path = path
        self.unordered = unordered
        self.problems = {}      # loop state -> it contributes although its order is not fixed
        self.defs = {}
        self.rounds = {}
        self.steps = 0
        self.rank = self.order()
        for s in range(len(self.I.states)):
            n = self.I.node(s)
            if n.dst is not None:
                self.defs.setdefault((self.I.states[s][0], n.dst), n)

    def order(self):
        """Reverse post-order; what follows a loop comes after its body."""
        I = self.I
        seen, post = set(), []
        for cid, s0 in I.entries:
            st = [(s0, None)]
            while st:
                s, it = st.pop()
                if it is None:
                    if s in seen:
                        continue
                    seen.add(s)
                    it = iter(sorted((t for t, l in I.succ[s]), key=lambda t: 0 if any(l == "done" for x, l in I.succ[s] if x == t) else 1))
                for t in it:
                    if t not in seen:
                        st.append((s, it))
                        st.append((t, None))
                        break
                else:
                    post.append(s)
        return {s: i for i, s in enumerate(reversed(post))}

    # ---- reading
    def read(self, env, k, top):
        v = env.get(k)
        if v is not None:
            return v
        return frozenset() if top else frozenset([("prev", k)])

    def reg(self, s, env, r, top):
        cid = self.I.states[s][0]
        v = self.read(env, (cid, r), top)
        for t in self.I.rv(s, r):
            if ("C", t) in env:
                v = v | env[("C", t)]
            elif not top and t.k in ("list", "set", "dict", "obj"):
                v = v | {("prev", ("C", t))}
        return v

    def meet(self, a, b, top):
        out = {}
        for k in set(a) | set(b):
            out[k] = self.read(a, k, top) & self.read(b, k, top)
        return out

    # ---- one operation
    def bare(self, tags):
        return frozenset(t for t in tags if t not in MARK and not (t[0] == "prev" and t[1][1] == "%P"))

    def odd(self, terms):
        return terms and all(isconst(t, "int") and cval(t) % 2 == 1 and cval(t) > 1 for t in terms)

    def step(self, s, env, top):
        I = self.I
        n = I.node(s)
        cid = I.states[s][0]
        env = dict(env)
        P = self.read(env, (cid, "%P"), True)
        op = n.op
        out = None
        R = lambda r: self.reg(s, env, r, top)
        if op == "const":
            out = frozenset()
        elif op == "load":
            k = (cid, n.a["name"])
            if k not in env:
                c = I.ctxs[cid]
                loc = n.a["name"] in c.func.params() or (cid, n.a["name"]) in self.defs
                if not loc and c.defcid is not None:
                    k = (c.defcid, n.a["name"])
                elif not loc:
                    k = None
            out = self.read(env, k, top) if k is not None else frozenset()
            for t in I.rv(I.succ[s][0][0], n.dst) if I.succ[s] else ():
                if ("C", t) in env:
                    out = out | env[("C", t)]
        elif op == "store":
            out = R(n.a["src"])
        elif op in ("attr", "sub"):
            out = R(n.a["obj"])
            out = frozenset() if op == "attr" and not self.ismeth(s, n) else out
            if op == "sub":
                out = frozenset(t for t in out if t[0] == "each")
                for t in R(n.a["idx"]):
                    if t[0] == "each" and self.counts(t[1], I.rv(s, n.a["obj"])):
                        out |= {t}
        elif op == "slice":
            out = R(n.a["obj"]) if self.whole(I.rv(s, n.a["obj"])) else frozenset()
        elif op == "bin" or op == "augop":
            l, r = R(n.a["l"]), R(n.a["r"])
            tl, tr = I.rv(s, n.a["l"]), I.rv(s, n.a["r"])
            o = n.a["op"]
            bl, br = self.bare(l), self.bare(r)
            if o == "Mult":
                out = bl | {("mult",)} if self.odd(tr) else br | {("mult",)} if self.odd(tl) else frozenset()
            elif o in ORDER:
                if not bl or not br or ("mult",) in l or ("mult",) in r or ("str",) in l or ("str",) in r or any(isstr(t) or t.k in ("cat", "list", "tup") for t in tl | tr):
                    out = bl | br | ({("str",)} & (l | r))
                else:
                    out = frozenset()
            elif o == "BitAnd":
                ok = lambda ts: ts and all(isconst(t, "int") and cval(t) >= 2 ** 31 - 1 and cval(t) & (cval(t) + 1) == 0 for t in ts)
                out = l if ok(tr) else r if ok(tl) else frozenset()
            elif o == "Mod":
                ok = tr and all(isconst(t, "int") and cval(t) >= 2 ** 31 - 1 for t in tr)
                out = l if ok else bl | br if all(isstr(t) or t.k == "cat" for t in tl) else frozenset()
            elif o == "LShift":
                out = bl | {("mult",)} if not br else frozenset()
            elif o == "Sub" and not br or o == "BitOr" and not br:
                out = bl
            else:
                out = frozenset()
        elif op in ("concat", "fmt", "build", "builddict", "unpack"):
            out = frozenset()
            for v in n.a.values():
                for x in self.regs(v):
                    out |= self.bare(R(x))
            if op in ("concat", "fmt"):
                out |= {("str",)}
        elif op == "unop":
            out = frozenset()
        elif op == "call":
            out = self.call(s, n, env, top)
        elif op in ("accadd", "setsub"):
            add = self.bare(R(n.a["src"])) | (self.bare(R(n.a["idx"])) if op == "setsub" else frozenset())
            for t in I.rv(s, n.a["obj"]):
                k = ("C", t)
                env[k] = (env[k] if k in env else self.read(env, k, top)) | add
        elif n.dst is not None:
            out = frozenset()
            for v in n.a.values():
                if op in ("await",):
                    for x in self.regs(v):
                        out |= R(x)
        if n.dst is not None and out is not None:
            env[(cid, n.dst)] = out | P
        return env

    def ismeth(self, s, n):
        ts = [x for t, l in self.I.succ[s] if l != "exc" for x in self.I.rv(t, n.dst)]
        return bool(ts) and all(t.k in ("meth", "bound") for t in ts)

    def regs(self, v):
        if isinstance(v, str):
            return [v] if v.startswith("%") else []
        if isinstance(v, (list, tuple)):
            return [x for y in v for x in self.regs(y)]
        return []

    def call(self, s, n, env, top):
        I = self.I
        R = lambda r: self.reg(s, env, r, top)
        args = frozenset()
        for a in n.a["args"]:
            for x in self.regs(a):
                args |= self.bare(R(x))
        kws = frozenset()
        for k in n.a["kws"]:
            for x in self.regs(k):
                kws |= self.bare(R(x))
        recv = self.bare(R(n.a["f"]))
        out = None
        for f, av, kv, e in I.calls.get(s, ()):
            if e:
                continue
            nm = None
            if f.k in ("ext",):
                nm = f.a[0]
            if f.k in ("meth", "attr") and isinstance(f.a[0], T):
                m = f.a[1]
                if m in GROW:
                    k = ("C", f.a[0])
                    env[k] = (env[k] if k in env else self.read(env, k, top)) | args
                    o = frozenset()
                elif m in KEEPM:
                    own = recv
                    if ("C", f.a[0]) in env:
                        own = own | env[("C", f.a[0])]
                    o = own | args
                    if m in ("encode", "hexdigest", "join", "format", "__str__"):
                        o |= {("str",)}
                else:
                    o = frozenset()
            elif nm is not None:
                if nm == "sorted":
                    o = args | ({("sorted",)} if self.total(n) else frozenset())
                elif nm in ("len", "range"):
                    o = args if nm == "len" or len(n.a["args"]) == 1 else frozenset()
                    o = frozenset(("len",) + (t,) if nm == "len" else t for t in o)
                elif nm == "json.dumps":
                    ok = any(isconst(v, "bool") and cval(v) is True for v in kv.get("sort_keys", ()))
                    o = (args | {("str",)}) if ok else frozenset()
                elif nm in KEEP or nm.startswith(LOSSLESS_HASH):
                    o = args
                    if nm in ("str", "repr"):
                        o = o | {("str",)}
                        if any(self.unordered(v) for v in av[:1]):
                            o = frozenset()
                    if nm.startswith(LOSSLESS_HASH):
                        for t, l in I.succ[s]:
                            if l != "exc" and n.dst:
                                for x in I.rv(t, n.dst):
                                    env[("C", x)] = args
                elif nm in ("int",):
                    o = args if all(self.whole(v) for v in av[:1]) else frozenset()
                else:
                    o = frozenset()
            else:
                o = frozenset()
            out = o if out is None else out & o
        return out if out is not None else frozenset()

    def whole(self, vs):
        return bool(vs) and all(any(x.k == "call" and x.a[0].endswith((".hexdigest", ".digest")) for x in subterms(t)) for t in vs)

    def counts(self, s, objs):
        """Does the loop at s count through the positions of the objects?"""
        its = self.I.rv(s, self.I.node(s).a["it"])
        return bool(objs) and all(any(x.k == "call" and x.a[0] == "len" and x.a[1] == o for t in its for x in subterms(t)) for o in objs)

    def total(self, n):
        """Does this call of sorted give every collection of distinct keys one order?"""
        import ast
        for k in n.a["node"].keywords:
            if k.arg == "key":
                v = k.value
                if isinstance(v, ast.Lambda):
                    b = v.body
                    if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Constant) and b.slice.value == 0 or isinstance(b, ast.Attribute) and b.attr == "name" or isinstance(b, ast.Name):
                        continue
                if isinstance(v, ast.Call) and ast.unparse(v) in ("itemgetter(0)", "operator.itemgetter(0)"):
                    continue
                if isinstance(v, ast.Name) and v.id in ("str", "repr"):
                    continue
                return False
        return True

    # ---- edges
    def edge(self, s, t, l, env, top):
        I = self.I
        n = I.node(s)
        cid, tid = I.states[s][0], I.states[t][0]
        if l == "call":
            env = dict(env)
            ps = list(I.ctxs[tid].func.params())
            vals = []
            f = I.ctxs[tid].func
            if n.op == "call":
                ts = I.rv(s, n.a["f"])
                if f.cls is not None and not f.is_static or any(x.k == "bound" for x in ts):
                    vals.append(self.reg(s, env, n.a["f"], top))
                vals += [self.reg(s, env, a, top) if isinstance(a, str) else frozenset() for a in n.a["args"]]
            else:
                vals.append(self.reg(s, env, n.a["obj"], top) if "obj" in n.a else frozenset())
            for p in ps:
                env[(tid, p)] = frozenset()
            for p, v in zip(ps, vals):
                env[(tid, p)] = v
            if n.op == "call":
                for k in n.a["kws"]:
                    if isinstance(k, (list, tuple)) and len(k) == 2 and k[0] in ps:
                        env[(tid, k[0])] = self.reg(s, env, k[1], top)
            for p in ps:
                vs = self.I.V.get((tid, "p:" + p), ())
                pa = self.leaf(vs)
                if pa:
                    env[(tid, p)] = env[(tid, p)] | pa
            env[(tid, "%P")] = self.read(env, (cid, "%P"), True)
        elif l == "ret":
            env = dict(env)
            c = I.ctxs[cid].csid
            dst = I.node(c).dst if c is not None else None
            if dst is not None:
                env[(tid, dst)] = self.read(env, (cid, "%ret"), True) | self.read(env, (tid, "%P"), True)
        elif l in ("T", "F") and n.op == "branch":
            d = self.defs.get((cid, n.a["c"]))
            if d is not None and d.op == "cmp" and d.a["op"] in ("Is", "Eq", "IsNot", "NotEq") and (l == "T") == (d.a["op"] in ("Is", "Eq")):
                for x, y in ((d.a["l"], d.a["r"]), (d.a["r"], d.a["l"])):
                    yd = self.defs.get((cid, y))
                    if yd is not None and yd.op == "const":
                        env = dict(env)
                        env[(cid, "%P")] = self.read(env, (cid, "%P"), True) | self.bare(self.read(env, (cid, x), top))
        if n.dst is not None and n.op in ("load", "attr", "sub", "next", "call", "unpack") and (n.op != "call" or self.getter(s)) and l not in ("call", "exc"):
            lf = self.leaf(self.I.rv(t, n.dst))
            if lf:
                env = dict(env)
                env[(cid, n.dst)] = env.get((cid, n.dst), frozenset()) | lf
        return env

    def getter(self, s):
        return all(f.k in ("meth", "attr") and f.a[1] in ("get", "items", "keys", "values") for f, a, k, e in self.I.calls.get(s, ())) and s in self.I.calls

    def leaf(self, vs):
        ps = {self.path(t) for t in vs}
        if len(ps) == 1:
            p = ps.pop()
            if p is not None:
                return frozenset([("leaf", p)])
        return frozenset()

    # ---- loops
    def bodyof(self, s, heads):
        I = self.I
        items = [t for t, l in I.succ[s] if l == "item"]
        fwd = set()
        st = list(items)
        while st:
            x = st.pop()
            if x in fwd or x == s or x in heads:
                continue
            fwd.add(x)
            st += [t for t, l in I.succ[x] if l not in ("exc", "excret")]
        back = set()
        st = [x for x, l in I.pred[s] if x in fwd]
        while st:
            x = st.pop()
            if x in back:
                continue
            back.add(x)
            st += [y for y, l in I.pred[x] if y in fwd and y not in back]
        return back, items

    def round(self, s, heads):
        if s in self.rounds:
            return self.rounds[s]
        b, items = self.bodyof(s, heads)
        cid = self.I.states[s][0]
        start = {}
        for t in items:
            e = {(cid, self.I.node(s).dst): frozenset([("each", s)]) | self.leaf(self.I.rv(t, self.I.node(s).dst))} if self.I.node(s).dst else {}
            start[t] = e
        envs, esc = self.run(start, False, heads | {s}, b)
        res = None
        rest = []
        for t, e in esc:
            if t == s:
                res = e if res is None else self.meet(res, e, False)
            else:
                rest.append((t, e))
        esc = rest
        self.rounds[s] = (res or {}, esc)
        return self.rounds[s]

    def subst(self, tags, E, top, each=None):
        out = set()
        for t in tags:
            if t[0] == "prev":
                out |= self.read(E, t[1], top)
            elif each is not None and t == each[0]:
                out |= each[1]
            else:
                out.add(t)
        return frozenset(out)

    def run(self, start, top, heads=frozenset(), body=None):
        I = self.I
        envs = dict(start)
        escapes = []
        rank = self.rank
        todo = [(rank.get(x, 0), x) for x in start]
        heapq.heapify(todo)
        queued = set(start)
        while todo:
            s = heapq.heappop(todo)[1]
            queued.discard(s)
            self.steps += 1
            if self.steps > 400000:
                raise RuntimeError("carry: too many steps")
            env = envs[s]
            n = I.node(s)
            outs = []
            if n.op == "next":
                cid = I.states[s][0]
                R, esc = self.round(s, heads)
                it = frozenset(t[1] if t[0] == "len" else t for t in self.bare(self.reg(s, env, n.a["it"], top)))
                full = self.reg(s, env, n.a["it"], top)
                done = dict(env)
                new = False
                for k, tags in R.items():
                    if ("prev", k) in tags:
                        extra = tags - {("prev", k)}
                        v = self.subst(tags, env, top, (("each", s), it))
                        if v != self.read(env, k, top):
                            new = True
                        done[k] = v
                    elif isinstance(k, tuple) and k[0] != "C" and isinstance(k[1], str) and k[1].startswith("%"):
                        done.pop(k, None)
                    else:
                        done[k] = frozenset()
                if new and self.unordered(I.elems(None, I.rv(s, n.a["it"]))) and ("sorted",) not in full:
                    self.problems[s] = True
                for t, l in I.succ[s]:
                    if l == "done":
                        outs.append((t, done))
                for t, e in esc:
                    d = dict(env)
                    d.update((k, self.subst(v, env, top)) for k, v in e.items())
                    outs.append((t, d))
            else:
                after = self.step(s, env, top)
                for t, l in I.succ[s]:
                    if l in ("exc", "excret"):
                        continue
                    outs.append((t, self.edge(s, t, l, after, top)))
            for t, e in outs:
                if t in heads or (body is not None and t not in body):
                    escapes.append((t, e))
                    continue
                old = envs.get(t)
                m = e if old is None else self.meet(old, e, top)
                if old is None or m != old:
                    envs[t] = m
                    if t not in queued:
                        queued.add(t)
                        heapq.heappush(todo, (rank.get(t, 0), t))
        return envs, escapes
