"""Backward data slices at the level of instructions: where a value may come from, through variables, containers,
object attributes, parameters and returns. Unlike value terms they stay exact where terms were widened."""
from .q import *
from .absint import rdefs

WRAP = ("list", "set", "tuple", "frozenset", "dict", "sorted", "reversed", "iter", "next", "enumerate", "zip", "asyncio.wrap_future", "copy.copy", "copy.deepcopy",
        "itertools.chain", "filter", "map", "asyncio.gather", "concurrent.futures.as_completed", "asyncio.as_completed", "dict.fromkeys", "collections.deque")
READM = ("get", "pop", "popitem", "popleft", "setdefault", "items", "keys", "values", "copy", "union", "difference", "intersection", "result", "__getitem__")
GROWM = ("append", "add", "appendleft", "insert", "extend", "update", "setdefault", "extendleft")


class Flow:
    def __init__(self, A):
        self.A = A; self.I = I = A.I
        self.at = {}
        for s, (cid, pc, part) in enumerate(I.states):
            self.at.setdefault((cid, pc), []).append(s)
        self.fills = {}         # container term -> [(cid, pc, key registers, value registers, container registers)]
        self.sets = {}          # attribute name -> [(cid, pc, obj register, value register)]
        self.rets = {}          # cid -> [(pc, register)]
        self.called = {}        # (cid, pc) of a call -> contexts entered
        for c, ctx in enumerate(I.ctxs):
            if ctx.csid is not None:
                k = I.states[ctx.csid][:2]
                self.called.setdefault(tuple(k), set()).add(c)
        for (cid, pc), ss in self.at.items():
            n = I.ctxs[cid].ir.nodes[pc]
            if n.op == "ret":
                self.rets.setdefault(cid, []).append((pc, n.a["src"]))
            elif n.op == "setattr":
                self.sets.setdefault(n.a["name"], []).append((cid, pc, n.a["obj"], n.a["src"]))
            elif n.op == "setsub":
                for o in self.vals(cid, pc, n.a["obj"]):
                    self.fills.setdefault(o, []).append((cid, pc, [n.a["idx"]], [n.a["src"]], []))
            elif n.op == "accadd":
                for o in self.vals(cid, pc, n.a["obj"]):
                    self.fills.setdefault(o, []).append((cid, pc, [n.a["src"]], [n.a["src"]], []))
            elif n.op == "augop":
                for o in self.vals(cid, pc, n.a["l"]):
                    if o.k in ("list", "set", "dict"):
                        self.fills.setdefault(o, []).append((cid, pc, [], [], [n.a["r"]]))
            elif n.op == "call":
                regs = [r if isinstance(r, str) else r[1] for r in n.a["args"]]
                for s in ss:
                    for f, args, kws, e in I.calls.get(s, ()):
                        if f.k in ("meth", "attr") and f.a[1] in GROWM and isinstance(f.a[0], T) and regs:
                            m = f.a[1]
                            if m in ("extend", "update", "extendleft"):
                                x = (cid, pc, [], [], regs)
                            elif m == "setdefault":
                                x = (cid, pc, regs[:1], regs[1:], [])
                            else:
                                x = (cid, pc, regs[-1:], regs[-1:], [])
                            if x not in self.fills.setdefault(f.a[0], []):
                                self.fills[f.a[0]].append(x)

    def vals(self, cid, pc, reg):
        out = set()
        for s in self.at.get((cid, pc), ()):
            out |= self.I.rv(s, reg)
        return out

    def node(self, cid, pc):
        return self.I.ctxs[cid].ir.nodes[pc]

    def slice(self, cid, pc, reg, stop=None, keys=True):
        """{(cid, pc)} of the instructions the value of a register before an instruction may come from.

        stop(cid, pc, node) -> do not look behind this instruction."""
        I = self.I
        seen, out = set(), set()
        st = [("r", cid, pc, reg)]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "c":             # everything in a container
                for f in self.fills.get(x[1], ()):
                    out.add(f[:2])
                    for r in f[2] + f[3] + f[4]:
                        st.append(("r", f[0], f[1], r))
                continue
            _, cid, pc, reg = x
            ir = I.ctxs[cid].ir
            for d in self.defs(cid, pc, reg):
                if d[0] == "p":
                    st += self.params(d[1], d[2])
                    continue
                cid2, dp = d[1], d[2]
                n = self.node(cid2, dp)
                if (cid2, dp) not in self.at:
                    continue
                out.add((cid2, dp))
                if stop is not None and stop(cid2, dp, n):
                    continue
                st += self.behind(cid2, dp, n)
        return out

    def defs(self, cid, pc, reg):
        ir = self.I.ctxs[cid].ir
        ds = rdefs(ir, pc, reg)
        out = []
        for d in ds:
            if isinstance(d, str):
                out.append(("p", cid, d[2:]))
            else:
                out.append(("n", cid, d))
        if not ds:
            # a variable of the enclosing function
            c = self.I.ctxs[cid]
            up = getattr(c, "defcid", None)
            if up is not None:
                for d in self.I.ctxs[up].ir.alldefs.get(reg, ()):
                    out.append(("p", up, d[2:]) if isinstance(d, str) else ("n", up, d))
        return out

    def params(self, cid, name):
        I = self.I
        c = I.ctxs[cid]
        if c.csid is None:
            return []
        cc, pc = I.states[c.csid][:2]
        n = self.node(cc, pc)
        if n.op != "call":
            return []
        ps = c.func.params()
        args = list(n.a["args"])
        kw = dict(n.a["kws"])
        if name in kw:
            return [("r", cc, pc, kw[name])]
        off = 0
        for f in self.vals(cc, pc, n.a["f"]):
            if f.k in ("bound", "class"):
                off = 1
        if name in ps:
            i = ps.index(name) - off
            if i == -1:
                return [("r", cc, pc, n.a["f"])]
            if 0 <= i < len(args) and isinstance(args[i], str):
                return [("r", cc, pc, args[i])]
        return [("r", cc, pc, a[1]) for a in args if not isinstance(a, str)]

    def content(self, cid, pc, reg):
        """Work items for what a container register holds."""
        out = [("r", cid, pc, reg)]
        for t in self.vals(cid, pc, reg):
            out.append(("c", t))
            while t.k == "list" and isinstance(t.a[0], T):
                t = t.a[0]
                out.append(("c", t))
        return out

    def behind(self, cid, pc, n):
        R = lambda r: ("r", cid, pc, r)
        op, a = n.op, n.a
        if op == "load":
            return [R(a["name"])]
        if op in ("store", "unpack_star", "ret"):
            return [R(a["src"])]
        if op == "unpack":
            return [R(a["src"])]
        if op in ("await", "unop", "fmt", "yield", "yieldfrom"):
            return [R(a["v"])]
        if op == "next":
            return self.content(cid, pc, a["it"])
        if op in ("sub", "slice"):
            return self.content(cid, pc, a["obj"])
        if op == "attr":
            out = [R(a["obj"])]
            for c in self.called.get((cid, pc), ()):
                out += [("r", c, p, r) for p, r in self.rets.get(c, ())]
            objs = self.vals(cid, pc, a["obj"])
            for cid2, pc2, o, src in self.sets.get(a["name"], ()):
                if self.vals(cid2, pc2, o) & objs:
                    out.append(("r", cid2, pc2, src))
            return out
        if op in ("cmp", "bin", "augop"):
            return [R(a["l"]), R(a["r"])]
        if op == "concat":
            return [R(p) for p in a["parts"] if isinstance(p, str)]
        if op == "build":
            return [R(p if isinstance(p, str) else p[1]) for p in a["parts"]] + ([("r", cid, pc, n.dst)] if False else [("c", t) for t in self.made(cid, pc)])
        if op == "builddict":
            return [R(x) for k, v in a["items"] for x in (k, v) if x is not None] + [("c", t) for t in self.made(cid, pc)]
        if op == "call":
            out = []
            ent = self.called.get((cid, pc), ())
            for c in ent:
                out += [("r", c, p, r) for p, r in self.rets.get(c, ())]
            if ent and not self.built(cid, pc):
                return out
            for r in a["args"]:
                r = r if isinstance(r, str) else r[1]
                out += self.content(cid, pc, r) if self.wraps(cid, pc) else [R(r)]
            out += [R(r) for k, r in a["kws"]]
            for s in self.at[(cid, pc)]:
                for f, args, kws, e in self.I.calls.get(s, ()):
                    if f.k in ("meth", "attr") and isinstance(f.a[0], T):
                        out.append(R(a["f"]))
                        out.append(("c", f.a[0]))
            out += [("c", t) for t in self.made(cid, pc)]
            return out
        return []

    def built(self, cid, pc):
        return any(f.k == "class" for s in self.at[(cid, pc)] for f, args, kws, e in self.I.calls.get(s, ()))

    def wraps(self, cid, pc):
        return any(f.k == "ext" and f.a[0] in WRAP for s in self.at[(cid, pc)] for f, args, kws, e in self.I.calls.get(s, ()))

    def made(self, cid, pc):
        """Containers an instruction creates."""
        n = self.node(cid, pc)
        if n.op not in ("build", "builddict", "call", "bin", "augop", "slice"):
            return set()
        sig = self.I.ctxs[cid].sig
        return {t for t in self.I.V.get((cid, pc), ()) if t.k in ("list", "set", "dict") and t.a[0] == sig and str(t.a[1]).lstrip("abcdefghijklmnopqrstuvwxyz") == str(pc)}

    def containers(self, places):
        """Container terms read by the instructions of a slice."""
        out = set()
        for cid, pc in places:
            n = self.node(cid, pc)
            r = n.a.get("it") if n.op == "next" else n.a.get("obj") if n.op in ("sub", "slice") else None
            ts = set(self.vals(cid, pc, r)) if r else set()
            if n.op == "call":
                for s in self.at[(cid, pc)]:
                    for f, args, kws, e in self.I.calls.get(s, ()):
                        if f.k in ("meth", "attr") and isinstance(f.a[0], T) and f.a[1] in READM:
                            ts.add(f.a[0])
                        if f.k == "ext" and f.a[0] in WRAP:
                            ts |= {t for v in args for t in v}
                ts |= self.made(cid, pc)
            if n.op == "build":
                ts |= self.made(cid, pc)
            for t in ts:
                while t.k == "list" and isinstance(t.a[0], T):
                    t = t.a[0]
                if t.k in ("list", "set", "dict", "sym"):
                    out.add(t)
        return out
