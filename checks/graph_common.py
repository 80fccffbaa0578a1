"""The file graph: which states of its operations change edges or nodes, and loops which cover a list."""
from engine.q import *

EDGES = ("parents", "children")
ADD = {"append", "add", "insert"}
REMOVE = {"remove", "discard", "pop"}
BULK = {"extend", "update"}
GRAPH = "FileDependencyGraph"
NODE = "FileDependencyGraphNode"


class Ev:
    """A change of the edges of one node: op in add/remove/clear/assign/extend."""
    __slots__ = ("sid", "op", "own", "f", "vals")

    def __init__(self, sid, op, own, f, vals):
        self.sid = sid; self.op = op; self.own = frozenset(own); self.f = f; self.vals = frozenset(vals)

    def __repr__(self):
        return "%s(%s.%s, %s)" % (self.op, show(self.own), self.f, show(self.vals))


def graph_class(p):
    return find_cls(p, GRAPH)


def operations(p):
    """The public operations of the graph."""
    c = graph_class(p)
    return [f for n, f in sorted(c.methods.items()) if not n.startswith("_") and not f.is_stub] if c else []


def other(f):
    return EDGES[1 - EDGES.index(f)]


class Graph:
    def __init__(self, p, f, opaque=()):
        self.A = A = Ana(p, [(f.qual, {}, None)], opaque=OPAQUE + tuple(opaque))
        self.I = I = A.I
        self.cid = A.eid[f.qual]
        self.start = A.start(self.cid)
        self.exits = A.exits(self.cid)
        self.held = {}
        for k, v in I.V.items():
            if isinstance(k, tuple) and len(k) == 2 and k[1] in EDGES and isinstance(k[0], T) and (k[0].k != "obj" or k[0].a[0].endswith("." + NODE)):
                for t in v:
                    if t.k in ("list", "set"):
                        self.held.setdefault((t, k[1]), set()).add(k[0])
        self.evs = self.events()
        self.loops = {s: (set(t for t, l in I.succ[s] if l == "item"), set(t for t, l in I.succ[s] if l == "done")) for s in A.F.node_states("next")}

    def owners(self, vals):
        """{field: nodes} of which the values are an edge list."""
        out = {}
        for t in vals:
            if t.k == "attr" and t.a[1] in EDGES:
                out.setdefault(t.a[1], set()).add(t.a[0])
            for f in EDGES:
                if (t, f) in self.held:
                    out.setdefault(f, set()).update(self.held[(t, f)])
        return out

    def nodemap(self, vals):
        return any(t.k == "attr" and t.a[1] == "nodes" for t in vals)

    def events(self):
        I, out = self.I, []
        self.nodes = []      # (state, "set"/"del", key values, node values)
        for sid, f, args, kws, e in self.A.F.calls():
            if f.k in ("class",) and f.a[0].endswith("." + NODE):
                continue
            if f.k not in ("meth", "attr") or not isinstance(f.a[0], T):
                continue
            m = f.a[1]
            own = self.owners([f.a[0]])
            for fl, ow in own.items():
                v = args[-1] if args else frozenset()
                if m in ADD:
                    out.append(Ev(sid, "add", ow, fl, v))
                elif m in REMOVE:
                    out.append(Ev(sid, "remove", ow, fl, v if m != "pop" else frozenset([mk("call", ".pop", f.a[0])])))
                elif m == "clear":
                    out.append(Ev(sid, "clear", ow, fl, ()))
                elif m in BULK:
                    out.append(Ev(sid, "extend", ow, fl, I.elems(sid, v)))
            if self.nodemap([f.a[0]]) and m in ("pop", "clear", "update", "setdefault", "popitem"):
                self.nodes.append((sid, "del" if m in ("pop", "popitem", "clear") else "set", args[0] if args else frozenset(), args[1] if len(args) > 1 else frozenset()))
        merged = {}
        for e in out:
            k = (e.sid, e.op, e.f)
            if k in merged:
                merged[k] = Ev(e.sid, e.op, merged[k].own | e.own, e.f, merged[k].vals | e.vals)
            else:
                merged[k] = e
        out = list(merged.values())
        for s in range(len(I.states)):
            n = I.node(s)
            if n.op == "setattr" and n.a["name"] in EDGES:
                own = {t for t in I.rv(s, n.a["obj"]) if t.k != "const"}
                src = I.rv(s, n.a["src"])
                out.append(Ev(s, "assign", own, n.a["name"], I.elems(s, src)))
            elif n.op == "augop" and self.owners(I.rv(s, n.a["l"])):
                for fl, ow in self.owners(I.rv(s, n.a["l"])).items():
                    out.append(Ev(s, "extend", ow, fl, I.elems(s, I.rv(s, n.a["r"]))))
            elif n.op == "setsub" and self.nodemap(I.rv(s, n.a["obj"])):
                self.nodes.append((s, "set", I.rv(s, n.a["idx"]), I.rv(s, n.a["src"])))
            elif n.op == "delsub":
                o = I.rv(s, n.a["obj"])
                if self.nodemap(o):
                    self.nodes.append((s, "del", I.rv(s, n.a["idx"]), frozenset()))
                for fl, ow in self.owners(o).items():
                    out.append(Ev(s, "clear", ow, fl, ()))
        return out

    # ---- loops
    def body(self, h):
        """States of the loop's body."""
        key = ("body", h)
        c = self.__dict__.setdefault("_memo", {})
        if key not in c:
            item, done = self.loops[h]
            fw = self.A.F.reach(item, stop_node=lambda s: s == h)
            bw = self.A.F.reach([h], back=True)
            c[key] = fw & bw
        return c[key]

    def covering(self, sid):
        """The innermost loop of which every round passes the state and which is left only when exhausted."""
        best = None
        for h in self.loops:
            b = self.body(h)
            if sid in b and (best is None or len(b) < len(self.body(best))):
                best = h
        if best is None:
            return None
        item, done = self.loops[best]
        out = self.A.F.reach(item, stop_node=lambda s: s == sid or s == best)
        if sid in item:
            out = set()
        if any(t == best for s in out for t, l in self.I.succ[s]) or out & set(self.exits):
            return None
        # left early
        after = self.A.F.reach([t for t, l in self.I.succ[sid] if t != best], stop_node=lambda s: s == best)
        if sid not in self.exits and after & set(self.exits):
            return None
        return best

    def iterable(self, h):
        return self.I.rv(h, self.I.node(h).a["it"])

    def misses(self, a, b, region=()):
        """Is there a path with one of ``a`` but none of ``b`` (within one round of the loops in region)?"""
        I = self.I
        stop = set(region)
        ends = set(self.exits) | stop
        for s in a:
            cut = lambda x: x in b or x in stop
            if s in b:
                continue
            nxt = [t for t, l in I.succ[s] if l != "exc"]
            fwd = self.A.F.reach([t for t in nxt if not cut(t)], stop_node=cut)
            f = any(t in stop or t in self.exits for t in nxt if t not in b) or bool(fwd & set(self.exits)) or any(t in stop for x in fwd for t, l in I.succ[x])
            if not f:
                continue
            prv = [t for t, l in I.pred[s] if t not in b]
            if s in self.start:
                return s
            bw = self.A.F.reach([t for t in prv if t not in stop], stop_node=cut, back=True)
            if any(t in stop for t in prv) or bw & set(self.start) or any(t in stop for x in bw for t, l in I.pred[x]):
                return s
        return None

    def common(self, a, b):
        """Heads of the loops both states are in."""
        return {h for h in self.loops if a in self.body(h) and b in self.body(h)}


def norms(v):
    return frozenset(norm(t) for t in v if t is not NONE)


def leads(A, starts, targets, cut=None):
    """Targets reached from the states, knowing that a list to which something was added is not empty."""
    I = A.I
    targets = set(targets)
    hit = set()
    seen = {(s, frozenset()) for s in starts}
    st = list(seen)
    while st:
        s, ne = st.pop()
        if s in targets:
            hit.add(s)
        n = I.node(s)
        add = set()
        if n.op == "accadd":
            add = {t for t in I.rv(s, n.a["obj"]) if t.k in ("list", "set")}
        elif n.op == "call":
            add = {f.a[0] for f in I.rv(s, n.a["f"]) if f.k in ("attr", "meth") and f.a[1] in ("append", "add") and isinstance(f.a[0], T) and f.a[0].k in ("list", "set")}
        ne2 = ne | add if len(add) == 1 else ne
        for t, l in I.succ[s]:
            if cut is not None and cut(s, t, l):
                continue
            if l in ("T", "F"):
                at = A.F.edge_atoms(s, l)
                if at and all(x in ne and not v for x, v in at):
                    continue
            k = (t, ne2)
            if k not in seen:
                seen.add(k)
                st.append(k)
    return hit
