"""C13: the file graph's parent and child edges mirror each other."""
import ast
from engine.q import *
from .graph_common import *

TECHNIQUE = "pairing analysis: every change of an edge list is matched on all paths (within one round of its loop, or by loops covering the same list) by the mirrored change; effect analysis for who changes edges"


def check(R):
    R.rule("mirrored", "every edge added to or removed from one node's list is added to or removed from the other node's opposite list on the same paths")
    R.rule("emptied", "a node's edge list is emptied, replaced or dropped with the node only after every neighbour forgot the node")
    R.rule("fresh name", "a node is entered only under a name which is not in the graph yet")
    R.rule("owner", "only the graph's own module changes nodes or edges")
    ops = operations(R.p)
    R.need("operations of the graph", len(ops), 3)
    n = m = 0
    for f in ops:
        G = Graph(R.p, f)
        R.uses(G.A)
        n += len(G.evs)
        m += len(G.nodes)
        pairs(R, G, f)
        emptied(R, G, f)
        dropped(R, G, f)
        if f.name == "remove_file":
            R.obl(any(k == "del" for _, k, _, _ in G.nodes), "emptied", f.name, "the operation which removes a file removes nothing", f.qual)
        if f.name == "add_file":
            R.obl(any(k == "set" for _, k, _, _ in G.nodes), "mirrored", f.name, "the operation which adds a file adds nothing", f.qual)
    R.need("changes of edges", n, 4)
    R.need("changes of nodes", m, 2)
    owner(R)


def loaded(G, e):
    """The list of the stored record which an added edge is read from, when it is."""
    for h in G.loops:
        if e.sid in G.body(h):
            for t in G.iterable(h):
                if has(t, lambda x: x.k == "call" and x.a[0] in ("json.load", "json.loads")) and t.k == "item":
                    return h, t
    return None


def gathered(G, e):
    """The stored lists from which the list entered at once was gathered (None: from something else too)."""
    n = G.I.node(e.sid)
    src = G.I.rv(e.sid, n.a["src"] if n.op == "setattr" else n.a["r"]) if n.op in ("setattr", "augop") else \
        next((args[-1] for sid, f, args, kws, _ in G.A.F.calls() if sid == e.sid and args), frozenset())
    out = []
    for s in range(len(G.I.states)):
        if G.I.node(s).op == "accadd" and G.I.rv(s, G.I.node(s).a["obj"]) & src:
            ld = loaded(G, Ev(s, "add", (), e.f, ()))
            out.append(ld[1] if ld is not None and G.covering(s) is not None else None)
    return out if any(x is not None for x in out) else []


def same(a, b):
    return norms(a.own) == norms(b.vals) and norms(a.vals) == norms(b.own)


def pairs(R, G, f):
    A = G.A
    for op in ("add", "remove"):
        evs = [e for e in G.evs if e.op == op]
        for e in evs:
            con = "%s: %s.%s" % (f.name, "neighbour" if e.own else "", e.f)
            if op == "add":
                ld = loaded(G, e)
                if ld is not None:
                    h, t = ld
                    R.obl(isstr(t.a[1]) and cval(t.a[1]) == e.f and G.covering(e.sid) is not None, "mirrored", con,
                          "the stored edges %s are entered as %s, or not all of them" % (show(t)[-30:], e.f), A.loc(e.sid))
                    continue
            if op == "remove" and any(matched_clear(G, e, c) for c in G.evs if c.op in ("clear", "assign")) or op == "remove" and dels(G, e):
                # the other half is an emptied list or a dropped node; order and coverage are decided there
                cl = {c.sid for c in G.evs if c.op in ("clear", "assign") and matched_clear(G, e, c)} | {s for s, k, key, _ in G.nodes if k == "del"}
                h = G.covering(e.sid)
                R.obl(G.misses({h if h is not None else e.sid}, cl) is None, "mirrored", con, "the neighbours forget the node, but the node keeps its edges on some path", A.loc(e.sid))
                continue
            bulk = [c for c in G.evs if c.op in ("assign", "extend") and op == "add" and c.f == other(e.f) and norms(c.own) == norms(e.vals) and (norms(c.vals) == norms(e.own) or over(G, e, c))]
            mates = [c for c in evs if c.f == other(e.f) and same(e, c)]
            if not R.obl(mates or bulk, "mirrored", con, "%r has no counterpart" % e, A.loc(e.sid)):
                continue
            if not mates:
                h = G.covering(e.sid)
                R.obl(h is not None and G.misses({h}, {c.sid for c in bulk}) is None, "mirrored", con, "the edge is entered without its counterpart on some path", A.loc(e.sid))
                continue
            mine = {c.sid for c in evs if c.f == e.f and norms(c.own) == norms(e.own) and norms(c.vals) == norms(e.vals)}
            ms = {c.sid for c in mates}
            region = set()
            for c in ms:
                region |= G.common(e.sid, c)
            bad = G.misses({e.sid}, ms, region)
            if bad is not None:
                # loops of their own over the same list
                h = G.covering(e.sid)
                hs = {G.covering(c) for c in ms}
                ok = h is not None and None not in hs and all(G.iterable(x) == G.iterable(h) for x in hs) and G.misses({h}, hs) is None
                R.obl(ok, "mirrored", con, "%r happens without its counterpart on some path" % e, A.loc(e.sid))
                continue
            R.ok("mirrored", con)
            # twice
            stop = ms | region
            again = A.F.reach([t for t, l in A.I.succ[e.sid] if l != "exc" and t not in stop], stop_node=lambda s: s in stop) & mine
            R.obl(not again, "mirrored", con, "the edge is changed twice for one change of the other side", A.loc(e.sid))
        for e in [c for c in G.evs if c.op in ("assign", "extend") and c.vals] if op == "add" else []:
            if all(x.k == "elem" and x.a[0].k == "attr" and x.a[0].a[1] == e.f for x in e.vals):
                continue    # what is left of the same list
            con = "%s: %s" % (f.name, e.f)
            ld = gathered(G, e)
            if ld:
                R.obl(all(x is not None and isstr(x.a[1]) and cval(x.a[1]) == e.f for x in ld), "mirrored", con, "other edges than the stored %s, or not all of them, are entered" % e.f, A.loc(e.sid))
                continue
            mates = [c for c in evs if c.f == other(e.f) and norms(c.vals) == norms(e.own) and (norms(c.own) == norms(e.vals) or over(G, c, e))]
            if R.obl(bool(mates), "mirrored", con, "%r has no counterpart" % e, A.loc(e.sid)):
                hs = {G.covering(c.sid) for c in mates}
                R.obl(None not in hs and G.misses({e.sid}, hs) is None, "mirrored", con, "the edges are entered without their counterparts on some path", A.loc(e.sid))


def over(G, e, c):
    """Is the neighbour of the edge e taken from the very list c has just filled?"""
    h = G.covering(e.sid)
    return h is not None and norms(G.owners(G.iterable(h)).get(c.f, ())) == norms(c.own) and norms(e.own) <= norms(G.I.elems(h, G.iterable(h)))


def matched_clear(G, e, c):
    """Does emptying list c complete the removal e of its owner from the neighbours?"""
    return c.f == other(e.f) and bool(norms(c.own) & norms(e.vals))


def dels(G, e):
    """Is the node removed by e dropped from the graph?"""
    for s, k, key, _ in G.nodes:
        if k == "del" and all(v.k == "item" and v.a[0].k == "attr" and v.a[0].a[1] == "nodes" and v.a[1] in key for v in e.vals if v is not NONE):
            return True
    return False


def forgets(G, own, f):
    """States at which every neighbour in list ``f`` of the nodes has forgotten them: exhausted covering loops."""
    out = set()
    for e in G.evs:
        if e.op == "remove" and e.f == other(f) and norms(e.vals) == norms(own):
            h = G.covering(e.sid)
            if h is None:
                continue
            it = G.iterable(h)
            ow = G.owners(it)
            if it and not ow:
                # a copy of the list
                els = G.I.elems(h, it)
                ow = {f: {x.a[0].a[0] for x in els if x.k == "elem" and x.a[0].k == "attr" and x.a[0].a[1] == f}}
            if norms(ow.get(f, ())) == norms(own) and (norms(e.own) == norms(G.I.elems(h, it)) or norms(e.own) <= norms(G.I.elems(h, it))):
                out.add(h)
    return out


def empty_edge(G, own, f):
    lists = {mk("attr", o, f) for o in own} | {t for (t, fl), os_ in G.held.items() if fl == f and os_ & set(own)}
    def pred(t, v):
        if t in lists:
            return not v
        if t.k == "cmp" and t.a[0] == "Eq" and any(x.k == "call" and x.a[0] == "len" and x.a[1] in lists for x in t.a[1:] if isinstance(x, T)):
            return v and any(isconst(x, "int") and cval(x) == 0 for x in t.a[1:] if isinstance(x, T))
        return False
    return G.A.holds(pred)


def emptied(R, G, f):
    A = G.A
    for e in G.evs:
        if e.op not in ("clear", "assign"):
            continue
        if e.op == "assign" and e.vals and all(x.k == "elem" and x.a[0].k == "attr" and x.a[0].a[1] == e.f for x in e.vals):
            continue
        own = {o for o in e.own if o.k != "obj"}
        if not own:
            continue
        fg = forgets(G, own, e.f)
        emp = empty_edge(G, own, e.f)
        bad = A.F.reach(G.start, stop_edge=lambda a, b, l: emp(a, b, l) or a in fg and l == "done") & {e.sid}
        R.obl(not bad, "emptied", "%s: %s" % (f.name, e.f), "the list is emptied although neighbours may still refer to the node", A.loc(e.sid))


def dropped(R, G, f):
    A = G.A
    for s, k, key, val in G.nodes:
        if k == "del":
            own = {mk("item", mk("attr", mk("sym", "self"), "nodes"), x) for x in key}
            for fl in EDGES:
                fg = forgets(G, own, fl)
                emp = empty_edge(G, own, fl)
                bad = A.F.reach(G.start, stop_edge=lambda a, b, l: emp(a, b, l) or a in fg and l == "done") & {s}
                R.obl(not bad, "emptied", "%s: %s" % (f.name, fl), "the node is dropped although its %s may still refer to it" % fl, A.loc(s))
        elif k == "set":
            def absent(t, v):
                if t.k == "cmp" and t.a[0] == "In" and t.a[1] in key:
                    return not v
                if t.k == "cmp" and t.a[0] == "Eq" and t.a[2] is NONE and t.a[1].k == "item":
                    return v
                return False
            bad = A.F.reach(G.start, stop_edge=A.holds(absent)) & {s}
            R.obl(not bad, "fresh name", "%s: nodes" % f.name, "a node already in the graph may be replaced, leaving its neighbours' edges behind", A.loc(s))


MUT = ADD | REMOVE | BULK | {"clear", "sort", "reverse", "setdefault", "popitem"}


def owner(R):
    c = graph_class(R.p)
    mod = c.module
    n = 0
    for f in R.p.funcs.values():
        if f.module is mod or f.is_stub:
            continue
        n += 1
        for x in ast.walk(f.node):
            tgt = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                tgt = x.func.value
            elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in x.targets if not isinstance(x, ast.AugAssign) else [x.target]:
                    if graphic(t, True):
                        R.bad("owner", f.qual.replace(PKG, ""), "%s changes the graph from outside its module" % ast.unparse(x)[:100], "%s:%d" % (f.module.rel, x.lineno))
            if tgt is not None and graphic(tgt):
                R.bad("owner", f.qual.replace(PKG, ""), "%s changes the graph from outside its module" % ast.unparse(x)[:100], "%s:%d" % (f.module.rel, x.lineno))
        R.ok("owner", f.qual)
    R.count("functions outside the graph's module", n)


def graphic(t, store=False):
    """Does the expression name nodes or edges of a graph?"""
    if isinstance(t, ast.Subscript):
        return graphic(t.value)
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("get", "values", "items"):
        return graphic(t.func.value)
    if isinstance(t, ast.Attribute):
        if t.attr == "nodes":
            return "graph" in ast.unparse(t.value).lower()
        if t.attr in EDGES + ("mtime", "filesize", "inode"):
            return graphic(t.value) and not isinstance(t.value, ast.Name)
    return False
