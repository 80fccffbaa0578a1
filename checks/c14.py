"""C14: a graph operation which raises leaves the graph as it was."""
from engine.q import *
from .graph_common import *
from .c13 import empty_edge

TECHNIQUE = "effect-ordering analysis (no raise is reachable from a change of the graph) and guard analysis (each documented rejection cuts every path to a change) over the control-flow graph of each operation, with partial evaluation of the cycle test's result"


def check(R):
    R.rule("raise first", "no operation raises after it changed an existing node or the set of nodes")
    R.rule("known names", "every name an operation looks up while changing the graph was found to be in the graph before the first change")
    R.rule("rejected", "an existing name, an unknown name, and remaining neighbours which were not to be cleared each keep an operation from changing anything")
    R.rule("cycles", "unless disabled, no edge is replaced before every child was found not to lead back to the file")
    ops = operations(R.p)
    R.need("operations of the graph", len(ops), 3)
    n = 0
    c = graph_class(R.p)
    nested = c.methods.get("check_nested_relationship")
    for f in ops:
        G = Graph(R.p, f, opaque=[nested.qual] if nested is not None and f is not nested else [])
        R.uses(G.A)
        muts = {e.sid for e in G.evs if any(o.k != "obj" for o in e.own)} | {s for s, k, key, v in G.nodes}
        if not muts:
            continue
        n += 1
        raises(R, G, f, muts)
        lookups(R, G, f, muts)
        rejected(R, G, f, muts)
        if f.name == "set_children":
            cycles(R, G, f, muts, nested)
    R.need("operations which change the graph", n, 2)


def raises(R, G, f, muts):
    A, I = G.A, G.I
    after = A.F.reach([t for s in muts for t, l in I.succ[s] if l != "exc"])
    for s in after:
        if I.node(s).op == "raise" and not I.node(s).a.get("reraise"):
            R.bad("raise first", f.name, "raises after the graph was changed", A.loc(s))
    for sid, fn, args, kws, e in A.F.calls():
        if sid in after and not e and fn.k in ("func", "bound") and A.F.name(fn) != f.qual and "check_" in A.F.name(fn):
            R.bad("raise first", f.name, "%s may reject after the graph was changed" % A.F.name(fn).split(".")[-1], A.loc(sid))
    R.obl(True, "raise first", f.name, "")


def isnodes(t):
    return t.k == "attr" and t.a[1] == "nodes"


def lookups(R, G, f, muts):
    A, I = G.A, G.I
    after = A.F.reach([t for s in muts for t, l in I.succ[s] if l != "exc"]) | set(muts)
    first = A.F.reach(G.start, stop_node=lambda s: s in muts)
    seen = {}
    for s in after:
        n = I.node(s)
        if n.op == "sub" and any(isnodes(t) for t in I.rv(s, n.a["obj"])):
            for k in I.rv(s, n.a["idx"]):
                seen.setdefault(k, []).append(s)
    for sid, fn, args, kws, e in A.F.calls():
        if sid in after and fn.k in ("meth", "attr") and fn.a[1] == "get" and isnodes(fn.a[0]) and args:
            for k in args[0]:
                seen.setdefault(k, []).append(sid)
    # edges which are lookups of elements before the first change, too
    for s in first:
        n = I.node(s)
        if n.op == "sub" and any(isnodes(t) for t in I.rv(s, n.a["obj"])):
            for k in I.rv(s, n.a["idx"]):
                if k.k == "elem":
                    seen.setdefault(k, [])
    for k, at in seen.items():
        con = "%s: %s" % (f.name, show(k))
        if k.k == "elem":
            known_elem(R, G, f, k, muts, con)
        elif at:
            R.obl(not A.F.reach(G.start, stop_edge=A.holds(lambda t, v: known(t, v, k))) & set(muts), "known names", con, "the name may be unknown when the graph is changed", A.loc(at[0]))


def known(t, v, k):
    """Does the condition say that k is a file of the graph?"""
    if t.k == "cmp" and t.a[0] == "In" and t.a[1] is k and isnodes(t.a[2]):
        return v
    if t.k == "cmp" and t.a[0] == "Eq" and t.a[2] is NONE and t.a[1].k == "item" and t.a[1].a[1] is k:
        return not v
    if t.k == "item" and t.a[1] is k and isnodes(t.a[0]):
        return v
    return False


def known_elem(R, G, f, k, muts, con):
    A, I = G.A, G.I
    unknown = {}
    for s in range(len(I.states)):
        if A.F.is_branch(s):
            for t, l in I.succ[s]:
                if l in ("T", "F"):
                    at = A.F.edge_atoms(s, l)
                    if at and any(known(x, not v, k) for x, v in at):
                        unknown.setdefault(s, []).append(t)
    sub = [s for s in range(len(I.states)) if I.node(s).op == "sub" and any(isnodes(t) for t in I.rv(s, I.node(s).a["obj"])) and k in I.rv(s, I.node(s).a["idx"])
           and not A.F.reach(G.start, stop_node=lambda x: x in muts) & {s} - set()]
    heads = {h for h in G.loops if k in I.elems(h, G.iterable(h)) and (set(unknown) & G.body(h) or any(s in A.F.reach(G.loops[h][0], stop_node=lambda x: x == h) for s in unknown))}
    # looking every name up before the first change rejects unknown names as well
    before = A.F.reach(G.start, stop_node=lambda s: s in muts)
    direct = [s for s in before if I.node(s).op == "sub" and any(isnodes(t) for t in I.rv(s, I.node(s).a["obj"])) and k in I.rv(s, I.node(s).a["idx"])]
    for s in direct:
        h = G.covering(s)
        if h is not None and not A.F.reach([h], stop_edge=lambda a, b, l: a == h and l == "done") & muts:
            heads.add(h)
    use = {h for h in G.loops if k in I.elems(h, G.iterable(h)) and G.body(h) & muts}
    falsy = A.holds(lambda t, v: t is k.a[0] and not v or t.k == "cmp" and t.a[0] == "Eq" and t.a[1] is k.a[0] and t.a[2] is NONE and v)
    tgt = use or muts
    miss = A.F.reach(G.start, stop_edge=falsy, stop_node=lambda s: s in heads and s not in tgt) & tgt
    R.obl(bool(heads) and not (miss - heads), "known names", con, "the names are not all looked up before the graph is changed", A.loc(min(tgt)))
    for s, ts in unknown.items():
        hit = leads(A, ts, muts)
        R.obl(not hit, "known names", con, "an unknown name does not keep the graph from being changed", A.loc(s))


def rejected(R, G, f, muts):
    A, I = G.A, G.I
    ps = [p for p in f.params() if p != "self"]
    if not ps:
        return
    a = mk("sym", ps[0])
    node = mk("item", mk("attr", mk("sym", "self"), "nodes"), a)
    if f.name == "add_file":
        hit = A.F.reach(G.start, stop_edge=A.holds(lambda t, v: known(t, not v, a))) & muts
        R.obl(not hit, "rejected", "add_file: existing name", "an existing file may be added again", A.loc(min(hit)) if hit else "")
    else:
        hit = A.F.reach(G.start, stop_edge=A.holds(lambda t, v: known(t, v, a))) & muts
        R.obl(not hit, "rejected", "%s: unknown name" % f.name, "an unknown file is not rejected", A.loc(min(hit)) if hit else "")
    if f.name == "remove_file":
        for fl in EDGES:
            flag = mk("sym", "clear_" + fl)
            if "clear_" + fl not in ps:
                continue
            emp = empty_edge(G, {node}, fl)
            on = A.holds(lambda t, v: t is flag and v)
            hit = A.F.reach(G.start, stop_edge=A.any(emp, on)) & muts
            R.obl(not hit, "rejected", "remove_file: %s" % fl, "a file with %s is removed although they were not to be cleared" % fl, A.loc(min(hit)) if hit else "")


def ev(t, asg):
    """The truth of a condition under an assignment of constants to terms, None if unknown."""
    if t in asg:
        return truth(asg[t])
    if t.k == "const":
        return truth(t)
    if t.k == "cmp" and len(t.a) == 3:
        x, y = asg.get(t.a[1], t.a[1]), asg.get(t.a[2], t.a[2])
        if t.a[0] in ("In", "NotIn") and y.k in ("tup", "list", "set"):
            els = [z for p in y.a[0] for z in p] if y.k == "tup" else None
            if els is not None and all(z.k == "const" for z in els) and x.k == "const":
                return (x in els) == (t.a[0] == "In")
            return None
        if x.k == "const" and y.k == "const" and t.a[0] in ("Eq", "Is", "NotEq", "IsNot"):
            return (x is y) == (t.a[0] in ("Eq", "Is"))
        return None
    if t.k == "not":
        v = ev(t.a[0], asg)
        return None if v is None else not v
    return None


def excluded(A, asg):
    """Edges which cannot be taken under the assignment."""
    def cut(s, t, l):
        if l not in ("T", "F"):
            return False
        vs = [ev(x, asg) for x in A.F.conds(s)]
        return bool(vs) and all(v is not None and v != (l == "T") for v in vs)
    return cut


def relations(R, nested):
    """{returned constant: (may hold with the parent walk true/false, with the child walk true/false)} of the relationship test."""
    A = Ana(R.p, [(nested.qual, {}, None)], inline=lambda f: f.qual == nested.qual)
    R.uses(A)
    I = A.I
    cid = A.eid[nested.qual]
    rets = {}
    for s in range(len(I.states)):
        if I.node(s).op == "ret" and I.states[s][0] == cid:
            for t in I.rv(s, I.node(s).a["src"]):
                rets.setdefault(t, set()).add(s)
    calls = {}
    for sid, f, args, kws, e in A.F.calls():
        if f.k in ("func", "closure", "bound") and I.node(sid).dst is not None:
            q = f.a[1] if f.k == "bound" else f.a[0]
            for t, l in I.succ[sid]:
                if l != "exc":
                    for x in I.rv(t, I.node(sid).dst):
                        calls[x] = (q, f, args)
    return A, cid, rets, calls


def walks(R, nested):
    """The edge lists each helper of the relationship test walks, by its arguments: {(callee, constants): fields}."""
    A = Ana(R.p, [(nested.qual, {}, None)])
    R.uses(A)
    I = A.I
    cid = A.eid[nested.qual]
    out = {}
    first = {}
    for h in A.F.node_states("next"):
        c = I.states[h][0]
        while c is not None and c != cid:
            cs = I.ctxs[c].csid
            if cs is None:
                break
            if I.states[cs][0] == cid:
                for t in I.rv(h, I.node(h).a["it"]):
                    fl = {x.a[1] for x in subterms(t) if x.k == "attr" and x.a[1] in EDGES}
                    out.setdefault(c, set()).update(fl if fl else {"?"})
                    deep = not any(x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "nodes" for x in [t.a[0]] if isinstance(t.a[0], T)) if t.k == "attr" else True
                    first.setdefault(c, set()).add(deep)
                break
            c = I.states[cs][0]
    complete(R, A, nested, cid)
    for sid, f, args, kws, e in A.F.calls():
        c, up = I.states[sid][0], []
        while c is not None and c != cid and I.ctxs[c].csid is not None:
            up.append(c)
            c = I.states[I.ctxs[c].csid][0]
        if f.k in ("func", "closure", "bound") and up and A.F.name(f) in {I.ctxs[x].func.qual for x in up}:
            first.setdefault(up[-1], set()).add(True)
    res = {}
    for c, fl in out.items():
        cs = I.ctxs[c].csid
        for f, args, kws, e in I.calls.get(cs, ()):
            key = (I.ctxs[c].func.qual, tuple(sorted(cval(x) for v in args for x in v if isstr(x))))
            o = res.setdefault(key, (set(), set()))
            o[0].update(fl - {"?"})
            o[1].update(first[c])
    return res


PUSH = {"append", "appendleft", "add", "put", "put_nowait", "insert", "extend", "extendleft", "update", "push", "__iadd__"}
POP = {"pop", "popleft", "popitem", "get_nowait"}


def complete(R, A, nested, cid):
    """A walk with a worklist queues whatever neighbour it did not see before, and ends only when nothing is left."""
    I = A.I
    pops, pushes, inner = {}, {}, set()
    for sid, f, args, kws, e in A.F.calls():
        if f.k in ("meth", "attr") and isinstance(f.a[0], T) and f.a[0].k in ("list", "set", "dict"):
            if f.a[1] in POP:
                pops.setdefault((I.states[sid][0], f.a[0]), set()).add(sid)
            elif f.a[1] in PUSH:
                pushes.setdefault(f.a[0], set()).add(sid)
        if f.k in ("func", "closure", "bound") and I.states[sid][0] != cid:
            inner.add(sid)
    for (c, work), ps in pops.items():
        seen = lambda t, v: v and t.k == "cmp" and t.a[0] == "In" and isinstance(t.a[2], T) and t.a[2].k in ("list", "set", "dict") and t.a[2] is not work
        known = A.holds(seen)
        put = pushes.get(work, set()) | inner
        for s in range(len(I.states)):
            if I.states[s][0] == c and I.node(s).op in ("accadd", "augop", "concat", "yield", "setattr"):
                put.add(s)
        mine = {s for s in range(len(I.states)) if I.states[s][0] == c}
        con = "%s: %s" % (nested.name, I.ctxs[c].func.name)
        left = {s for s in mine if I.node(s).op == "ret" and I.rv(s, I.node(s).a["src"]) == frozenset([const(False)])}
        right = A.holds(lambda t, v: v and t.k == "cmp" and t.a[0] == "Eq" and not any(y.k == "const" for y in t.a[1:]))
        heads = {s for s in mine if I.node(s).op == "next" and any(t is ANY or t.k == "attr" and t.a[1] in EDGES for t in I.rv(s, I.node(s).a["it"]))}
        for h in heads:
            first = [t for t, l in I.succ[h] if l == "item"]
            miss = A.F.reach(first, A.any(known, lambda a, b, l: l == "exc"), lambda s: s in put) - put
            R.obl(h not in miss, "cycles", con, "a neighbour which was not seen before may not be queued", A.loc(h), A.F.path(h) if h in miss else ())
            early = A.F.reach(first, A.any(right, lambda a, b, l: l == "exc"), lambda s: s in heads) & ((ps | left) - heads)
            R.obl(not early, "cycles", con, "the rest of the neighbours may be left out", A.loc(h), A.F.path(min(early)) if early else ())
        after = [t for p in ps for t, l in I.succ[p] if l != "exc" and t not in put and t not in heads]
        miss = A.F.reach(after, A.any(known, right, lambda a, b, l: l == "exc"), lambda s: s in put or s in heads)
        hit = miss & (ps | left)
        R.obl(not hit, "cycles", con, "the neighbours of a queued file may not be looked at", A.loc(min(ps)), A.F.path(min(hit)) if hit else ())
        def over(t, v):
            if t.k == "not":
                return over(t.a[0], not v)
            if t is work or t.k == "attr" and t.a[1] in EDGES or t is ANY:
                return not v
            return any(y is work or y.k == "call" and len(y.a) > 1 and y.a[0].split(".")[-1] == "len" and (y.a[1] is work or y.a[1] is ANY or y.a[1].k == "attr" and y.a[1].a[1] in EDGES) for y in subterms(t))
        done = A.holds(over)
        def ended(a, b, l):
            return l == "exc" or l != "item" and I.node(a).op == "next" and any(t is work for t in I.rv(a, I.node(a).a["it"])) or done(a, b, l) or right(a, b, l)
        hit = A.F.reach([p for p in ps], ended) & left
        R.obl(not hit, "cycles", con, "the walk may end although files are still queued", A.loc(min(hit)) if hit else "", A.F.path(min(hit)) if hit else ())


def cycles(R, G, f, muts, nested):
    A, I = G.A, G.I
    con = "set_children: cycles"
    ps = [p for p in f.params() if p != "self"]
    a = mk("sym", ps[0])
    off = A.holds(lambda t, v: t is mk("sym", "prevent_cycles") and not v)
    if nested is None:
        return
    tests = {}
    for sid, fn, args, kws, e in A.F.calls():
        if A.F.name(fn) == nested.qual and len(args) >= 2:
            x, y = args[-2], args[-1]
            fwd = x == frozenset([a]) and all(t.k == "elem" for t in y)
            bwd = y == frozenset([a]) and all(t.k == "elem" for t in x)
            if fwd or bwd:
                d = I.node(sid).dst
                vals = {v for t, l in I.succ[sid] if l != "exc" for v in I.rv(t, d)}
                tests[sid] = (fwd, vals)
    if not R.obl(bool(tests), "cycles", con, "no child is tested for leading back to the file", f.qual):
        return
    heads = {}
    for s in tests:
        for h in G.loops:
            item = G.loops[h][0]
            if any(x.k == "elem" and has(x.a[0], lambda y: y.k == "slice") for x in I.elems(h, G.iterable(h))):
                continue
            if s in A.F.reach(item, stop_node=lambda x: x == h):
                if not A.F.reach(item, stop_node=lambda x: x == s or x == h) & (muts | set(G.exits)):
                    if not any(t == h for x in A.F.reach(item, stop_node=lambda x: x == s or x == h) for t, l in I.succ[x]):
                        heads.setdefault(h, set()).add(s)
    hit = A.F.reach(G.start, stop_edge=off, stop_node=lambda s: s in heads) & muts
    R.obl(bool(heads) and not hit, "cycles", con, "edges are replaced without testing every child", A.loc(min(hit or muts)))
    forbidden = {}
    A2, cid2, rets, calls = relations(R, nested)
    W = walks(R, nested)
    dirs = {}
    for x, (q, fn, args) in calls.items():
        key = (q, tuple(sorted(cval(y) for v in args for y in v if isstr(y))))
        if key in W and len(W[key][0]) == 1:
            dirs[x] = next(iter(W[key][0]))
            R.obl(True in W[key][1], "cycles", "%s: %s" % (nested.name, dirs[x]), "only the nearest %s are looked at" % dirs[x], nested.qual)
    start2 = A2.start(cid2)
    if set(dirs.values()) == set(EDGES):
        for fwd in (True, False):
            need = "parents" if fwd else "children"
            asg = {x: const(True) for x, d in dirs.items() if d == need}
            reach = A2.F.reach(start2, stop_edge=excluded(A2, asg))
            forbidden[fwd] = {t for t, ss in rets.items() if ss & reach}
    else:
        forbidden = {True: {const("cyclic"), const("child")}, False: {const("cyclic"), const("parent")}}
    for s, (fwd, vals) in tests.items():
        if not any(s in x for x in heads.values()):
            continue
        for v in forbidden[fwd]:
            asg = {x: v for x in vals}
            hit = leads(A, [s], muts, A.any(excluded(A, asg), off))
            R.obl(not hit, "cycles", con, "a child found to be %s is accepted" % show(v), A.loc(s))
