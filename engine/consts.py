"""Which states can be reached when local variables holding constants are followed along each path.

A depth-first exploration of pairs (state, known values); branches which a known value decides are not followed the
other way. Followed are True, False, None and strings, in the variables on which a branch of the same function
depends, as long as they are live. Values which are computed, read from containers or attributes, or come from
outside are unknown."""
import ast

COPIES = ("load", "store", "unop", "cmp", "nop")


def small(v):
    return v is None or isinstance(v, (bool, str))


def relevant(ir):
    """(registers and names branches depend on, {pc: the live ones})."""
    if getattr(ir, "_consts", None):
        return ir._consts
    defs = {}
    for pc, n in enumerate(ir.nodes):
        if n.dst is not None:
            defs.setdefault(n.dst, []).append(n)
    rel, st = set(), [n.a["c"] for n in ir.nodes if n.op == "branch"] + [n.a["src"] for n in ir.nodes if n.op == "ret"]
    for n in ir.nodes:
        if n.op == "call":
            st += list(n.a["args"]) + [r for _, r in n.a["kws"]]
    while st:
        r = st.pop()
        if r is None or not isinstance(r, str) and not isinstance(r, int) or r in rel:
            continue
        rel.add(r)
        for n in defs.get(r, ()):
            st += uses(n, False)
    for x in ast.walk(ir.func.node):
        if isinstance(x, ast.Nonlocal):
            rel -= set(x.names)
    live = [set() for _ in ir.nodes]
    work = set(range(len(ir.nodes)))
    pred = {}
    for pc, n in enumerate(ir.nodes):
        for t, _ in n.succ:
            pred.setdefault(t, []).append(pc)
    while work:
        pc = work.pop()
        n = ir.nodes[pc]
        out = set()
        for t, _ in n.succ:
            out |= live[t]
        new = (out - {n.dst}) | {r for r in uses(n, True) if r in rel}
        if new != live[pc]:
            live[pc] = new
            work.update(pred.get(pc, ()))
    ir._consts = (rel, live)
    return ir._consts


def uses(n, alls):
    if n.op == "load":
        return [n.a["name"]]
    if n.op == "store":
        return [n.a["src"]]
    if n.op == "unop":
        return [n.a.get("v") or n.a.get("x") or n.a.get("src")]
    if n.op == "cmp":
        return [n.a["l"], n.a["r"]]
    if not alls:
        return []
    if n.op == "branch":
        return [n.a["c"]]
    if n.op == "ret":
        return [n.a["src"]]
    if n.op == "call":
        return list(n.a["args"]) + [r for _, r in n.a["kws"]]
    return []


def explore(A, start, stop=None, limit=400000, envs=False):
    """{state} reachable from ``start`` without taking an edge for which stop(s, t, label). Starts may be pairs
    (state, known values), and such pairs are returned with ``envs``."""
    I = A.I
    seen, out = set(), set()
    st = [s if isinstance(s, tuple) else (s, frozenset()) for s in start]
    seen.update(st)
    def go(s, t, l, d):
        if stop is not None and stop(s, t, l):
            return
        c, pc = I.states[t][0], I.states[t][1]
        live = relevant(I.ctxs[c].ir)[1][pc]
        if any(k[0] == c and k[1] not in live for k in d):
            d = {k: v for k, v in d.items() if k[0] != c or k[1] in live}
        k = (t, frozenset(d.items()))
        if k not in seen:
            if len(seen) >= limit:
                raise RuntimeError("too many states")
            seen.add(k)
            st.append(k)
    while st:
        s, env = st.pop()
        out.add(s)
        d = dict(env)
        cid = I.states[s][0]
        n = I.node(s)
        get = lambda r: d.get((cid, r))
        if n.op == "branch":
            v = get(n.a["c"])
            for t, l in I.succ[s]:
                if v is not None and l in ("T", "F") and bool(v[0]) != (l == "T"):
                    continue
                go(s, t, l, d)
            continue
        v = None
        if n.op == "const":
            if small(n.a["v"]):
                v = (n.a["v"],)
        elif n.op == "load":
            v = get(n.a["name"])
        elif n.op == "store":
            v = get(n.a["src"])
        elif n.op == "unop" and n.a.get("op") in ("Not", "not"):
            x = get(n.a.get("v") or n.a.get("x") or n.a.get("src"))
            v = None if x is None else (not x[0],)
        elif n.op == "cmp" and n.a["op"] in ("Is", "IsNot", "Eq", "NotEq"):
            x, y = get(n.a["l"]), get(n.a["r"])
            if x is not None and y is not None:
                v = ((type(x[0]) is type(y[0]) and x[0] == y[0]) == (n.a["op"] in ("Is", "Eq")),)
        if n.op == "ret":
            v = get(n.a["src"])
            cs = I.ctxs[cid].csid
            e = {k: x for k, x in d.items() if k[0] != cid}
            for t, l in I.succ[s]:
                e2 = dict(e)
                if l == "ret" and cs is not None:
                    k = (I.states[cs][0], I.node(cs).dst)
                    e2.pop(k, None)
                    if v is not None:
                        e2[k] = v
                go(s, t, l, e2)
            continue
        rel = relevant(I.ctxs[cid].ir)[0]
        for t, l in I.succ[s]:
            if l == "call":
                e = dict(d)
                c = I.states[t][0]
                for k in [k for k in e if k[0] == c]:
                    del e[k]
                e.update(args(A, s, n, c, d, cid))
                go(s, t, l, e)
                continue
            e = dict(d)
            if n.dst is not None:
                e.pop((cid, n.dst), None)
                if v is not None and n.dst in rel:
                    e[(cid, n.dst)] = v
            if l == "excret":
                e = {k: x for k, x in e.items() if k[0] != cid}
            go(s, t, l, e)
    return seen if envs else out


def args(A, s, n, c, d, cid):
    fn = A.I.ctxs[c].func
    if n.op != "call" or any(f.k not in ("func",) for f in A.I.rv(s, n.a["f"])):
        return {}
    call = n.a.get("node")
    if call is None or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return {}
    res = {}
    for p, r in list(zip(fn.params(), n.a["args"])) + list(n.a["kws"]):
        if (cid, r) in d and p in relevant(A.I.ctxs[c].ir)[0]:
            res[(c, p)] = d[(cid, r)]
    return res
