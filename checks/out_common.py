"""What scanning and building each kind of file can report: handlers and manipulators, driven in every order."""
from engine.q import *
from engine.project import synth

HP = B + "handlers."


def manipulators(p):
    """Classes with both scan_result and build_result."""
    out = []
    for c in p.classes.values():
        names = set()
        for k in p.mro(c):
            names |= set(k.methods)
        if {"scan_result", "build_result"} <= names and "__init__" in names:
            out.append(c)
    return sorted(out, key=lambda c: c.qual)


def handlers(p):
    out = {}
    for q, f in p.funcs.items():
        if q.startswith(HP) and f.cls is None and f.parent is None and f.name in ("scan_file", "build_file"):
            out.setdefault(f.module.name, set()).add(f.name)
    return sorted(m for m, ns in out.items() if len(ns) == 2)


def drive_manip(p, c, mode, opaque=OPAQUE, inline=std_inline, linked=False):
    ini = p.find_method(c, "__init__")
    ps = ini.params()[1:]
    args = []
    i = 0
    for x in ps:
        if x == "mode" or (i == 2 and "mode" not in ps):
            args.append(repr(mode))
        elif i == 0:
            args.append("context")
        elif i == 1:
            args.append("relpath")
        else:
            args.append("extra_" + x)
        i += 1
    meths = {}
    for k in reversed(p.mro(c)):
        meths.update(k.methods)
    called = set()
    import ast
    for n, m in meths.items():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                called.add(x.attr)
    body = []
    order = [n for n in ("start_mark", "continue_mark") if n in meths]
    for n in order:
        body.append("        if any_():\n            m.%s(node)\n" % n)
    if linked and order == ["start_mark", "continue_mark"]:
        body = ["        if m.start_mark(node):\n            m.continue_mark(node)\n            while any_():\n                m.continue_mark(node)\n"]
    name = "vpdrive_%s_%s" % (c.qual.replace(".", "_"), mode + ("_linked" if linked else ""))
    extra = "".join(", " + a for a in args if a.startswith("extra_"))
    bc = find_cls(p, "BuildContext")
    src = "from %s import %s as M_\n%s\ndef drive(context%s, relpath, node%s):\n    m = M_(%s)\n    while any_():\n%s    return m.%s_result()\n" % (
        c.module.name, c.name, "from %s import %s" % (bc.module.name, bc.name) if bc else "", ": BuildContext" if bc else "", extra, ", ".join(args), "".join(body) or "        pass\n", mode)
    synth(p, name, src)
    q = name + ".drive"
    A = Ana(p, [(q, {}, None)], opaque=opaque, inline=inline, frozen=("node",))
    return A, q


def returned(A, q):
    I = A.I
    cid = A.eid[q]
    rs = set()
    for s, (c, pc, part) in enumerate(I.states):
        if c == cid and I.node(s).op == "ret":
            rs |= I.rv(s, I.node(s).a["src"])
    return rs


def reported(A, q, names=("dependencies", "children", "produces", "produced", "reused")):
    out = {}
    for o in returned(A, q):
        for f in names:
            for v in A.I.getattr_(None, o, f):
                out.setdefault(f, set()).update(A.I.elems(None, frozenset([v])))
    return out


def drive_handler(p, mod, fn, manips, opaque=OPAQUE):
    """The scan or build step of one kind of file, the manipulators being analysed on their own."""
    ms = set()
    for c in manips:
        for k in p.mro(c):
            ms |= {m.qual for m in k.methods.values()}
    others = tuple(q for q in handler_steps(p) if False)
    q = mod + "." + fn
    A = Ana(p, [(q, {p.func(q).params()[0]: frozenset([mk("sym", "context")]), p.func(q).params()[1]: frozenset([mk("sym", "relpath")])} if False else {}, None)],
            opaque=opaque + others, inline=lambda f: std_inline(f) and f.qual not in ms)
    ren = dict(zip((mk("sym", x) for x in p.func(q).params()), (mk("sym", "context"), mk("sym", "relpath"))))
    return A, q, ren


def handler_steps(p):
    return [m + "." + n for m in handlers(p) for n in ("scan_file", "build_file")]


# ---- forms: which parts of a path are fixed, which vary

VOL = ("json.load", "json.loads")
SIDE = {"dependencies": "D", "children": "D", "produces": "P", "produced": "P", "reused": "P"}
STEPS = ("scan_file", "build_file", "scan_result", "build_result")


def leaf(t, rel):
    r = "r" if has(t, lambda x: x is rel) else ""
    if t.k == "any":
        return "V"
    if t.k in ("count", "bin") or t.k == "call" and t.a[0] in ("int", "str", "len", "round"):
        return "N"
    if has(t, lambda x: x.k == "any" or x.k == "call" and x.a[0] in VOL and not ofsource(x, rel)):
        return "V"
    return "S" + r


def ofsource(t, rel):
    """Read from the source file itself."""
    fs = [x for x in subterms(t) if x.k == "file"]
    return bool(fs) and all(parts(x.a[0])[-1] is rel for x in fs)


def owner(t):
    """Whose report ``t`` is, when it is what another step reports: (who, about which file, side)."""
    if t.k == "elem" and t.a[0].k == "attr" and t.a[0].a[1] in SIDE:
        c = t.a[0].a[0]
        if c.k == "call" and c.a[0].split(".")[-1] in STEPS and len(c.a) > 1 and isinstance(c.a[1], T):
            w = c.a[1]
            who = w.a[0] if w.k == "obj" else w.a[0] if w.k in ("sym", "mod") else w
            if w.k == "sym" and c.a[0].split(".")[-1] in ("scan_file", "build_file") and len(c.a) == 3:
                return c.a[0].rsplit(".", 1)[0], c.a[2], SIDE[t.a[0].a[1]]
            return who, (c.a[3] if len(c.a) > 3 else None), SIDE[t.a[0].a[1]]
    return None


def form(t, rel):
    o = owner(t)
    if o is not None:
        who, arg, side = o
        return (("m", (who, form(arg, rel) if isinstance(arg, T) else None, side)),)
    out = []
    for x in parts(t):
        if isstr(x):
            out.append(("c", cval(x)))
        else:
            out.append(("l", leaf(x, rel)))
    return tuple(out)


def showform(f):
    if f and f[0][0] == "m":
        who, arg, side = f[0][1]
        return "<%s of %s%s>" % ({"D": "dependencies", "P": "outputs"}[side], who.split(".")[-1] if isinstance(who, str) else show(who), " for " + showform(arg) if arg else "")
    return "".join(v if k == "c" else {"S": "*", "Sr": "<source path>", "N": "<n>", "V": "…"}[v] for k, v in f)


def segs(f):
    s = []
    for k, v in f:
        if k == "m":
            s.append(("m", v[0], segs(v[1]) if v[1] else None, v[2]))
        elif k == "c":
            s.extend(v)
        else:
            s.append(("l", v))
    return tuple(s)


def accepts(scan, build):
    """Every path of the build form may be a path of the scan form."""
    a, b = segs(scan), segs(build)
    if a and b and a[0][0] == "m" == b[0][0]:
        x, y = a[0], b[0]
        return x[1] == y[1] and x[3] == y[3] and ((x[2] is None) == (y[2] is None)) and (x[2] is None or accepts(scan[0][1][1], build[0][1][1]))
    if a and a[0][0] == "m" or b and b[0][0] == "m":
        return False
    memo = {}
    def go(i, j):
        if (i, j) in memo:
            return memo[(i, j)]
        memo[(i, j)] = False
        if i == len(a) and j == len(b):
            r = True
        else:
            r = False
            x = a[i] if i < len(a) else None
            y = b[j] if j < len(b) else None
            if x is not None and x == y:
                r = go(i + 1, j + 1)
            if not r and isinstance(y, tuple) and y[1] == "V":
                r = go(i, j + 1) or (x is not None and go(i + 1, j))
            if not r and isinstance(x, tuple) and x[1] == "V":
                r = go(i + 1, j) or (y is not None and go(i, j + 1))
            if not r and isinstance(x, tuple) and isinstance(y, tuple) and {x[1], y[1]} == {"N", "S"}:
                r = go(i + 1, j + 1)
            if not r and isinstance(x, tuple) and x[1] in ("N", "S") and isinstance(y, str) and y != "/":
                # a varying name stands for any name
                k = j
                while not r and k < len(b) and b[k] != "/" and isinstance(b[k], str):
                    k += 1
                    r = go(i + 1, k)
        memo[(i, j)] = r
        return r
    return go(0, 0)


# ---- where reported names are recorded, and under which conditions

ADD = ("add", "append", "extend", "update", "appendleft", "insert", "union")


def held_by(A, q):
    """Containers: those an object holds, by field; those the step itself creates, by nothing."""
    I = A.I
    held = {}
    for k, vs in I.V.items():
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and isinstance(k[0], T) and k[0].k == "obj" and k[1] not in ("*",):
            for v in vs:
                if v.k in ("set", "list"):
                    held.setdefault(v, set()).add(SIDE.get(k[1]))
    return held


def sinks(A, q, local=False):
    """{(side, name): call states recording it in a container which is, or becomes, the report}."""
    I = A.I
    if local:
        sig = I.ctxs[A.eid[q]].sig
        rep = reported(A, q)
        byside = {}
        for f, vs in rep.items():
            for v in vs:
                byside.setdefault(v, set()).add(SIDE[f])
        class H(dict):
            def get(self, c):
                return [] if c.k not in ("list", "set") or c.a[0] != sig else ["?"]
        held = H()
    else:
        held = held_by(A, q)
        byside = None
    out = {}
    def rec(sid, c, vals):
        ns = held.get(c)
        for v in vals if ns else ():
            for n in (byside.get(v, ()) if byside is not None else ns):
                if n:
                    out.setdefault((n, v), set()).add(sid)
    for sid, f, args, kws, e in A.F.calls():
        if f.k == "meth" and f.a[1] in ADD and f.a[0].k in ("list", "set") and args:
            arg = args[-1]
            rec(sid, f.a[0], I.elems(sid, arg) if f.a[1] in ("extend", "update", "union") else arg)
    for sid in A.F.node_states("augop"):
        n = I.node(sid)
        for l in I.rv(sid, n.a["l"]):
            if l.k in ("list", "set"):
                rec(sid, l, I.elems(sid, I.rv(sid, n.a["r"])))
    return out


def recorded(A, q, rel, local=False, deciding=False):
    """{(side, form): [conditions under which it is recorded, one set per place]}, and an example place of each."""
    M = must(A, A.start(A.eid[q]), A.F.exits() if deciding else None, True)
    out, at = {}, {}
    for (n, v), ss in sinks(A, q, local).items():
        if v is NONE:
            continue
        f = (n, form(v, rel))
        for s in ss:
            if s in M:
                at.setdefault(f, s)
                out.setdefault(f, set()).add(frozenset((norm(x), v) for x, v in M[s]))
    return out, at


def at_return(A, q, rel, deciding=False):
    """{(side, form): [conditions under which the step returns it]}."""
    I = A.I
    cid = A.eid[q]
    M = must(A, A.start(cid), A.F.exits() if deciding else None, True)
    out = {}
    for s, (c, pc, part) in enumerate(I.states):
        if c == cid and I.node(s).op == "ret" and s in M:
            m = frozenset((norm(x), v) for x, v in M[s])
            for o in I.rv(s, I.node(s).a["src"]):
                for f, side in SIDE.items():
                    for v in I.getattr_(None, o, f):
                        for t in I.elems(None, frozenset([v])):
                            if t is not NONE:
                                out.setdefault((side, form(t, rel)), set()).add(m)
    return out


def held_fields(A, q):
    """{container: fields of the reported objects (or of the step itself) it becomes}."""
    I = A.I
    held = {}
    for k, vs in I.V.items():
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], T) and k[0].k == "obj" and k[1] in SIDE:
            for v in vs:
                if v.k in ("set", "list"):
                    held.setdefault(v, set()).add(k[1])
    # what a reported list was copied from
    cp = []
    for sid, f, args, kws, e in A.F.calls():
        if f.k in ("ext", "builtin") and f.a[0] in ("list", "set", "sorted", "frozenset", "tuple") and args and I.node(sid).dst is not None:
            outs = {x for t, l in I.succ[sid] if l != "exc" for x in I.rv(t, I.node(sid).dst) if x.k in ("list", "set")}
            cp += [(o, a) for o in outs for a in args[0] if a.k in ("list", "set")]
    for sid, cont, vals, src in additions(A):
        cp += [(cont, a) for a in src]
    for _ in range(4):
        for o, a in cp:
            if o in held:
                held.setdefault(a, set()).update(held[o])
    return held


def additions(A):
    """(state, container, names, containers the names were copied from) of every recording."""
    I = A.I
    cont = lambda vs: [x for x in vs if x.k in ("list", "set")]
    for sid, f, args, kws, e in A.F.calls():
        if f.k == "meth" and f.a[1] in ADD and f.a[0].k in ("list", "set") and args:
            if f.a[1] in ("extend", "update", "union"):
                yield sid, f.a[0], I.elems(sid, args[-1]), cont(args[-1])
            else:
                yield sid, f.a[0], args[-1], []
    for sid in A.F.node_states("augop"):
        n = I.node(sid)
        for l in I.rv(sid, n.a["l"]):
            if l.k in ("list", "set"):
                r = I.rv(sid, n.a["r"])
                yield sid, l, I.elems(sid, r), cont(r)
    for sid in range(len(I.states)):
        n = I.node(sid)
        if n.op == "build" and n.dst is not None:
            for t, l in I.succ[sid]:
                if l != "exc":
                    for o in I.rv(t, n.dst):
                        if o.k in ("list", "set"):
                            vs, src = set(), []
                            for v in n.a["parts"]:
                                if isinstance(v, tuple):
                                    x = I.rv(sid, v[1])
                                    vs |= I.elems(sid, x); src += cont(x)
                                else:
                                    vs |= I.rv(sid, v)
                            yield sid, o, vs, src
        elif n.op == "accadd":
            for o in I.rv(sid, n.a["obj"]):
                if o.k in ("list", "set"):
                    yield sid, o, I.rv(sid, n.a["src"]), []
