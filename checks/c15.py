"""C15: what is written between builds is read back field for field."""
import json
from engine.q import *
from engine.loops import Loops
from .graph_common import graph_class, Graph, EDGES, GRAPH

TECHNIQUE = "schema inference from both sides: the JSON shape of everything dumped (data-flow, dataclass declarations, literal fragments) against the JSON path each field of the loaded objects is taken from"


def check(R):
    R.rule("restored", "every field of a stored object is read back from the very place it was written to")
    R.rule("required", "nothing is required when reading which is not written")
    R.rule("format", "the written text is one JSON document")
    stored, loaded, needs = {}, [], []
    n = 0
    for q in entries(R.p):
        A = Ana(R.p, [(q, {}, None)])
        R.uses(A)
        n += 1
        collect(R, A, stored, loaded, needs, None)
    g = graph_class(R.p)
    for name in ("store", "load"):
        f = g.methods.get(name)
        if f is None:
            continue
        A = Ana(R.p, [(f.qual, {}, None)])
        R.uses(A)
        n += 1
        if name == "store":
            fragments(R, A, A.eid[f.qual], stored)
        else:
            collect(R, A, stored, loaded, needs, "graph")
            edges(R, f, stored)
        whole(R, A, name)
    R.need("operations which store or load", n, 4)
    compare(R, stored, loaded, needs)


def entries(p):
    out = []
    for name in ("cold_incremental_rebuild.check_external_files", "html.manips.images.scanner.scan_command", "html.manips.images.exporter.export_command"):
        if B + name in p.funcs:
            out.append(B + name)
    return out


# ---- json paths

def jroot(t):
    return t.k == "call" and t.a[0] in ("json.load", "json.loads") and len(t.a) > 1


def jpath(t, isroot=jroot):
    """(root, path) of a value taken out of a loaded document."""
    if isroot(t):
        return t, ()
    if t.k == "item" and isinstance(t.a[1], T) and t.a[1].k in ("const", "enum"):
        r = jpath(t.a[0], isroot)
        return r and (r[0], r[1] + (t.a[1].a[-1],))
    if t.k in ("val", "elem", "item"):
        r = jpath(t.a[0], isroot)
        return r and (r[0], r[1] + ("*",))
    if t.k == "key":
        r = jpath(t.a[0], isroot)
        return r and (r[0], r[1] + ("#",))
    return None


def filekey(t):
    """What names the file a document lives in: its base name."""
    for x in subterms(t):
        if x.k == "file":
            ps = parts(x.a[0])
            if ps and isstr(ps[-1]):
                return cval(ps[-1]).split("/")[-1]
            if ps:
                return show(ps[-1])
    return None


# ---- stored

def put(stored, key, path, term, cls=None):
    stored.setdefault(key, {}).setdefault(path, set()).add((norm(term), cls))


def declared(p, A, x, cls, path, stored, key, seen=()):
    """The shape of dataclasses.asdict of an object of a class."""
    if cls.qual in seen:
        return
    for f in p.all_fields(cls):
        ann = p.field_annotation(cls, f)
        shape(p, A, mk("attr", x, f), ann, path + (f,), stored, key, seen + (cls.qual,))


def shape(p, A, x, ann, path, stored, key, seen):
    if ann is not None:
        c = p.annotation_class(*ann)
        if c is not None and c.is_dataclass:
            put(stored, key, path, x, c.qual)
            return declared(p, A, x, c, path, stored, key, seen)
        e = p.elem_annotation(*ann)
        if e is not None:
            put(stored, key, path, x, "map" if e[0] is not None else "list")
            if e[0] is not None:
                put(stored, key, path + ("#",), mk("key", x))
                return shape(p, A, mk("val", x), (e[1], ann[1]), path + ("*",), stored, key, seen)
            return shape(p, A, mk("elem", x), (e[1], ann[1]), path + ("*",), stored, key, seen)
    put(stored, key, path, x)


def value(p, A, sid, t, path, stored, key, d=0):
    """The shape of a dumped value."""
    I = A.I
    if d > 8:
        return
    if t.k == "call" and t.a[0] == "dataclasses.asdict" and len(t.a) > 1:
        cls = I.typeof(t.a[1])
        if cls is not None:
            put(stored, key, path, t.a[1], cls.qual)
            declared(p, A, t.a[1], cls, path, stored, key)
        return
    if t.k == "dict":
        ks = I.get((t, "*k"), sid)
        lit = [k for k in ks if k.k in ("const", "enum")]
        for k in lit:
            for v in I.get((t, "[" + repr(k.a[-1])), sid):
                value(p, A, sid, v, path + (k.a[-1],), stored, key, d + 1)
        dyn = [k for k in ks if k not in lit]
        spread = [k for k in dyn if k.k == "key" and k.a[0].k == "call" and k.a[0].a[0] == "dataclasses.asdict"]
        for k in spread:
            value(p, A, sid, k.a[0], path, stored, key, d + 1)
        dyn = [k for k in dyn if k not in spread]
        for k in dyn:
            put(stored, key, path + ("#",), k)
        if dyn:
            for v in I.get((t, "~"), sid):
                value(p, A, sid, v, path + ("*",), stored, key, d + 1)
        put(stored, key, path, t, "map")
        return
    if t.k in ("list", "set"):
        put(stored, key, path, t, "list")
        for v in I.elems(sid, frozenset([t])):
            value(p, A, sid, v, path + ("*",), stored, key, d + 1)
        return
    put(stored, key, path, t)


def collect(R, A, stored, loaded, needs, only):
    I = A.I
    for sid, f, args, kws, e in A.F.calls():
        if A.F.name(f) == "json.dump" and len(args) >= 2 and only is None:
            for fp in args[1]:
                key = filekey(fp)
                if key:
                    for v in args[0]:
                        value(R.p, A, sid, v, (), stored, key)
    # changes of the dumped dictionaries
    isas = lambda t: t.k == "call" and t.a[0] == "dataclasses.asdict"
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op in ("setsub", "delsub"):
            for o in I.rv(s, n.a["obj"]):
                r = jpath(o, isas)
                if r is None:
                    continue
                for k in I.rv(s, n.a["idx"]):
                    at = r[1] + ((k.a[-1],) if k.k in ("const", "enum") else ("*",))
                    con = "stored %s" % ".".join(str(x) for x in at)
                    if n.op == "delsub":
                        R.bad("restored", con, "the field is removed before it is written", A.loc(s))
                        continue
                    for v in I.rv(s, n.a["src"]):
                        w = jpath(unwrap(v), isas)
                        R.obl(w is not None and w[1] == at, "restored", con, "the field is written as %s" % show(v)[:100], A.loc(s))
    for sid, f, args, kws, e in A.F.calls():
        if f.k in ("meth", "attr") and f.a[1] in ("pop", "popitem", "clear", "update") and isinstance(f.a[0], T):
            r = jpath(f.a[0], isas)
            if r is not None:
                R.bad("restored", "stored %s" % ".".join(str(x) for x in r[1]), "the dictionary is changed by %s before it is written" % f.a[1], A.loc(sid))
    for k, vs in list(I.V.items()):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], T) and k[0].k == "obj":
            cls = R.p.classes.get(k[0].a[0])
            if cls is not None and cls.is_dataclass and k[1] in R.p.all_fields(cls):
                loaded.append((A, only, k[0], cls, k[1], vs))
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op == "sub":
            for o in I.rv(s, n.a["obj"]):
                r = jpath(o)
                if r is not None:
                    for x in I.rv(s, n.a["idx"]):
                        if x.k in ("const", "enum"):
                            needs.append((only or filekey(r[0]), r[1] + (x.a[-1],), A.loc(s)))


def unwrap(t):
    while t.k == "call" and t.a[0] in (".replace", "str", "float") and len(t.a) > 1 and isinstance(t.a[1], T):
        t = t.a[1]
    return t


# ---- text written piece by piece

def fragments(R, A, cid, stored):
    I = A.I
    ev = {}
    for sid, f, args, kws, e in A.F.calls():
        nm = A.F.name(f)
        if nm == "print" and "file" in kws:
            end = kws.get("end", frozenset([const("\n")]))
            ev[sid] = ("s", [x for x in (args[0] if args else ())], next(iter(end)))
        elif nm == "json.dump" and len(args) >= 2:
            ev[sid] = ("d", list(args[0]), None)
        elif nm == ".write" and args:
            ev[sid] = ("s", list(args[0]), const(""))
    if not ev:
        return
    docs = []
    st = [(A.start(cid)[0], (), frozenset())]
    exits = set(A.exits(cid))
    n = 0
    while st and n < 20000 and len(docs) < 64:
        s, evs, seen = st.pop()
        n += 1
        if s in ev:
            evs = evs + (s,)
        if s in exits:
            docs.append(evs)
            continue
        for t, l in I.succ[s]:
            if l in ("exc", "excret") or (s, t, l) in seen:
                continue
            st.append((t, evs, seen | {(s, t, l)}))
    good = None
    full = [d for d in docs if d]
    best = sorted(set(full), key=lambda d: (-len(d), d))
    for d in best:
        txt, vals = "", []
        ok = True
        for s in d:
            k, vs, end = ev[s]
            if k == "s":
                if len(vs) != 1 or not (isstr(vs[0]) or vs[0].k == "cat") or not isstr(end):
                    ok = False
                    break
                for x in parts(vs[0]):
                    if isstr(x):
                        txt += cval(x)
                    else:
                        vals.append((s, [x]))
                        txt += json.dumps("@%d" % (len(vals) - 1))
                txt += cval(end)
            else:
                vals.append((s, vs))
                txt += json.dumps("@%d" % (len(vals) - 1))
        if not ok:
            continue
        # a separator before the first entry depends on a counter
        for cand in (txt, txt.replace("{,", "{", 1).replace("[,", "[", 1)):
            try:
                doc = json.loads(cand)
            except ValueError:
                continue
            good = (doc, vals)
            break
        if good and len(good[1]) >= 2:
            break
    if all(k == "s" for k, _, _ in ev.values()) and good is None:
        return
    if not R.obl(good is not None and bool(good[1]), "format", "graph", "the pieces written do not form a JSON document", A.loc(min(ev))):
        return
    doc, vals = good
    def ref(x):
        return vals[int(x[1:])] if isinstance(x, str) and x.startswith("@") else None
    def go(x, path):
        r = ref(x)
        if r is not None:
            for v in r[1]:
                value(R.p, A, r[0], v, path, stored, "graph")
            return
        if isinstance(x, dict):
            put(stored, "graph", path, mk("sym", "document"), "map")
            for k, v in x.items():
                kr = ref(k)
                if kr is not None:
                    for t in kr[1]:
                        put(stored, "graph", path + ("#",), t)
                    go(v, path + ("*",))
                else:
                    go(v, path + (k,))
        elif isinstance(x, list):
            put(stored, "graph", path, mk("sym", "document"), "list")
            for v in x:
                go(v, path + ("*",))
    go(doc, ())


def edges(R, f, stored):
    """Edges of loaded nodes come from the lists in which the same edges were written."""
    G = Graph(R.p, f)
    S = stored.get("graph", {})
    for e in G.evs:
        if e.op not in ("add", "extend", "assign"):
            continue
        for h in G.loops:
            if e.sid not in G.body(h):
                continue
            for t in G.iterable(h):
                r = jpath(t)
                if r is None or r[1] == ():
                    continue
                ts = {x for x, c in S.get(r[1] + ("*",), ())}
                ok = bool(ts) and all(x.k == "attr" and x.a[1] == "path" and x.a[0].k == "elem" and x.a[0].a[0].k == "attr" and x.a[0].a[0].a[1] == e.f for x in ts)
                if r[1][-1] != "*":
                    R.obl(ok, "restored", "graph: %s" % e.f, "the %s are read from where %s was written" % (e.f, ", ".join(show(x) for x in ts) or "nothing"), G.A.loc(e.sid))


def whole(R, A, name):
    """Every file of the graph is stored and restored with all its fields, and every entry of its lists."""
    I = A.I
    L = Loops(A)
    groups = {}
    def put(s, key, relief=frozenset(), skip=0):
        lp = L.of(s)[skip:]
        if lp:
            g = groups.setdefault((lp[0], key), [set(), set()])
            g[0].add(s); g[1].update(relief)
    def ours(s):
        it = I.rv(s, I.node(s).a["it"])
        vals = set(it)
        for t in I.elems(s, it):
            vals |= {x for y in t.a[0] for x in y} if t.k == "tup" else {t}
        return any(any(jroot(x) or x.k == "attr" and x.a[1] in EDGES + ("nodes",) for x in subterms(t)) for t in vals)
    for sid, f, args, kws, e in A.F.calls():
        nm = A.F.name(f)
        if f.k in ("meth", "attr") and f.a[1] in ("append", "add", "insert", "extend"):
            put(sid, ("put",))
        vals = frozenset(x for v in args[:1] for x in v)
        if (nm == "print" or nm in ("json.dump", ".write")) and not all(t.k == "const" for t in vals):
            put(sid, ("out", frozenset(attrs(t) for t in vals)))
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op == "accadd":
            put(s, ("put",))
        elif n.op == "setattr":
            put(s, ("field", n.a["name"]))
        elif n.op == "next" and ours(s):
            it = I.rv(s, n.a["it"])
            put(s, ("each", frozenset(attrs(t) for t in it)), it, 1)
    for s in A.F.node_states("next"):
        it = I.rv(s, I.node(s).a["it"])
        real = [t for t in it if jpath(t) is not None or t.k == "attr" and t.a[1] in EDGES]
        rest = [t for t in it if t not in real and (t.k == "const" or t.k in ("tup", "list") and not I.elems(s, frozenset([t])))]
        if real and rest:
            none = A.holds(lambda t, v: not v and any(t is x or t is NONE or t.k == "cmp" and t.a[0] == "In" and x.k == "item" and t.a[1] is x.a[1] for x in real) or v and t.k == "cmp" and t.a[0] == "Eq" and any(x in t.a for x in real))
            outer = L.of(s)[1:]
            start = [t for h in (L.states(outer[0]) if outer else ()) for t, l in I.succ[h] if l == "item"]
            got = A.F.reach(start, none)
            at = {x for x in got if I.node(x).op in ("const", "build") and I.node(x).dst is not None and L.of(x) == outer and s in A.F.reach([x], stop_node=lambda y: I.node(y).op == "next" and y != s)
                  and any(I.rv(t, I.node(x).dst) and I.rv(t, I.node(x).dst) <= frozenset(rest) for t, l in I.succ[x])}
            R.obl(not at, "restored", "graph: %s, %s" % (name, ",".join(sorted(attrs(t) for t in real))), "nothing may be taken instead of the entries", A.loc(s))
    for (lp, key), (at, relief) in groups.items():
        heads = [h for h in L.states(lp) if I.node(h).op == "next"]
        if not heads or not any(ours(h) for h in heads):
            continue
        first = [t for h in heads for t, l in I.succ[h] if l == "item"]
        first = [t for t in first if t not in at]
        free = A.holds(lambda t, v: not v and (t in relief or key[0] == "put" and (jpath(t) or t.k == "attr" and t.a[1] in EDGES)) or v and t.k == "cmp" and t.a[0] == "In" and key[0] == "put")
        miss = A.F.reach(first, A.any(free, lambda a, b, l: l == "exc"), lambda s: s in at) & set(heads)
        R.obl(not miss, "restored", "graph: %s, %s" % (name, " ".join(str(x) if isinstance(x, str) else ",".join(sorted(x)) for x in key)), "an entry may be passed over", A.loc(min(at)), A.F.path(min(miss)) if miss else ())


def attrs(t):
    return ".".join(sorted({x.a[1] for x in subterms(t) if x.k == "attr"} | {str(x.a[1].a[-1]) for x in subterms(t) if x.k == "item" and isinstance(x.a[1], T) and x.a[1].k == "const"}))


# ---- both sides

def compare(R, stored, loaded, needs):
    R.need("stored documents", len(stored), 3)
    objs = {}
    for A, only, o, cls, f, vs in loaded:
        for t in vs:
            r = jpath(unwrap2(t))
            if r is not None:
                key = only or filekey(r[0])
                if key in stored:
                    if r[1] and r[1][-1] == "*" and r[1] not in stored[key] and any(c == cls.qual for x, c in stored[key].get(r[1][:-1], ())):
                        # every entry of the record is passed on by name
                        r = (r[0], r[1][:-1] + (f,))
                        t = mk("item", unwrap2(t).a[0], const(f))
                    objs.setdefault((id(A), o), [A, o, cls, key, {}])[4].setdefault(f, set()).add((r[1], t))
    # a record made of other records only
    for A, only, o, cls, f, vs in loaded:
        if (id(A), o) not in objs:
            ks = {objs[(id(A), t)][3] for t in deep(A, vs) if t.k == "obj" and (id(A), t) in objs}
            if len(ks) == 1:
                objs[(id(A), o)] = [A, o, cls, ks.pop(), {}]
    kinds = set()
    base = {}
    for (a, o), (A, o_, cls, key, fs) in objs.items():
        S = stored[key]
        bases = {}
        con = "%s: %s" % (key, cls.name)
        for f, ps in fs.items():
            for p, t in ps:
                ts = S.get(p)
                if not R.obl(bool(ts), "restored", con, "%s is read from %s, which is not written" % (f, ".".join(map(str, p))), cls.qual):
                    continue
                x = unwrap2(t)
                R.obl(same_value(t), "restored", con, "%s is read as %s" % (f, show(t)[:100]), cls.qual)
                for y, c in ts:
                    y2 = stored_leaf(y)
                    if (p and p[-1] == "#" or key == "graph") and f in ("path", "relpath"):
                        bases.setdefault(f, set()).add(None)
                        if key == "graph" and y2 is not None and y2.a[1] == f:
                            continue
                        if p and p[-1] == "#":
                            continue
                    if R.obl(y2 is not None and y2.a[1] == f, "restored", con, "%s is read from where %s was written" % (f, show(y)[-60:]), cls.qual):
                        bases.setdefault(f, set()).add(y2.a[0])
        allb = [b - {None} for b in bases.values() if b - {None}]
        if allb:
            common = set.intersection(*allb)
            R.obl(bool(common), "restored", con, "its fields are read from different records", cls.qual)
            base[(a, o)] = common
        kinds.add((key, cls.qual))
        missing = []
        for f in R.p.all_fields(cls):
            ann = R.p.field_annotation(cls, f)
            c = R.p.annotation_class(*ann) if ann is not None else None
            e = R.p.elem_annotation(*ann) if ann is not None else None
            vs = A.V(o, f)
            if f in fs or (key == "graph" and f in EDGES):
                continue
            if c is not None and c.is_dataclass:
                subs = [t for t in vs if t.k == "obj"]
                R.obl(bool(subs) and all((a, t) in objs and objs[(a, t)][3] == key for t in subs), "restored", con, "%s is not restored from the document" % f, cls.qual)
                continue
            if e is not None and any(t.k in ("dict", "list") for t in vs):
                inner = deep(A, vs)
                R.obl(any((a, t) in objs for t in inner if t.k == "obj") or not leafclass(R.p, ann), "restored", con, "%s is not restored from the document" % f, cls.qual)
                continue
            if ANY in vs or any(t.k == "any" for t in vs) or any(x.k in ("star", "kwargs") for t in vs for x in subterms(t)):
                continue
            if key == "graph" and replaced(A, o, {o2 for (a2, o2), x in objs.items() if a2 == a and x[2] is cls and f in x[4] and o2 is not o}):
                continue
            R.bad("restored", con, "%s is not read back" % f, cls.qual)
    # nested records belong to the record they are read into
    for (a, o), (A, o_, cls, key, fs) in objs.items():
        for f in R.p.all_fields(cls):
            if key == "graph" and f in EDGES:
                continue
            for t in A.V(o, f):
                if t.k == "obj" and (a, t) in base and (a, o) in base:
                    exp = {mk("attr", b, f) for b in base[(a, o)]}
                    R.obl(bool(exp & base[(a, t)]), "restored", "%s: %s" % (key, cls.name), "%s is read from another record" % f, cls.qual)
                elif t.k in ("dict", "list"):
                    for x in deep(A, [t]):
                        if x.k == "obj" and (a, x) in base and (a, o) in base:
                            exp = {mk("attr", b, f) for b in base[(a, o)]}
                            R.obl(any(has(y, lambda z: z in exp) for y in base[(a, x)]), "restored", "%s: %s" % (key, cls.name), "%s is read from another record" % f, cls.qual)
                    if t.k == "dict":
                        for k in A.V(t, "*k"):
                            r = jpath(unwrap2(k))
                            if r is not None and (a, o) in base:
                                ys = {y for y, c in stored[key].get(r[1], ())}
                                exp = {mk("attr", b, f) for b in base[(a, o)]}
                                R.obl(any(has(y, lambda z: z in exp) for y in ys) or not ys, "restored", "%s: %s" % (key, cls.name), "%s is keyed by something else" % f, cls.qual)
    R.need("kinds of records loaded", len(kinds), 3)
    for key, p, loc in needs:
        if key in stored:
            S = stored[key]
            R.obl(p in S or any(q[:len(p)] == p for q in S), "required", "%s: %s" % (key, ".".join(map(str, p))), "this is required but not written", loc)


def made(A, o):
    I = A.I
    return {sid for sid, f, args, kws, e in A.F.calls() if f.k == "class" and I.node(sid).dst is not None and any(o in I.rv(t, I.node(sid).dst) for t, l in I.succ[sid] if l != "exc")}


def replaced(A, o, full):
    """The object is made only after every complete record was."""
    at = {s for x in full for s in made(A, x)}
    mine = made(A, o)
    return bool(at) and bool(mine) and not A.F.reach(mine) & at


def leafclass(p, ann):
    e = p.elem_annotation(*ann)
    while e is not None:
        c = p.annotation_class(e[1], ann[1])
        if c is not None:
            return c
        e = p.elem_annotation(e[1], ann[1])
    return None


def deep(A, vs, d=0):
    out = set()
    for t in vs:
        out.add(t)
        if d < 4 and t.k in ("dict", "list", "set", "tup"):
            inner = set(A.V(t, "*")) | set(A.V(t, "*v"))
            if t.k == "tup":
                inner |= {x for s in t.a[0] for x in s}
            out |= deep(A, inner, d + 1)
    return out


def unwrap2(t):
    """The document value under a harmless or harmful conversion."""
    while t.k == "call" and len(t.a) > 1 and isinstance(t.a[1], T):
        t = t.a[1]
        if jroot(t):
            break
    return t if not (t.k == "bin") else t


def same_value(t):
    while t.k == "call" and not jroot(t):
        if t.a[0] not in (".replace", "str", "float") or len(t.a) < 2 or not isinstance(t.a[1], T):
            return False
        t = t.a[1]
    return True


def stored_leaf(y):
    """The attribute a written value stands for."""
    y = unwrap(y)
    return y if y.k == "attr" else None
