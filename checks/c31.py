"""C31: the watch mode's rebuild is configured like a full development build."""
import ast
from engine.q import *
from engine.consts import explore
from .dev_common import handler_class, Handler
from .hot_common import bound, COLDF, HOTF

TECHNIQUE = "comparison of data-flow terms: every field of the build context and every graph handed to the rebuild must have the same source terms (rooted at the project folder) in the full build and in the watch mode's rebuild, on all paths"
BUILD = PKG + "runners.build.build"
DEV = PKG + "runners.dev.dev"
FREE = ("folder", "symlinks", "delay_files", "dev")
GRAPHS = ("old_dependency_graph", "old_output_graph", "old_placeholders_graph")


def check(R):
    R.rule("same", "a setting of the build context has the same source in the rebuild of the watch mode as in the full build")
    R.rule("set", "a setting which the full build always fills in is filled in on every path to the rebuild")
    R.rule("mode", "the rebuild is a development build of the same folder")
    R.rule("graphs", "the rebuild is handed the previous graphs which the full build would use, loaded when it starts")
    p = R.p
    hs = handler_class(p)
    R.need("file event handlers", len(hs))
    H = Handler(p, hs[0])
    loop = [(m, None, hs[0]) for m in H.loop]
    A = Ana(p, [(BUILD, {}, None)] + loop, opaque=OPAQUE + (COLDF, HOTF) + opaques(p))
    R.uses(A)
    I, F = A.I, A.F
    selfs = {t for t, c in I.symtype.items() if c is hs[0]} | {mk("sym", "self")}
    full, hot = uses(A, COLDF), uses(A, HOTF)
    R.need("full builds", len(full))
    R.need("rebuilds in watch mode", len(hot))
    def root(t):
        while t.k == "call" and t.a[0] in ("os.path.abspath", "os.path.normpath", "os.path.realpath", "abspath", "normpath", "realpath") and len(t.a) == 2:
            t = t.a[1]
        return t.k == "sym" and t.a[0] == "folder" or t.k == "attr" and t.a[1] == "folder" and t.a[0] in selfs
    cn = Canon(A, root)
    want, always, graphs = {}, {}, {}
    for sid, b in full:
        for f, vs in fields(A, b).items():
            want.setdefault(f, set()).update(cn.all(vs))
        for o in contexts(A, b):
            for f in settings(A, o):
                always[f] = always.get(f, True) and sets(A, o, f, sid, BUILD)
        for g in GRAPHS:
            graphs.setdefault(g, set()).update(cn.all(b.get(g, ())))
    for sid, b in hot:
        con = I.func(sid).qual.split(".")[-1]
        cs = contexts(A, b)
        R.obl(bool(cs), "same", "context of " + con, "the rebuild's context is not made in the handler: what it holds is not known", A.loc(sid))
        got = fields(A, b)
        for f, w in sorted(want.items()):
            if f in FREE:
                continue
            g = cn.all(got.get(f, ()))
            if unknown(w) or unknown(g):
                R.assume.append("the source of %s is not compared: it is not known" % f)
                continue
            if always.get(f):
                w = w - {cn.default(f)} if len(w) > 1 else w
            for o in cs:
                if always.get(f):
                    R.obl(sets(A, o, f, sid, None), "set", f, "the rebuild may leave %s at its default, although a full build sets it" % f, A.loc(sid))
            if all(sets(A, o, f, sid, None) for o in cs) and len(g) > 1:
                g = g - {cn.default(f)}
            R.obl(g == w, "same", f, "%s is %s in the full build but %s in the rebuild" % (f, txt(w - g or w), txt(g - w or g)), A.loc(sid))
        for f in sorted(set(got) - set(want)):
            g = cn.all(got[f])
            R.obl(g <= {cn.default(f)} or unknown(g), "same", f, "%s is set in the rebuild only" % f, A.loc(sid))
        d = got.get("dev", frozenset())
        R.obl(bool(d) and all(t.k == "const" and cval(t) is True for t in d), "mode", "dev", "the rebuild is not always a development build", A.loc(sid))
        fo = got.get("folder", frozenset())
        R.obl(bool(fo) and all(root(t) for t in fo), "mode", "folder", "the rebuild is of another folder", A.loc(sid))
        for g in GRAPHS:
            x = cn.all(b.get(g, ()))
            if unknown(x) or unknown(graphs[g]):
                continue
            loaded(R, A, g, b, sid, [b2.get(g, ()) for s2, b2 in full])
            R.obl(x == graphs[g], "graphs", g, "%s is %s in the full build but %s in the rebuild" % (g, txt(graphs[g] - x or graphs[g]), txt(x - graphs[g] or x)), A.loc(sid))


    symlinks(R, p)


def loaded(R, A, g, b, sid, fulls):
    """The graph stays empty only when none was stored."""
    I, F = A.I, A.F

    def free(sid, vs):
        ls = {t for t in vs if t.k == "call"}
        ps = {x for t in ls for y in subterms(t) if y.k == "file" for x in y.a[:1]}
        if not ps:
            return None

        def gen(s, t, l):
            if l != "exc" and I.node(s).op == "call" and ls & I.V.get(tuple(I.states[s][:2]), frozenset()):
                return True
            at = F.edge_atoms(s, l)
            return bool(at) and all(not v and x.k == "call" and str(x.a[0]).split(".")[-1] in ("exists", "isfile", "lexists") and any(y in ps for y in subterms(x)) for x, v in at)
        opens = {e.sid for e in F.effects() if e.kind == "read" and e.path in ps}
        return F.guarded([sid], lambda s, t, l: gen(s, t, l) or s in opens and l == "exc", start=[s for c, s in I.entries])
    for sid2, vs in zip([s for s, b2 in uses(A, COLDF)], fulls):
        if free(sid2, vs) is None or free(sid2, vs):
            return
    bad = free(sid, b.get(g, ()))
    if bad is not None:
        R.obl(not bad, "graphs", g + ": always", "the stored graph is not always loaded for the rebuild", A.loc(sid))


def symlinks(R, p):
    """What the full build finds out about links is what the rebuilds are told."""
    probes = tuple(q for q, f in p.funcs.items() if f.cls is None and any(isinstance(x, ast.Attribute) and x.attr == "symlink" for x in ast.walk(f.node)) and any(isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, bool) for x in ast.walk(f.node)))
    if DEV not in p.funcs or not probes:
        return
    A = Ana(p, [(DEV, {}, None)], opaque=OPAQUE + (COLDF, HOTF) + opaques(p) + probes)
    none = const(None)
    want = {t for sid, b in uses(A, COLDF) for t in fields(A, b).get("symlinks", ())} - {none}
    if not want or unknown(want) or not all(any(str(t.a[0]) == q or str(t.a[0]).split(".")[-1] == q.split(".")[-1] for q in probes) for t in want if t.k == "call") or any(t.k != "call" for t in want):
        return
    for sid, b in uses(A, HOTF):
        got = set(fields(A, b).get("symlinks", ())) - {none}
        if got and not unknown(got):
            R.obl(got <= want, "mode", "symlinks", "the rebuild is told %s about links, the full build finds out by %s" % (txt(got - want), txt(want)), A.loc(sid))


def opaques(p):
    """Functions of the build package which make values and store nothing into what they are given."""
    out = []
    for q, f in p.funcs.items():
        if not q.startswith(B) or f.cls is not None and f.cls.name == "BuildContext":
            continue
        ps = set(f.params())
        if f.cls is None and not f.parent if hasattr(f, "parent") else f.cls is None:
            st = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ps for x in ast.walk(f.node))
            st = st or any(isinstance(x, ast.Name) and x.id in ("setattr", "BuildContext") or isinstance(x, ast.Attribute) and x.attr == "BuildContext" for x in ast.walk(f.node) if not annotation(f.node, x))
            st = st or any(isinstance(x, ast.Attribute) and x.attr == "load" and ast.unparse(x.value) != "json" for x in ast.walk(f.node))
            if not st:
                out.append(q)
        elif q.endswith("FileDependencyGraph.load"):
            out.append(q)
    return tuple(out)


def annotation(fn, x):
    """x is part of an annotation of the function's parameters or result."""
    an = [a.annotation for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs if a.annotation is not None] + ([fn.returns] if fn.returns is not None else [])
    return any(x is y for a in an for y in ast.walk(a))


def uses(A, q):
    return [(sid, bound(A, q, args, kws)) for sid, f, args, kws, e in A.F.calls() if f.k == "func" and f.a[0] == q]


def contexts(A, b):
    return {t for t in b.get("context", ()) if t.k == "obj"}


def settings(A, o):
    return {f for (x, f) in [k for k in A.I.V if len(k) == 2 and k[0] is o] if isinstance(f, str) and f.isidentifier()}


def fields(A, b):
    out = {}
    for o in contexts(A, b):
        for f in settings(A, o):
            out[f] = out.get(f, frozenset()) | A.V(o, f)
    return out


def sets(A, o, f, sid, entry):
    """On every path to sid the field is stored, or it was given when the object was made."""
    I = A.I
    stores = set()
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op == "setattr" and n.a["name"] == f and o in I.rv(s, n.a["obj"]):
            stores.add(s)
    if not stores:
        return given(A, o, f)
    start = [s for c, s in I.entries]
    stop = lambda s, t, l: s in stores and l != "exc"
    return given(A, o, f) or sid not in A.F.reach(start, stop) or sid not in explore(A, start, stop)


def given(A, o, f):
    """The default never shows: the field was passed to the constructor."""
    cls = A.I.typeof(o)
    for c in (cls if isinstance(cls, (set, list, tuple, frozenset)) else [cls]):
        if c is not None:
            d = A.p.field_default(c, f)
            d = d[0] if isinstance(d, tuple) else d
            if d is None:
                return True
            if isinstance(d, ast.Constant):
                return not any(t.k == "const" and cval(t) == d.value and type(cval(t)) is type(d.value) for t in A.V(o, f))
    return False


class Canon:
    def __init__(self, A, root):
        self.A, self.root, self.memo = A, root, {}

    def default(self, f):
        for c in self.A.p.classes.values():
            if c.name == "BuildContext":
                d = self.A.p.field_default(c, f)
                d = d[0] if isinstance(d, tuple) else d
                if isinstance(d, ast.Constant):
                    return const(d.value)
        return None

    def all(self, vs):
        return {self(t) for t in vs}

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = mk("sym", "...")

        def go(x):
            if isinstance(x, T):
                return self(x)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        if self.root(t):
            r = mk("sym", "ROOT")
        elif t.k == "obj":
            c = self.A.I.typeof(t)
            c = next(iter(c)) if isinstance(c, (set, frozenset, list)) and c else c
            fs = sorted(settings(self.A, t))
            if getattr(c, "name", "") in ("BuildContext",):
                r = mk("sym", "CONTEXT")
            else:
                r = mk("call", "new " + getattr(c, "name", "?"), mk("tup", tuple(frozenset([mk("tup", (frozenset([const(f)]), frozenset(self.all(self.A.V(t, f)))))]) for f in fs)))
        elif t.k in ("dict", "list", "set"):
            cont = frozenset(self.all(self.A.V(t, "*"))), frozenset(self.all(self.A.V(t, "*k"))), frozenset(self.all(self.A.V(t, "*v")))
            r = mk("call", "new " + t.k, mk("tup", cont)) if any(cont) else mk("call", "new " + t.k)
        elif t.k == "file":
            r = mk("file", go(t.a[0]), go(t.a[1]))
        else:
            r = mk(t.k, *[go(x) for x in t.a])
        self.memo[t] = r
        return r


def unknown(ts):
    return any(has(t, lambda x: x.k == "any") for t in ts) or not ts


def txt(ts):
    return " or ".join(sorted(show(t)[-90:] for t in ts)) or "nothing"
