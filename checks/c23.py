"""C23: building writes and deletes only where it is allowed to."""
from engine.q import *
from engine.flow import Flow
from .fs_common import *
from .out_common import reported, owner, manipulators, handlers

TECHNIQUE = "effect analysis: every file operation of a build which changes files, with the first part of its path below the project folder; where the rebuild deletes files named by a graph, a backward slice to the graph and relation the names come from; dominance of the test for existence over writing a placeholder"
OWN = ("out", "artifacts")
CHANGES = MUTATING | {"lockfile"}


def check(R):
    p = R.p
    R.rule("inside", "files are only created, overwritten, moved or deleted below out and artifacts, or for one of the three exceptions")
    R.rule("cleaned", "files deleted by a rebuild are outputs recorded in the output graph")
    R.rule("outputs", "what a build step reports as its output lies below out or artifacts")
    R.rule("empty folders", "a build never deletes a folder with its contents")
    R.rule("placeholders", "a source is only created where none exists")
    n = o = 0
    for name, kind, A in analyses(p, (RUN + "build.build",)):
        R.uses(A)
        n += changes(R, A, name, kind)
        if kind == "step" and ("build" in name):
            o += outputs(R, A, name)
    R.need("changing file operations", n)
    R.need("reported outputs", o)


def first(t):
    """First folder below the project folder a path names: a name, a term, '' for the project folder itself, None if unknown."""
    while True:
        if t.k == "cat":
            ps = [x for x in t.a if not (isstr(x) and cval(x) == "")]
            h = ps[0]
            if folder(h) or (h.k != "cat" and head(h)[0] is not h and folder(head(h)[0]) and first(h) == ""):
                text, rest = "", ps[1:]
                while rest and isstr(rest[0]):
                    text += cval(rest.pop(0))
                text = text.lstrip("/")
                if "/" in text or not rest:
                    return text.split("/")[0]
                if text:
                    return text + "?"       # a name beginning like that
                return entry(rest)
            t = h
        elif folder(t):
            return ""
        elif t.k == "call" and len(t.a) > 1 and isinstance(t.a[1], T):
            n = t.a[0].split(".")[-1]
            if n == "dirname" and t.a[1].k == "attr" and t.a[1].a[1] == "folder":
                return ".."
            if n == "dirname" and t.a[1].k == "cat":
                f = first(t.a[1])
                return f
            t = t.a[1]
        elif t.k in ("slice", "each", "elem", "item", "attr") and isinstance(t.a[0], T):
            if t.k == "attr" and t.a[1] == "parent" and t.a[0].k == "attr" and t.a[0].a[1] == "folder":
                return ".."
            t = t.a[0]
        else:
            return None


def entry(ps):
    """First folder of a relative path."""
    x = ps[0]
    if isstr(x):
        return cval(x).lstrip("/").split("/")[0]
    if x.k == "cat":
        return entry([y for y in x.a if not (isstr(y) and cval(y) == "")])
    if x.k == "call" and x.a[0].split(".")[-1] == "relpath" and len(x.a) == 3:
        if place(x.a[1])[0] == "project":
            return first(x.a[1])
        if place(x.a[1])[0] == "unknown":
            return None
    if x.k == "call" and x.a[0].split(".")[-1] in ("dirname", "normpath", "splitext0") and isinstance(x.a[1], T):
        return entry([x.a[1]])
    if x.k == "any":
        return None
    return x


def external(t):
    return has(t, lambda x: x.k in ("val", "key", "each", "elem", "item") and has(x, lambda y: y.k == "attr" and y.a[1] == "external_files" or isstr(y) and cval(y) in ("state_by_relpath",)))


def changes(R, A, name, kind):
    I = A.I
    n = 0
    flow = None
    seen = set()
    for e in A.F.effects():
        if e.kind not in CHANGES:
            continue
        con = "%s: %s in %s" % (name, e.kind, I.func(e.sid).qual[len(PKG):])
        if e.kind == "rmtree" and not all(place(t)[0] == "temp" for t in e.path) and not found_empty(A, e.sid):
            R.bad("empty folders", con, "a folder is deleted with its contents", A.loc(e.sid), ())
        for ps in [e.path] + ([e.other] if e.kind == "rename" else []):
            ps = [t for t in ps or () if not has(t, lambda x: x is NONE and not within(t, x))]
            got = [(t, verdict(A, e, t, name, kind)) for t in ps]
            for t, v in got:
                n += 1
                if v is None:
                    if kind == "hot":
                        flow = flow or Flow(A)
                        if I.states[e.sid][:2] in seen:
                            continue
                        seen.add(I.states[e.sid][:2])
                        named(R, A, flow, e, con)
                    else:
                        R.obl(any(w is True for _, w in got), "inside", con, "nothing is known about the place of %s" % show(t)[:140], A.loc(e.sid))
                elif v == "placeholder":
                    if I.states[e.sid] in seen:
                        continue
                    seen.add(I.states[e.sid])
                    placeholder(R, A, e, t, con)
                else:
                    R.obl(v, "inside", con, "%s is not below out or artifacts" % show(t)[:160], A.loc(e.sid))
    return n


def within(t, x):
    """None as the bound of a slice is no path."""
    return any(y.k in ("slice", "call") and (y.k == "slice" or y.a[0] in ("slice", "split", "rsplit", "item")) and any(z is x for z in y.a[1:]) for y in subterms(t))


def verdict(A, e, t, name, kind):
    w = place(t)[0]
    if w == "temp":
        return True
    if w == "unknown":
        return None
    if w != "project":
        return False
    f = first(t)
    if t.k == "cat" and any(isstr(x) and ".." in cval(x).split("/") for x in flat(t)):
        return False
    if f in OWN:
        return True
    if f is None:
        return None
    if isinstance(f, T):
        if kind == "hot" and graph_of(f) is not None and not has(f, lambda x: x.k == "attr" and x.a[1] == "placeholders"):
            return None
        if external(f):
            return True
        if has(f, lambda x: x.k == "attr" and x.a[1] == "placeholders"):
            return "placeholder" if e.kind in ("write", "mkdir") else False
        return tested(A, t, f)
    if f == "src" and "Outline" in name:
        return generated(t)
    if f == "src" and e.kind == "mkdir":
        return False
    return False


def tested(A, t, f):
    """The name is made only of a path found to be below out or artifacts."""
    part = lambda v: v.k == "cat" and v.a[0] is f and any(x.k == "cat" and v.a == x.a[-len(v.a):] for x in subterms(t))
    flow = getattr(A, "_flow23", None) or Flow(A)
    A._flow23 = flow
    at = {s for k, ss in flow.at.items() for n in [flow.node(*k)] if n.op in ("bin", "concat", "fmt") and n.dst and any(part(v) for v in flow.vals(k[0], k[1], n.dst)) for s in ss}

    def gen(s, to, l):
        return any(v and x.k == "call" and x.a[0].split(".")[-1] == "startswith" and x.a[1] is f and isstr(x.a[2]) and cval(x.a[2]).split("/")[0] in OWN and "/" in cval(x.a[2])
                   for x, v in A.F.edge_atoms(s, l) or ())
    return bool(at) and not A.F.guarded(at, gen)


def generated(t):
    """In the folders of generated sources."""
    s = "".join(cval(x) if isstr(x) else "\0" for x in flat(t))
    i = s.find("/src/public/")
    rest = s[i + len("/src/public/"):].split("/") if i >= 0 else []
    return len(rest) >= 2 and rest[0] in ("js", "css") and rest[1] == "gen" or any(x.k == "call" and x.a[0].split(".")[-1] == "dirname" and generated(x.a[1]) for x in flat(t) if x is not t and x.k == "call" and len(x.a) > 1 and isinstance(x.a[1], T)) or t.k == "call" and t.a[0].split(".")[-1] == "dirname" and generated(t.a[1])


def flat(t):
    return [y for x in t.a for y in flat(x)] if t.k == "cat" else [t]


GRAPHS = ("get_children", "get_parents")


def named(R, A, flow, e, con):
    """Operations on a name the rebuild looked up: it must be a child in the output graph."""
    I = A.I
    cid, pc = I.states[e.sid][:2]
    n = I.node(e.sid)
    if e.kind in ("write", "symlink", "copy", "rename", "touch", "save"):
        own = [t for t in e.path if has(t, lambda x: x.k == "attr" and x.a[1] == "placeholders")]
        if own:
            for t in own:
                placeholder(R, A, e, t, con)
            return
    regs = [r if isinstance(r, str) else r[1] for r in n.a["args"]][:1] or [n.a["f"]]
    graphcall = lambda c, q: [(f, a) for s in flow.at[(c, q)] for f, a, k, en in I.calls.get(s, ()) if f.k in ("bound", "meth", "attr") and f.a[1].split(".")[-1] in GRAPHS]

    def looked(c, q, reg):
        """Look-ups in a graph a register holds the result of, if it holds nothing else."""
        out, st, seen = set(), [(c, q, reg)], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for d in flow.defs(*x):
                if d[0] == "p":
                    st += [y[1:] for y in flow.params(d[1], d[2])]
                    continue
                if (d[1], d[2]) not in flow.at:
                    continue
                m = flow.node(d[1], d[2])
                if m.op == "call" and graphcall(d[1], d[2]):
                    out.add((d[1], d[2]))
                elif m.op in ("load", "store"):
                    st.append((d[1], d[2], m.a["name" if m.op == "load" else "src"]))
                elif m.op == "call" and flow.wraps(d[1], d[2]):
                    st += [(d[1], d[2], r if isinstance(r, str) else r[1]) for r in m.a["args"]]
                elif m.op == "call" and flow.called.get((d[1], d[2])):
                    st += [(k, y, r) for k in flow.called[(d[1], d[2])] for y, r in flow.rets.get(k, ())]
                else:
                    return set()
        return out

    uses = set()

    def stop(c, q, m):
        if m.op == "call" and graphcall(c, q):
            uses.add((c, q))
            return True
        if m.op == "next" or m.op == "call" and flow.wraps(c, q):
            rs = [m.a["it"]] if m.op == "next" else [r if isinstance(r, str) else r[1] for r in m.a["args"]]
            ls = [looked(c, q, r) for r in rs]
            if ls and all(ls):
                uses.update(set().union(*ls))
                return True
        return False
    sl = flow.slice(cid, pc, regs[0], stop=stop)
    bad = {}
    for c, q in uses:
        for f, a in graphcall(c, q):
            what = f.a[1].split(".")[-1]
            if what != "get_children" or graph_of(f.a[0]) not in ("output", None):
                bad["the %s of files in %s" % (what[4:], show(f.a[0])[:80])] = 1
    for c, q in sl:
        m = flow.node(c, q)
        if m.op == "attr" and m.a["name"] in ("children", "parents"):
            for g in flow.vals(c, q, m.a["obj"]):
                if m.a["name"] == "parents" or graph_of(g) not in ("output", None):
                    bad["the %s of files in %s" % (m.a["name"], show(g)[:80])] = 1
        if m.op in ("next", "load") and I.ctxs[c].csid is None:
            for v in flow.vals(c, q, m.a["it"] if m.op == "next" else m.dst):
                x = v.a[0] if v.k in ("key", "elem", "each") and isinstance(v.a[0], T) else v
                if x.k == "sym" and x.a[0] in ("changed_files", "added_files", "deleted_files"):
                    bad["source files (%s)" % show(v)[:60]] = 1
    if uses or bad or any(flow.node(c, q).op == "attr" and flow.node(c, q).a["name"] == "children" for c, q in sl):
        R.obl(not bad, "cleaned", con, "what is deleted are " + " and ".join(sorted(bad)), A.loc(e.sid))
    else:
        R.bad("cleaned", con, "the names do not come from the output graph", A.loc(e.sid), ())


def graph_of(g):
    for x in subterms(g):
        if x.k == "sym" and "graph" in x.a[0]:
            return "output" if "output" in x.a[0] else x.a[0]
    return None


def placeholder(R, A, e, t, con):
    if e.kind == "mkdir":
        return
    if e.kind != "write":
        R.bad("inside", con, "a placeholder source is changed by %s" % e.kind, A.loc(e.sid), ())
        return
    mode = [cval(m) for m in e.args[1] if isstr(m)] if len(e.args) > 1 else []
    if mode and all("x" in m for m in mode):
        R.obl(True, "placeholders", con, "", "")
        return
    def same(x):
        if x.k != "call" or x.a[0].split(".")[-1] not in ("exists", "lexists", "isfile", "is_file") or len(x.a) < 2:
            return False
        y = x.a[1]
        if y in e.path or any(has(z, lambda w: w is y) for z in e.path):
            return True
        return y.k == "cat" and folder(y.a[0]) and all(isstr(z) and cval(z) == "/" for z in y.a[1:-1]) and y.a[-1].k in ("key", "each", "elem") and has(y.a[-1].a[0], lambda z: z.k == "attr") and top(y.a[-1].a[0])
    loops_ = {s for s in A.F.node_states("next")}
    bad = A.F.guarded([e.sid], A.holds(lambda x, v: not v and same(x)), lambda s: s in loops_ and moving(A, s, t))
    R.obl(not bad, "placeholders", con, "a placeholder is written although the source may exist", A.loc(e.sid))


def moving(A, s, t):
    """A loop round which takes the next placeholder."""
    n = A.I.node(s)
    return any(has(v, lambda x: x.k == "attr" and x.a[1] == "placeholders") for v in A.I.rv(s, n.a["it"]))


def outputs(R, A, name):
    n = 0
    q = next(iter(A.eid))
    rep = reported(A, q, ("produced", "reused"))
    for f, ts in rep.items():
        for t in ts:
            if t is NONE or t.k == "any" or owner(t) is not None:
                continue
            n += 1
            x = entry(list(t.a) if t.k == "cat" else [t])
            R.obl(x in OWN or x is None or isinstance(x, T) and tested(A, t, x), "outputs", "%s: %s" % (name, f), "%s is reported as an output" % show(t)[:140], "")
    return n


def top(t):
    """The placeholders of a scan, or their items."""
    while t.k in ("call", "key", "each", "elem") and any(isinstance(z, T) for z in t.a):
        t = next(z for z in t.a if isinstance(z, T))
    return t.k == "attr" and t.a[1] == "placeholders"
