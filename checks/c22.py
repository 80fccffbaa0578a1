"""C22: cleaning removes only what it may."""
from engine.q import *
from engine.consts import explore
from .hot_common import loops, body, puts

TECHNIQUE = "effect analysis of the clean command: every removal's path term, with path-sensitive reachability of the removals of source files from the user's request and from the recorded graph's parent relation"
RUN = "vanillaplusjs.runners.clean."
LOAD = B + "graph.FileDependencyGraph.load"
PARENTS = B + "graph.FileDependencyGraph.get_parents"
GRAPH = "out/placeholder_graph.json"
QUIET = ("read", "test", "stat", "list", "lockfile")


def check(R):
    R.rule("only", "the clean command changes nothing in the file system but by removing the folders out and artifacts below the given folder and files named by the recorded placeholder graph")
    R.rule("project", "nothing is removed from a folder without a vanillaplusjs.json")
    R.rule("generated", "a source file is removed only if it is a node of the placeholder graph which has parents")
    R.rule("asked", "source files are removed only when the placeholders argument is true; and from the command line only after --placeholders or after answering yes")
    R.rule("option", "the option which removes placeholders is --placeholders and is off unless given")
    A = Ana(R.p, [(RUN + "clean", {}, None), (RUN + "main", {}, None)], opaque=OPAQUE + (LOAD, PARENTS))
    R.uses(A)
    I, F = A.I, A.F
    removals, trees = {RUN + "clean": set(), RUN + "main": set()}, {RUN + "clean": set(), RUN + "main": set()}
    for q in removals:
        cid = A.eid[q]
        start = A.start(cid)
        live = explore(A, start)
        name = q.split(".")[-1]
        for e in F.effects():
            if e.sid not in live or e.kind in QUIET:
                continue
            con = "%s in %s via %s" % (e.kind, I.func(e.sid).qual.split(".")[-1], name)
            if not e.path:
                R.bad("only", con, "a path which is not known", A.loc(e.sid))
            for t in e.path:
                k = kind(A, t, q)
                if k == "tree" and (e.kind == "rmtree" or e.kind in ("remove", "rmdir")):
                    R.ok("only", con + " of " + cval(parts(t)[-1]).split("/")[-1])
                    trees[q].add(e.sid)
                elif k == "node" and e.kind == "remove":
                    R.ok("only", con + " of a node of the placeholder graph")
                    removals[q].add(e.sid)
                elif k == "inside" and e.kind in ("remove", "rmdir", "rmtree"):
                    R.ok("only", con + " below out or artifacts")
                    trees[q].add(e.sid)
                else:
                    R.bad("only", con, "changes %s, which is not what the clean command may remove" % show(norm(t))[:120], A.loc(e.sid))
        for sid, f, args, kws, e in F.calls():
            if sid in live and f.k == "ext" and (f.a[0] in ("os.system", "os.popen") or f.a[0].startswith("subprocess.")):
                R.bad("only", "command in " + I.func(sid).qual.split(".")[-1], "runs another program", A.loc(sid))
        # there is a project
        base = lambda t: below(A, t, q)
        proj = lambda s, t, l: any(b and tested(x) and base(tested(x)) == "vanillaplusjs.json" for x, b in (F.edge_atoms(s, l) or ()))
        S = explore(A, start, proj)
        bad = sorted((removals[q] | trees[q]) & S)
        R.obl(not bad, "project", "removals of " + name, "something is removed although there may be no vanillaplusjs.json in the folder", A.loc(bad[0]) if bad else "")
        # which nodes
        gen = lambda s, t, l: any(hasparents(x, b) for x, b in (F.edge_atoms(s, l) or ()))
        S = explore(A, start, gen)
        for s in sorted(removals[q] & S):
            ls = lists(A, s)
            unguarded = not ls
            for L in ls:
                # the list is made of nodes with parents only
                adds = [a for a, o, ks, vs, froms in puts(A) if o is L]
                if not adds or any(a in S for a in adds):
                    unguarded = True
            R.obl(not unguarded, "generated", "removal of a source file via " + name, "a file of the placeholder graph can be removed although no other file generates it", A.loc(s))
        for s in sorted(removals[q] - S):
            R.ok("generated", "removal of a source file via " + name)
        # who asked
        if q == RUN + "clean":
            asks = lambda x, b: b and x.k == "sym" and x.a[0] == "placeholders" or (b and cmpb(x) and cmpb(x)[0].k == "sym" and cmpb(x)[0].a[0] == "placeholders" and cval(cmpb(x)[1]) is True)
        else:
            asks = lambda x, b: option(x, b) or answer(x, b)
        S = explore(A, start, lambda s, t, l: any(asks(x, b) for x, b in (F.edge_atoms(s, l) or ())))
        bad = sorted(removals[q] & S)
        R.obl(not bad, "asked", "removal of source files via " + name, "source files can be removed although that was not asked for", A.loc(bad[0]) if bad else "")
    R.need("removals of the output folders", len(trees[RUN + "clean"]))
    options(R, A)


def root(A, t, q):
    """The folder is what was given: the parameter or the option, made absolute at most."""
    while t.k == "call" and t.a[0] in ("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser") and len(t.a) > 1:
        t = t.a[1]
    if q.endswith(".clean.clean"):
        return t.k == "sym" and t.a[0] == "folder"
    return t.k == "attr" and t.a[1] == "folder" and has(t.a[0], lambda x: x.k == "meth" and x.a[1] == "parse_args" or x.k == "call" and str(x.a[0]).endswith("parse_args") or "parse_args" in show(x))


def below(A, t, q):
    """The constant path of t below the given folder; None if t is not such a path."""
    ps = parts(t)
    if len(ps) < 2 or not root(A, ps[0], q) or not all(isstr(x) for x in ps[1:]):
        return None
    rest = "".join(cval(x) for x in ps[1:])
    if not rest.startswith("/"):
        return None
    out = [x for x in rest.split("/") if x not in ("", ".")]
    return "/".join(out) if ".." not in out else None


def kind(A, t, q):
    b = below(A, t, q)
    if b in ("out", "artifacts"):
        return "tree"
    ps = parts(t)
    if ps and root(A, ps[0], q) and len(ps) > 1 and isstr(ps[1]):
        first = [x for x in cval(ps[1]).split("/") if x]
        if cval(ps[1]).startswith("/") and first and first[0] in ("out", "artifacts") and (len(first) > 1 or cval(ps[1]).endswith("/")) and not any(isstr(x) and ".." in cval(x) for x in ps[1:]):
            return "inside"
        if cval(ps[1]) == "/" and len(ps) == 3 and node(A, ps[2], q):
            return "node"
    if node(A, t, q):
        return None
    return None


def graph(A, g, q):
    """g is what the recorded placeholder graph was loaded from."""
    if g.k == "call" and str(g.a[0]).endswith("FileDependencyGraph.load"):
        fs = [x for x in g.a[1:] if isinstance(x, T)]
        return any(x.k == "file" and below(A, x.a[0], q) == GRAPH for x in fs)
    return False


def node(A, t, q):
    """t is the name of a node of the recorded placeholder graph."""
    if t.k == "attr" and t.a[1] == "path":
        t = mk("key", t.a[0].a[0]) if t.a[0].k in ("val", "item") else t
    if t.k in ("key", "elem") and len(t.a) and isinstance(t.a[0], T):
        o = t.a[0]
        if o.k == "call" and len(o.a) > 1 and str(o.a[0]).split(".")[-1] in ("keys", "sorted", "list", "set") and isinstance(o.a[1], T):
            o = o.a[1]
        if o.k == "attr" and o.a[1] == "nodes":
            return graph(A, o.a[0], q)
        return graph(A, o, q)
    return False


def tested(x):
    if x.k == "call" and x.a[0] in ("os.path.exists", "os.path.isfile", "os.path.lexists"):
        return x.a[1]
    return None


def cmpb(x):
    if x.k == "cmp" and x.a[0] == "Eq" and (x.a[2].k == "const" or isstr(x.a[2])):
        return x.a[1], x.a[2]
    return None


def hasparents(x, b):
    """The condition says that the node has parents."""
    def par(y):
        if y.k == "attr" and y.a[1] == "parents":
            return y.a[0].k in ("val", "item", "elem", "sub") or y.a[0].k == "call" and str(y.a[0].a[0]).endswith("get")
        return y.k == "call" and str(y.a[0]).endswith("get_parents")
    if par(x):
        return b
    if x.k == "cmp" and len(x.a) == 3:
        o, l, r = x.a
        if l.k == "len":
            l = mk("call", "len", l.a[0])
        if l.k == "call" and l.a[0] == "len" and par(l.a[1]) and r.k == "const":
            return o == "Eq" and cval(r) == 0 and not b or o == "Gt" and cval(r) in (0,) and b or o == "GtE" and cval(r) == 1 and b or o == "Lt" and cval(r) == 1 and not b or o == "LtE" and cval(r) == 0 and not b
        if par(l) and o == "Eq" and r.k in ("list", "set", "tup") and not b:
            return True
    if x.k == "len" and par(x.a[0]):
        return b
    if x.k == "call" and x.a[0] in ("len", "bool", "any") and len(x.a) > 1 and par(x.a[1]):
        return b
    return False


def lists(A, s):
    """The lists whose loop removes at s."""
    out = set()
    for h, (items, dones) in loops(A).items():
        if s in body(A, h, items):
            n = A.I.node(h)
            vs = A.I.rv(h, n.a["it"])
            ls = {t for t in vs if t.k in ("list", "set", "dict")}
            if ls and len(ls) == len(vs):
                out |= ls
    return out


def option(x, b):
    """The --placeholders option was found set."""
    c = cmpb(x)
    if c is not None and cval(c[1]) is True:
        x = c[0]
    return b and x.k == "attr" and x.a[1] == "placeholders" and "parse_args" in show(x.a[0])


def answer(x, b):
    """What the user typed was found to be a yes."""
    inp = lambda y: "input()" in show(y) or "input(" in show(y)
    c = cmpb(x)
    if c is not None and inp(c[0]):
        v = c[1]
        return b and isstr(v) and cval(v).strip().lower() in ("y", "yes")
    if x.k == "cmp" and x.a[0] == "In" and inp(x.a[1]):
        c = x.a[2]
        vs = None
        if c.k == "tup":
            vs = [y for f in c.a[0] for y in f]
        elif c.k == "const" and isinstance(c.a[0], (tuple, frozenset, list, set)):
            vs = [const(y) for y in c.a[0]]
        return b and vs is not None and all(isstr(y) and cval(y).strip().lower() in ("y", "yes") for y in vs)
    if x.k == "call" and str(x.a[0]).endswith("startswith") and len(x.a) > 2 and inp(x.a[1]):
        return b and isstr(x.a[2]) and cval(x.a[2]).lower() in ("y", "yes")
    return False


def options(R, A):
    I, F = A.I, A.F
    cid = A.eid[RUN + "main"]
    live = explore(A, A.start(cid))
    got = 0
    for sid, f, args, kws, e in F.calls():
        if sid not in live or f.k not in ("attr", "meth"):
            continue
        if f.a[1] == "set_defaults" and "placeholders" in kws and not all(t.k == "const" and not cval(t) for t in kws["placeholders"]):
            R.bad("option", "default of placeholders", "the removal of placeholders is on by default", A.loc(sid))
        if f.a[1] != "add_argument":
            continue
        flags = [cval(t) for a in args for t in a if isstr(t)]
        kw = {k: v for k, v in kws.items() if isinstance(k, str)}
        dest = {cval(t) for t in kw.get("dest", ()) if isstr(t)} or {([x for x in flags if x.startswith("--")] or flags or [""])[0].lstrip("-").replace("-", "_")}
        if "placeholders" not in dest:
            continue
        got += 1
        act = {cval(t) for t in kw.get("action", ()) if isstr(t)}
        val = {cval(t) for t in kw.get("const", ()) if t.k == "const"}
        dfl = kw.get("default")
        off = all(t.k == "const" and not cval(t) for t in dfl) if dfl is not None else None
        sets = True if act == {"store_true"} or act == {"store_const"} and val == {True} else False if act == {"store_false"} or act == {"store_const"} and val == {False} else None
        yes = "--placeholders" in flags
        other = any(x.startswith("--no") for x in flags) or any(t.k == "ext" and t.a[0].endswith("BooleanOptionalAction") for t in kw.get("action", ()))
        if any(t.k == "ext" and t.a[0].endswith("BooleanOptionalAction") for t in kw.get("action", ())):
            good = yes and off is not False
        else:
            good = (sets is True and yes and not any(x.startswith("--no") for x in flags) and off is not False) or (sets is False and not yes and other and (off if dfl is not None else act == {"store_const"}))
        R.obl(good, "option", "option " + "/".join(flags), "the option does not mean that placeholders are to be removed only if --placeholders is given", A.loc(sid))
    R.obl(got > 0, "option", "option --placeholders", "there is no option which asks for the removal of placeholders")
