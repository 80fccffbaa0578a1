"""C29: the recorded signature of a source file predates building it."""
from engine.q import *
from engine.loops import Loops
from .hot_common import *
from .sched_common import Sched, base

TECHNIQUE = "backward data slice from what is stored as the signature of a source file: every measurement in it must come before the file is scanned and built on all paths"
FIELDS = ("mtime", "filesize", "inode")
STAT = ("os.lstat", "os.stat", "os.path.getmtime", "os.path.getsize", "os.fstat", "os.path.getctime", "time.time", "datetime.datetime.now", "time.time_ns")


def check(R):
    R.rule("built", "no measurement which may be recorded for a source file is taken after files were handed to builders")
    R.rule("scanned", "a measurement which may be recorded is taken before the file is scanned")
    R.rule("recorded", "the stored graph records the modification time, size and inode which were measured, or those of the previous build")
    R.rule("given", "the signatures given to a rebuild were measured before it started")
    A = hot(R)
    I, F = A.I, A.F
    S = Sched(A)
    flow = S.flow
    R.need("files handed to builders", len(S.subs))
    graphs = set()
    for s, f, args, kws, e in F.calls():
        if f.k == "bound" and f.a[1] == B + "graph.FileDependencyGraph.store" and args:
            if any(t.k == "file" and isinstance(t.a[0], T) and tail(t.a[0], "dependency_graph.json") for t in args[0]):
                graphs.add(f.a[0])
    R.obl(bool(graphs), "recorded", "stored graph", "the dependency graph is not stored", "")
    nodes = {n for g in graphs for d in A.V(g, "nodes") for n in A.V(d, "*v")}
    scansubs = {s for f in S.jobs.running(SCANF) for s in S.jobs.subs[f]}
    R.need("files handed to scanners", len(scansubs))
    afterbuild = F.reach({t for s in S.subs for t, l in I.succ[s] if l != "exc"})
    afterscan = F.reach({t for s in scansubs for t, l in I.succ[s] if l != "exc"})
    L = Loops(A)
    sinks = 0
    for field in FIELDS:
        at = []
        for cid, pc, o, src in flow.sets.get(field, ()):
            if flow.vals(cid, pc, o) & nodes:
                at.append((cid, pc, src))
        at += built(A, flow, nodes, field)
        R.obl(bool(at), "recorded", field, "the %s of a source file is not recorded" % field, "")
        sl = set()
        for x in at:
            sinks += 1
            sl |= flow.slice(*x)
        measures = {q for c, p in sl if flow.node(c, p).op == "call" for q in flow.at[(c, p)] if any(f.k == "ext" and f.a[0] in STAT for f, a, k, e in I.calls.get(q, ()))}
        params = {n.a["name"] for c, p in sl for n in [flow.node(c, p)] if n.op == "load"}
        ps = R.p.funcs[HOTF].params()
        for i, what in ((4, "changed"), (5, "added"), (1, "previous")):
            R.obl(any(usesparam(A, flow, c, p, ps[i]) for c, p in sl), "recorded", "%s: %s" % (field, what), "the %s recorded for a source file never is that of the %s files" % (field, what), "")
        for m in sorted(measures):
            where = A.loc(m) + caller(A, m)
            R.obl(m not in afterbuild, "built", "%s measured in %s" % (field, caller(A, m) or I.func(m).name), "the recorded %s of a source file may be measured after it was built" % field, A.loc(m))
            if m in afterscan and m not in afterbuild:
                ok = rescanned(A, S, L, m, scansubs)
                R.obl(ok, "scanned", "%s measured in %s" % (field, caller(A, m) or I.func(m).name), "the recorded %s of a source file may be measured after it was scanned" % field, A.loc(m))
    # what a rebuild is given
    A2 = cold(R)
    n = 0
    flow2 = None
    for s, f, args, kws, e in A2.F.calls():
        if f.k == "func" and f.a[0] == HOTF or f.k == "ext" and str(f.a[0]).endswith("hot_incremental_rebuild"):
            n += 1
            b = bound(A2, HOTF, args, kws)
            ps = R.p.funcs[HOTF].params()
            for i in (4, 5):
                vs = b.get(ps[i], ())
                lazy = {t for t in vs if t.k in ("closure", "func", "bound", "partial")}
                for d in vs:
                    lazy |= {t for t in A2.V(d, "*v") if t.k in ("closure", "func", "bound", "partial")}
                R.obl(not lazy, "given", "%s in %s" % (ps[i], A2.I.func(s).name), "a signature is measured when it is needed", A2.loc(s))
            later = A2.F.reach([t for t, l in A2.I.succ[s] if l != "exc"])
    R.need("rebuilds started", n)


def built(A, flow, objs, field):
    """(context, pc, register) of the values a field gets when the objects are constructed."""
    I = A.I
    out = []
    for (cid, pc), ss in flow.at.items():
        n = flow.node(cid, pc)
        if n.op != "call" or not (A.V(cid, pc) & objs):
            continue
        for s in ss:
            for f, a, k, e in I.calls.get(s, ()):
                if f.k != "class":
                    continue
                kw = dict(n.a["kws"])
                names = list(A.p.all_fields(A.p.cls(f.a[0])))
                if field in kw:
                    out.append((cid, pc, kw[field]))
                elif field in names and names.index(field) < len(n.a["args"]) and isinstance(n.a["args"][names.index(field)], str):
                    out.append((cid, pc, n.a["args"][names.index(field)]))
    return sorted(set(out))


def caller(A, s):
    """The function outside of the signature module a measurement is made for."""
    I = A.I
    cid = I.states[s][0]
    while I.ctxs[cid].csid is not None and I.ctxs[cid].func.qual.split(".")[-2:-1] != ["hot_incremental_rebuild"]:
        s = I.ctxs[cid].csid
        cid = I.states[s][0]
    return " " + I.func(s).name + ":" + str(sorted(k for k in [I.node(s).op])[0]) if False else I.func(s).name


def tail(t, name):
    ps = parts(t)
    return bool(ps) and isstr(ps[-1]) and cval(ps[-1]).endswith(name)


def usesparam(A, flow, c, p, name):
    n = flow.node(c, p)
    if n.op != "load":
        return False
    if n.a["name"] == name:
        return True
    return any(t.k == "sym" and t.a[-1] == name for t in flow.vals(c, p, n.a["name"]))


def rescanned(A, S, L, m, scansubs):
    """Is everything measured here scanned afterwards?"""
    I, F = A.I, A.F
    loops = L.of(m)
    lists = set()
    for lp in loops[:1]:
        hs = set(L.states(lp))
        puts_ = {}
        for s, c, k, v, x in S.puts:
            if L.within(s, lp) and c.k in ("list", "set", "dict"):
                puts_.setdefault(c, set()).add(s)
        starts = [t for s in hs for t, l in I.succ[s] if l == "item"]
        for c, at in puts_.items():
            # every round which measures also puts the file there
            before = m not in F.reach(starts, stop_edge=lambda a, b, l: a in at and l != "exc" or a in hs)
            after = not (F.reach([t for t, l in I.succ[m] if l != "exc"], stop_edge=lambda a, b, l: a in at and l != "exc") & hs)
            if before or after:
                lists.add(c)
    def none(s, t, l):
        # the variable may also hold the list of the round before
        for x, v in F.edge_atoms(s, l) or ():
            r = emptiness(x, v)
            if r is not None and r[1] and base(r[0]) in lists:
                return True
        return False
    whole = set()
    for s in F.node_states("next"):
        if any(t in lists or base(t) in lists for t in I.rv(s, I.node(s).a["it"])):
            if s not in F.reach([t for t, l in I.succ[s] if l == "item"], stop_edge=lambda a, b, l: a in scansubs and l != "exc"):
                whole.add(s)
    stop = lambda s, t, l: s in scansubs and l != "exc" or none(s, t, l) or s in whole and l == "done"
    return not (F.reach([t for t, l in I.succ[m] if l != "exc"], stop_edge=stop) & S.subs)
