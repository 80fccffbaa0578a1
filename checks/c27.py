"""C27: recorded build state is stored only after everything was rebuilt."""
from engine.q import *
from engine.consts import explore
from .hot_common import *
from engine.loops import Loops
from .sched_common import Sched, base

TECHNIQUE = "path analysis of the rebuild: every path from handing a file to a builder to a write of the stored graphs must take every result without failure, find nothing waiting and finish the removal of stale artifacts; exception edges must not reach a write or a normal return"
BUILD = "vanillaplusjs.runners.build.build"
GRAPHS = ("dependency_graph", "output_graph", "placeholder_graph")


def check(R):
    R.rule("results", "before a graph is stored, every file handed to a builder has been rebuilt and its result was taken")
    R.rule("scheduled", "before a graph is stored, no file waits for being rebuilt")
    R.rule("propagated", "a failure while scanning or building leads neither to stored graphs nor to a normal end, all the way to the command")
    R.rule("cleaned", "stale artifacts are removed before the graphs are stored; nothing is changed afterwards but the stored state")
    R.rule("stored", "a rebuild which did anything stores all three graphs, each in its own file")
    R.rule("kept", "nothing else writes or removes a stored graph")
    A = hot(R)
    I, F = A.I, A.F
    effs = F.effects()
    stores = {}
    for e in effs:
        if e.kind in ("write", "rename", "copy", "save"):
            for g in GRAPHS:
                if e.path and all(final(t, g) for t in e.path):
                    stores.setdefault(g, set()).add(e.sid)
    every = set().union(*stores.values()) if stores else set()
    for g in GRAPHS:
        R.obl(g in stores, "stored", g, "the %s is not stored" % g.replace("_", " "), "")
    S = Sched(A)
    R.need("files handed to builders", len(S.subs))
    # results
    for f in S.futs:
        bad = S.jobs.undrained(f, every)
        R.obl(not bad, "results", "builds", "a graph can be stored while a file is still being built, or without its result having been taken", A.loc(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else None)
        bad = S.jobs.dropped(f, every)
        R.obl(not bad, "results", "kept futures", "the outcome of a build is forgotten", A.loc(min(bad)) if bad else "")
    scans = S.jobs.running(SCANF)
    for f in scans:
        bad = S.jobs.undrained(f, S.subs | every)
        R.obl(not bad, "results", "scans", "files are built or graphs stored although the result of a scan was not taken", A.loc(min(bad)) if bad else "")
        bad = S.jobs.dropped(f, S.subs | every)
        R.obl(not bad, "results", "kept scans", "the outcome of a scan is forgotten", A.loc(min(bad)) if bad else "")
    # scheduled
    start = A.start(A.eid[HOTF])
    none = S.empty(S.waiting)
    bad = F.guarded(every, none, start=start)
    R.obl(bool(S.waiting) and not bad, "scheduled", "waiting files", "a graph can be stored while files wait for being rebuilt", A.loc(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else None)
    drops_ = {s for s, c, k in S.drops if c in S.waiting and s in S.loop}
    fill = {s for s, c, k, v, x in S.puts if c in S.batch} | S.subs
    heads = {s for s in F.node_states("next") if s in S.loop}
    for s in sorted(drops_):
        before = s not in F.reach(heads, stop_node=lambda x: x in fill) - heads
        nxt = F.reach([t for t, l in I.succ[s] if l != "exc"], stop_node=lambda x: x in fill)
        lost = not before and (nxt & (every | {s})) and not chosen(A, S, s)
        R.obl(not lost, "scheduled", "leaves the waiting files in " + I.func(s).name, "a file stops waiting without being handed to a builder", A.loc(s))
    # propagated
    ends = set(A.exits(A.eid[HOTF]))
    work = {s for f in S.futs + scans for s in S.jobs.takers(f) | S.jobs.gathers(f)}
    failed = {t for s in work | {x for f in S.futs + scans for x in S.jobs.subs[f]} for t, l in I.succ[s] if l == "exc"} - work
    for s in sorted(work):
        out = [t for t, l in I.succ[s] if l == "exc"]
        r = F.reach(out)
        hit = r & (every | ends)
        R.obl(not hit, "propagated", "failure in " + I.func(s).name, "a failed scan or build is passed over", A.loc(s))
    for q, op, to in ((COLDF, HOTF, "cold rebuild"), (BUILD, COLDF, "command")):
        A2 = Ana(R.p, [(q, {}, None)], opaque=OPAQUE + (op, EXTF, HOTF, "vanillaplusjs.runners.build.detect_symlink_support"))
        R.uses(A2)
        calls = set(A2.named(op))
        took = set()
        for s in sorted(A2.F.node_states("await")):
            if any(is_call_of(t, op) for t in A2.I.rv(s, A2.I.node(s).a["v"])):
                took.add(s)
        for s, f, args, kws, e in A2.F.calls():
            name = f.a[1] if f.k == "meth" else str(f.a[0]) if f.k == "ext" else ""
            if name in ("run_until_complete", "asyncio.run", "run") and any(is_call_of(t, op) for a in args for t in a):
                took.add(s)
        R.obl(bool(took), "propagated", "%s: outcome" % to, "the outcome of the rebuild is not looked at", A2.loc(min(calls)) if calls else "")
        ends2 = set(A2.exits(A2.eid[q]))
        bad = A2.F.guarded(ends2, A2.done(took), kill=lambda s: s in calls, start={t for s in calls for t, l in A2.I.succ[s] if l != "exc"})
        R.obl(not bad, "propagated", "%s: always" % to, "the %s can end without looking at the outcome of the rebuild" % to, A2.loc(min(bad)) if bad else "")
        r = A2.F.reach([t for s in calls | took for t, l in A2.I.succ[s] if l == "exc"])
        hit = r & ends2
        R.obl(not hit, "propagated", to, "a failed rebuild ends the %s normally" % to, A2.loc(min(calls)) if calls else "")
        for e in A2.F.effects():
            if e.kind in ("write", "remove", "rename", "rmtree", "save", "copy", "symlink") and any(stored(t) for t in e.path):
                R.bad("kept", "%s in %s" % (e.kind, A2.I.func(e.sid).name), "a stored graph is changed outside of a finished rebuild", A2.loc(e.sid))
    for e in effs:
        if e.sid not in every and e.kind in ("write", "remove", "rename", "rmtree", "save", "copy", "symlink", "touch") and any(stored(t) for t in e.path):
            R.bad("kept", "%s in %s" % (e.kind, I.func(e.sid).name), "a stored graph is changed before the rebuild has finished", A.loc(e.sid))
        elif e.kind in ("rmtree",) and any(whole(t) for t in e.path):
            R.bad("kept", "%s in %s" % (e.kind, I.func(e.sid).name), "the folder of the stored graphs is removed", A.loc(e.sid))
    # cleaned
    tail = F.reach({t for s in every for t, l in I.succ[s]}) if every else set()
    for e in effs:
        if e.sid in tail and e.sid not in every and e.kind in MUTATING and e.kind != "mkdir" and any(not state(t) for t in e.path):
            R.bad("cleaned", "%s in %s" % (e.kind, I.func(e.sid).name), "outputs are changed after a graph was stored", A.loc(e.sid))
    takers = {s for f in S.futs for s in S.jobs.takers(f)}
    before = F.reach(S.subs, back=True)
    rem = {e.sid for e in effs if e.kind == "remove" and e.sid not in before and not any(state(t) for t in e.path)}
    R.obl(bool(rem), "cleaned", "removal", "stale artifacts are not removed once everything was rebuilt", "")
    if rem:
        done = {s for s in F.node_states("next") if rem & F.reach([t for t, l in I.succ[s] if l == "item"], stop_node=lambda x: x == s)}
        inner = done - before
        gen = lambda s, t, l: s in inner and l == "done"
        out = {t for s in S.subs for t, l in I.succ[s] if l != "exc"}
        bad = F.guarded(every, gen, kill=lambda s: s in S.subs, start=start)
        R.obl(bool(inner) and not bad, "cleaned", "before storing", "a graph can be stored before all stale artifacts were removed", A.loc(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else None)
        need = outputs_kept(A, S)
        inneed = A.holds(lambda x, v: x.k == "cmp" and x.a[0] == "In" and v and x.a[2] in need)
        for s in sorted(inner):
            # each round removes or finds the file gone
            items = [t for t, l in I.succ[s] if l == "item"]
            r = F.reach(items, stop_edge=lambda a, b, l: a in rem or gone(A, a, l) or inneed(a, b, l))
            R.obl(s not in r, "cleaned", "each stale artifact", "some stale artifacts are passed over", A.loc(s))
    # stored
    for g, at in stores.items():
        one = F.guarded(ends, lambda s, t, l: s in at and l not in ("exc", "call"), start={t for s in S.loop for t, l in I.succ[s] if t not in S.loop and l != "exc"} or start)
        R.obl(not one, "stored", g + ": always", "a rebuild can end without storing the %s" % g.replace("_", " "), A.loc(min(one)) if one else "")
    written = {}
    for s, f, args, kws, e in F.calls():
        if f.k == "bound" and f.a[1].endswith(".store") and args:
            for t in args[0]:
                if t.k == "file":
                    for g in GRAPHS:
                        if isinstance(t.a[0], T) and stored(t.a[0]) and any(isstr(x) and g in cval(x) for x in parts(t.a[0])):
                            written.setdefault(g, set()).add(f.a[0])
    if len(written) == 3:
        for g, objs in written.items():
            R.obl(len(objs) == 1 and not any(objs & o for h, o in written.items() if h != g), "stored", g + ": own graph", "the file of the %s gets another graph" % g.replace("_", " "), "")


def is_call_of(t, q):
    if t.k in ("call", "coro") and any(x == q.split(".")[-1] or x == q for x in t.a[:1]):
        return True
    if t.k in ("call", "meth") and any(str(x).split(".")[-1] in ("create_task", "ensure_future", "shield", "wait_for") for x in t.a if isinstance(x, str)):
        return any(isinstance(x, T) and is_call_of(x, q) for x in t.a)
    return False


def final(t, g):
    """The file a graph is loaded from."""
    ps = parts(t)
    return bool(ps) and isstr(ps[-1]) and cval(ps[-1]).endswith(g + ".json")


def stored(t):
    return any(final(t, g) for g in GRAPHS)


def state(t):
    """Part of the stored state, or a file which becomes it."""
    ps = parts(t)
    return bool(ps) and any(isstr(x) and any(g in cval(x) for g in GRAPHS + ("js_constants_mode",)) for x in ps)


def whole(t):
    ps = parts(t)
    return bool(ps) and isstr(ps[-1]) and cval(ps[-1]).strip("/") == "out"


def gone(A, s, l):
    at = A.F.edge_atoms(s, l)
    return bool(at) and all(not v and x.k == "call" and str(x.a[0]).split(".")[-1] in ("exists", "lexists", "isfile") for x, v in at)


def chosen(A, S, s):
    """What leaves comes from a collection which is filled in rounds in which a builder gets the file as well."""
    I, F, L = A.I, A.F, Loops(A)
    sub = lambda a, b, l: a in S.subs and l != "exc"
    for lp in L.of(s)[:1]:
        hs = L.states(lp)
        if I.node(hs[0]).op != "next":
            return False
        cs = {base(t) for h in hs for t in I.rv(h, I.node(h).a["it"])}
        puts = {q for q, c, k, v, x in S.puts if c in cs and q in S.loop}
        ok = bool(puts)
        for q in puts:
            ls = [x for x in L.of(q)[:1] if any(L.within(u, x) for u in S.subs)]
            ok = ok and bool(ls)
            for x in ls:
                h2 = set(L.states(x))
                ok = ok and (not F.guarded([q], sub, kill=lambda y: y in h2, start=[t for h in h2 for t, l in I.succ[h] if l == "item"]) or not F.reach([t for t, l in I.succ[q] if l != "exc"], stop_edge=sub) & h2)
        return ok
    return False


def outputs_kept(A, S):
    """Containers of what builders produced or reused, filled while building."""
    I, flow = A.I, S.flow
    out = set()
    for s, c, k, v, x in S.puts:
        n = I.node(s)
        if s not in S.loop or c.k not in ("set", "list", "dict") or n.op not in ("call", "augop", "setsub"):
            continue
        cid, pc = I.states[s][:2]
        regs = [r for r in n.a.get("args", ()) if isinstance(r, str)] if n.op == "call" else [n.a["r"]] if n.op == "augop" else [n.a["idx"]]
        sl = {y for r in regs for y in flow.slice(cid, pc, r, stop=lambda c, p, m: m.op == "attr")}
        if any(flow.node(*y).op == "attr" and flow.node(*y).a["name"] in ("produced", "reused") for y in sl):
            out.add(c)
    return out
