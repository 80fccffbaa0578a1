"""C30: outputs still needed by another source file survive a rebuild."""
from engine.q import *
from engine.loops import Loops
from .hot_common import *
from .fs_common import found_empty
from .sched_common import Sched, base
from .c28 import is_param, GRAPHC

TECHNIQUE = "worklist and guard analysis of the rebuild: whatever is put among the outputs to clean has all its recorded producers put among the files to rebuild, and what a builder produced or reused leaves the artifacts to remove; data slices for what is recorded as produced"


def check(R):
    R.rule("producers", "for everything put among the outputs and artifacts to clean, each recorded producer is put among the files to rebuild")
    R.rule("fixpoint", "nothing is removed or built before the files to rebuild are closed under this")
    R.rule("rebuilt", "every file to rebuild which was not deleted waits for being built")
    R.rule("needed", "an artifact which a builder produced or reused is not removed")
    R.rule("recorded", "the stored outputs of a file are what its builder produced and reused, or what was stored before if it was not rebuilt")
    A = hot(R)
    I, F = A.I, A.F
    S = Sched(A); L = Loops(A); flow = S.flow
    ps = R.p.funcs[HOTF].params()
    R.need("files handed to builders", len(S.subs))
    before = F.reach(S.subs, back=True)
    effs = F.effects()
    rem = {}
    for e in effs:
        if e.kind == "remove" and A.I.node(e.sid).op == "call" and not any(state_file(t) for t in e.path):
            rem[e.sid] = removed_from(A, flow, e.sid)
    pre = {s for s in rem if s in before}
    for s in pre:
        rem[s] |= copied(A, flow, s)
    post = {s for s in rem if s not in before}
    # what is put among the things to clean
    puts_ = []
    for s, c, k, v, x in S.puts:
        pass
    clean = {c for s in rem for c in rem[s]}
    grown = set(clean)
    while True:
        more = {y for s, c, k, v, x in S.puts if c in grown for y in x if y.k in ("set", "list", "dict")} - grown
        if not more:
            break
        grown |= more
    first = [(s, c) for s, c, k, v, x in S.puts if c in grown and s in before and s not in S.loop and not (x & grown) and from_outputs(A, flow, s, ps)]
    R.obl(bool(first), "producers", "outputs to clean", "the outputs of what is rebuilt are not cleaned", "")
    # worklists: filled and emptied before
    dropped = {c for s, c, k in S.drops if s in before and s not in S.loop}
    work = {c for c in dropped if any(c2 is c for s, c2, k, v, x in S.puts)}
    # producers which are gathered in a container of their own
    gath = {}
    for s, c, k, v, x in S.puts:
        n = I.node(s)
        if s in before and s not in S.loop and c not in work and n.op == "call" and n.a["args"] and any(f.k in ("meth", "attr") and f.a[1] in ("update", "extend") for f in I.rv(s, n.a["f"])):
            cid, pc = I.states[s][:2]
            if any(calls_on(A, flow, c2, p, ps[2], "get_parents") for c2, p in flow.slice(cid, pc, n.a["args"][-1], stop=lambda c, p, n: n.op == "call")):
                gath.setdefault(c, set()).add(s)
    less_ = {}
    for s, o, l, r in differences(A):
        less_.setdefault(o, []).append((l, r))
    through = {}
    loops = {}
    for s in F.node_states("next"):
        if s in S.loop or s not in before:
            continue
        cid, pc = I.states[s][:2]
        it = I.rv(s, I.node(s).a["it"])
        for g in gath:
            if g in it or any(g in l for o in it for l, r in less_.get(o, ())):
                loops.setdefault((cid, pc), set()).add(s)
                through[s] = g
        if (cid, pc) in loops:
            loops[(cid, pc)].add(s)
        else:
            sl = flow.slice(cid, pc, I.node(s).a["it"], stop=lambda c, p, n: n.op == "call")
            if any(calls_on(A, flow, c, p, ps[2], "get_parents") for c, p in sl):
                loops[(cid, pc)] = {s}
    good = set()
    wl = set()
    seenc = set()
    for lp, hs in loops.items():
        into = {}
        for s, c, k, v, x in S.puts:
            if L.within(s, lp):
                into.setdefault(c, set()).add(s)
        wputs = {s for c in into if c in work for s in into[c]}
        vis = {c for c in into if c not in work} | {c for c in into}
        inv = A.holds(lambda x, v: x.k == "cmp" and x.a[0] == "In" and (v and x.a[2] in vis or v and is_param(x.a[2], ps[6])))
        items = [t for s in hs for t, l in I.succ[s] if l == "item"]
        r = F.reach(items, stop_edge=lambda a, b, l: a in wputs and l != "exc" or inv(a, b, l))
        ok = bool(wputs) and not (r & hs)
        for h in hs & set(through):
            g = through[h]
            for o in I.rv(h, I.node(h).a["it"]):
                ok = ok and (o is g or o in less_)
                for l, r2 in less_.get(o, ()):
                    # what is left out has been visited or was deleted
                    ok = ok and all(t in vis or is_param(t, ps[6]) for t in r2)
            made = {q for q in range(len(I.states)) if I.node(q).dst is not None and I.node(q).op in ("build", "call") and q in before
                    and any(g in I.rv(t, I.node(q).dst) for t, l in I.succ[q] if l not in ("exc", "call"))}
            lost = F.reach([t for q in gath[g] for t, l in I.succ[q] if l != "exc"], stop_edge=lambda a, b, l: a in hs and l == "done")
            ok = ok and not (lost & (made | S.subs | pre))
        # what is remembered as seen is what gets rebuilt
        if ok:
            good |= hs
            wl |= {c for c in into if c in work}
            seenc |= {c for c in into if c not in work}
    R.obl(bool(good), "producers", "other producers", "the other producers of what is cleaned are not rebuilt", "")
    taken = {q for h in good & set(through) for q in gath[through[h]]}
    gone = lambda s, t, l: s in good and s not in through and l == "done" or s in taken and l != "exc"
    whole = set()
    for s in F.node_states("next"):
        if s in before and s not in S.loop and s not in good:
            cid, pc = I.states[s][:2]
            if any(base(t) in grown or t in grown for t in I.rv(s, I.node(s).a["it"])) or any(calls_on(A, flow, c, p, ps[2], "get_children") for c, p in flow.slice(cid, pc, I.node(s).a["it"], stop=lambda c, p, n: n.op == "call")):
                if s not in F.reach([t for t, l in I.succ[s] if l == "item"], stop_edge=gone):
                    whole.add(s)
    stop = lambda s, t, l: gone(s, t, l) or s in whole and l == "done"
    for s in sorted({s for s, c in first}):
        hs = {h for lp in L.of(s)[:1] for h in L.states(lp)}
        # looked at before in the same round, or afterwards
        early = not F.guarded([s], gone, kill=lambda q: q in hs, start=[t for h in hs for t, l in I.succ[h] if l == "item"]) if hs else False
        r = F.reach([t for t, l in I.succ[s] if l != "exc"], stop_edge=stop)
        hit = r & (pre | S.subs)
        R.obl(early or not hit, "producers", "put in " + I.func(s).name, "an output is cleaned without its other producers being rebuilt", A.loc(s))
    # fixpoint
    if wl:
        none = S.empty(wl)
        wputs = {s for s, c, k, v, x in S.puts if c in wl}
        bad = F.guarded(pre | S.subs, none, kill=lambda s: s in wputs, start=A.start(A.eid[HOTF]))
        R.obl(not bad, "fixpoint", "worklist", "outputs are cleaned or files built before all files to rebuild are known", A.loc(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())
        late = [s for s, c in first if F.guarded([s], lambda a, b, l: False, start=[t for q in pre for t, l in I.succ[q]])]
        R.obl(not late, "fixpoint", "cleaning", "outputs are put among those to clean after cleaning began", A.loc(late[0]) if late else "")
        for s, c, k in S.drops:
            if c in wl:
                pass
    # rebuilt
    fills = {}
    for s, c, k, v, x in S.puts:
        if c in S.waiting and s not in S.loop:
            fills.setdefault(s, set()).update(x)
    ok = False
    less = {o for s, o, l, r in differences(A) if l & seenc and all(is_param(t, ps[6]) or any(isinstance(y, T) and is_param(y, ps[6]) for y in t.a) or t.k == "set" for t in r)}
    for s in fills:
        if fills[s] & (seenc | less):
            ok = True
            continue
        for lp in L.of(s)[:1]:
            hs = set(L.states(lp))
            if any(base(t) in seenc or t in seenc for h in hs for t in I.rv(h, I.node(h).a.get("it", "")) if I.node(h).op == "next"):
                dele = A.holds(lambda x, v: x.k == "cmp" and x.a[0] == "In" and v and (is_param(x.a[2], ps[6]) or any(isinstance(y, T) and is_param(y, ps[6]) for y in x.a[2].a)))
                r = F.reach([t for h in hs for t, l in I.succ[h] if l == "item"], stop_edge=lambda a, b, l: a in fills and l != "exc" or dele(a, b, l))
                if not (r & hs):
                    ok = True
    if S.waiting & (seenc | less):
        ok = True
    R.obl(ok, "rebuilt", "waiting files", "not every file to rebuild waits for being built", "")
    trees(R, A, effs)
    needed(R, A, S, L, rem, post, before)
    recorded(R, A, S, L, ps)


def trees(R, A, effs):
    """A folder is not removed together with whatever it contains."""
    for sid in sorted({e.sid for e in effs if e.kind == "rmtree"}):
        bad = not found_empty(A, sid)
        R.obl(not bad, "needed", "folder in " + A.I.func(sid).name, "a folder is removed with everything in it", A.loc(sid))


def state_file(t):
    ps = parts(t)
    return bool(ps) and isstr(ps[-1]) and cval(ps[-1]).endswith((".json", ".txt"))


def removed_from(A, flow, s):
    """Containers whose elements name what a call removes."""
    I = A.I
    cid, pc = I.states[s][:2]
    n = I.node(s)
    out = set()
    regs = [r for r in n.a["args"] if isinstance(r, str)] or [n.a["f"]]
    for r in regs:
        for c, p in flow.slice(cid, pc, r, stop=lambda c, p, m: m.op == "next"):
            m = flow.node(c, p)
            if m.op == "next":
                for t in flow.vals(c, p, m.a["it"]):
                    b = base(t)
                    out.add(b if b is not None else t)
                    if t.k in ("call", "meth"):
                        out |= {y for y in t.a if isinstance(y, T)}
    # chained iterables
    for o in list(out):
        out |= {y for y in subterms(o) if y.k in ("set", "list", "dict")}
    return {o for o in out if o.k in ("set", "list", "dict")}


def copied(A, flow, s):
    """Containers the one a removal goes through was copied from."""
    cid, pc = A.I.states[s][:2]
    n = A.I.node(s)
    out = set()
    for r in [r for r in n.a["args"] if isinstance(r, str)] or [n.a["f"]]:
        for c, p in flow.slice(cid, pc, r, stop=lambda c, p, m: m.op == "call" and any(f.k != "ext" for q in flow.at[(c, p)] for f, a, k, e in A.I.calls.get(q, ()))):
            m = flow.node(c, p)
            if m.op == "call" and flow.wraps(c, p):
                out |= {t for a in m.a["args"] if isinstance(a, str) for t in flow.vals(c, p, a) if t.k in ("set", "list", "dict")}
    return out


def calls_on(A, flow, c, p, param, meth):
    n = flow.node(c, p)
    if n.op != "call":
        return False
    return any(f.k == "bound" and f.a[1] == GRAPHC + meth and is_param(f.a[0], param) for s in flow.at[(c, p)] for f, a, k, e in A.I.calls.get(s, ()))


def from_outputs(A, flow, s, ps):
    """Is what is put into a container made from the recorded outputs?"""
    cid, pc = A.I.states[s][:2]
    n = A.I.node(s)
    regs = [n.a["src"]] if n.op in ("accadd",) else [n.a["idx"]] if n.op == "setsub" else [r if isinstance(r, str) else r[1] for r in n.a.get("args", ())] if n.op == "call" else [n.a["r"]] if n.op == "augop" else []
    for r in regs:
        if any(calls_on(A, flow, c, p, ps[2], "get_children") for c, p in flow.slice(cid, pc, r, stop=lambda c, p, m: m.op == "call" and not flow.wraps(c, p))):
            return True
    return False


def needed(R, A, S, L, rem, post, before):
    """What was produced or reused is taken out of the artifacts to remove."""
    I, F, flow = A.I, A.F, S.flow
    conts = {c for s in post for c in rem[s]}
    R.obl(bool(post), "needed", "removal", "stale artifacts are not removed", "")
    if not post:
        return
    # ancestors by copying which are emptied
    emptied = {c for s, c, k in S.drops}
    while True:
        more = {y for s, c, k, v, x in S.puts if c in conts and c not in emptied for y in x} - conts
        if not more:
            break
        conts |= more
    dirty = {c for c in conts}
    disjoint = {y for s in rem if s in before for y in rem[s]}
    copies = set(disjoint)
    for s, c, k, v, x in S.puts:
        if x & disjoint:
            copies.add(c)
    copies -= conts
    drops_ = {s for s, c, k in S.drops if c in dirty and s in S.loop}
    takers = {t for f in S.futs for t in S.jobs.takers(f)}
    # filtered when removing: the removal itself is guarded by not being needed
    for what in ("produced", "reused"):
        notin = A.holds(lambda x, v: x.k == "cmp" and x.a[0] == "In" and (not v and x.a[2] in dirty or v and x.a[2] in copies))
        hs = set()
        reads = {q for (c, p), qs in flow.at.items() if flow.node(c, p).op == "attr" and flow.node(c, p).a["name"] == what for q in qs}
        for s in S.loop:
            if I.node(s).op == "next":
                cid, pc = I.states[s][:2]
                sl = flow.slice(cid, pc, I.node(s).a["it"], stop=lambda c, p, n: n.op in ("attr", "next"))
                if any(flow.node(c, p).op == "attr" and flow.node(c, p).a["name"] == what for c, p in sl):
                    r = F.reach([t for t, l in I.succ[s] if l == "item"], stop_edge=lambda a, b, l: a in drops_ and l != "exc" or notin(a, b, l))
                    if s not in r:
                        hs.add(s)
        bulk = set()
        for s in drops_:
            n = I.node(s)
            if n.op in ("call", "augop"):
                cid, pc = I.states[s][:2]
                for r in ([x for x in n.a.get("args", ()) if isinstance(x, str)] if n.op == "call" else [n.a["r"]]):
                    if any(flow.node(c, p).op == "attr" and flow.node(c, p).a["name"] == what for c, p in flow.slice(cid, pc, r, stop=lambda c, p, n: n.op in ("attr", "next"))):
                        if n.op == "augop" or any(f.k in ("meth", "attr") and f.a[1] == "difference_update" for f, a, k, e in I.calls.get(s, ())):
                            bulk.add(s)
        gen = lambda s, t, l: s in hs and l == "done" or s in bulk and l != "exc"
        sel = {h for t in takers for s in drops_ for lp in [L.common(s, t)] if lp for h in L.states(lp)}
        start = {t for s in takers for t, l in I.succ[s] if l != "exc"}
        # marked in a container which the removal looks into
        unread = F.guarded(hs | bulk, lambda s, t, l: s in reads and l != "exc", kill=lambda s: s in takers, start=start)
        hs -= unread; bulk -= unread
        marks = marked(A, S, L, what, post)
        if marks:
            gen2 = lambda s, t, l: gen(s, t, l) or s in marks and l != "exc" and I.node(s).op != "next" or s in marks and l == "done"
        else:
            gen2 = gen
        bad = F.guarded(post | sel, gen2, kill=lambda s: s in takers, start=start)
        R.obl(not bad, "needed", what, "an artifact can be removed although a builder has %s it" % what, A.loc(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())


def marked(A, S, L, what, post):
    """States recording what was produced in a container; the removal happens only for what is not there."""
    I, F, flow = A.I, A.F, S.flow
    out = set()
    for s, c, k, v, x in S.puts:
        if s not in S.loop or c.k not in ("set", "list"):
            continue
        n = I.node(s)
        if n.op not in ("call", "augop"):
            continue
        cid, pc = I.states[s][:2]
        regs = [r for r in n.a.get("args", ()) if isinstance(r, str)] if n.op == "call" else [n.a["r"]]
        sl = set()
        for r in regs:
            sl |= flow.slice(cid, pc, r, stop=lambda c, p, n: n.op == "attr")
        if not any(flow.node(c2, p).op == "attr" and flow.node(c2, p).a["name"] == what for c2, p in sl):
            continue
        notin = A.holds(lambda x, v: x.k == "cmp" and x.a[0] == "In" and not v and x.a[2] is c)
        hs = {h for p in post for lp in L.of(p)[:1] for h in L.states(lp)}
        if not F.guarded(post, notin, kill=lambda q: q in hs, start=[t for h in hs for t, l in I.succ[h] if l == "item"]):
            bulk = n.op == "augop" or any(f.k in ("meth", "attr") and f.a[1] in ("update", "extend") for f, a, kk, e in I.calls.get(s, ()))
            if bulk:
                out.add(s)
            else:
                for lp in L.of(s)[:1]:
                    for h in L.states(lp):
                        if I.node(h).op == "next" and h not in F.reach([t for t, l in I.succ[h] if l == "item"], stop_edge=lambda a, b, l: a == s and l != "exc"):
                            out.add(h)
    return out


def recorded(R, A, S, L, ps):
    I, F, flow = A.I, A.F, S.flow
    graphs = set()
    for s, f, args, kws, e in F.calls():
        if f.k == "bound" and f.a[1] == GRAPHC + "store" and args:
            for t in args[0]:
                if t.k == "file" and isinstance(t.a[0], T):
                    q = parts(t.a[0])
                    if q and isstr(q[-1]) and cval(q[-1]).endswith("output_graph.json"):
                        graphs.add(f.a[0])
    sets = {}
    for s, f, args, kws, e in F.calls():
        if f.k == "bound" and f.a[1] == GRAPHC + "set_children" and f.a[0] in graphs:
            sets[s] = True
    R.obl(bool(sets), "recorded", "outputs", "what files produce is not stored", "")
    for s in sorted(sets)[:]:
        cid, pc = I.states[s][:2]
        n = I.node(s)
        regs = [r for r in n.a["args"][1:] if isinstance(r, str)] + [r for k, r in n.a["kws"] if k == "children"]
        sl = set()
        for r in regs:
            sl |= flow.slice(cid, pc, r)
        rd = {}
        for c, p in sl:
            m = flow.node(c, p)
            if m.op == "attr" and m.a["name"] in ("produced", "reused"):
                rd.setdefault(m.a["name"], set()).update(flow.at[(c, p)])
            if calls_on(A, flow, c, p, ps[2], "get_children"):
                rd.setdefault("old", set()).update(flow.at[(c, p)])
            if m.op == "slice":
                R.bad("recorded", "part", "only a part of what a file produced is stored", A.loc(flow.at[(c, p)][0]))
        hs = {h for lp in L.of(s)[:1] for h in L.states(lp)}
        start = [t for h in hs for t, l in I.succ[h] if l == "item"]
        done = S.done
        def isin(cs, truth, x, v):
            return x.k == "cmp" and x.a[0] == "In" and v == truth and (x.a[2] in cs or any(isinstance(y, T) and y in cs for y in x.a[2].a))
        no = A.holds(lambda x, v: isin(done, False, x, v))
        yes = A.holds(lambda x, v: isin(done, True, x, v) or (x.k == "cmp" and x.a[0] == "In" and not v and is_param_in(x.a[2], ps[2])))
        def absent(truth):
            def gen(a, b, l):
                if not got(A, flow, a, done):
                    return False
                at = F.edge_atoms(a, l)
                return bool(at) and all((not v if x.k == "cmp" and x.a[0] == "Eq" and NONE in x.a[1:] else v) == truth for x, v in at)
            return gen
        pres, abse = absent(True), absent(False)
        for what in ("produced", "reused"):
            at = rd.get(what, set())
            bad = F.guarded([s], lambda a, b, l: a in at and l != "exc" or no(a, b, l) or abse(a, b, l), kill=lambda q: q in hs, start=start)
            R.obl(bool(at) and not bad, "recorded", what, "what a builder has %s is not stored" % what, A.loc(s))
        at = rd.get("old", set())
        bad = F.guarded([s], lambda a, b, l: a in at and l != "exc" or yes(a, b, l) or pres(a, b, l), kill=lambda q: q in hs, start=start)
        R.obl(bool(at) and not bad, "recorded", "previous", "the stored outputs of a file which was not rebuilt are lost", A.loc(s))
    # each file
    hs = {h for s in sets for lp in L.of(s)[:1] for h in L.states(lp)}
    for h in sorted(hs):
        r = F.reach([t for t, l in I.succ[h] if l == "item"], stop_edge=lambda a, b, l: a in sets and l != "exc")
        R.obl(h not in r, "recorded", "each file", "the outputs of some files are not stored", A.loc(h))
    # kept nodes
    for s, f, args, kws, e in F.calls():
        if f.k == "bound" and f.a[1] == GRAPHC + "remove_file" and f.a[0] in graphs:
            none = set()
            for q in range(len(I.states)):
                if F.is_branch(q):
                    cid, pc = I.states[q][:2]
                    sl = flow.slice(cid, pc, I.node(q).a["c"], stop=lambda c, p, n: n.op == "call")
                    for c, p in sl:
                        if flow.node(c, p).op == "call" and any(f2.k == "bound" and f2.a[1] == GRAPHC + "get_parents" and f2.a[0] in graphs for z in flow.at[(c, p)] for f2, a2, k2, e2 in I.calls.get(z, ())):
                            for t, l in I.succ[q]:
                                at = F.edge_atoms(q, l)
                                if at and all((emptiness(x, v) or (None, not v))[1] for x, v in at):
                                    none.add((q, l))
            hs2 = {h for lp in L.of(s)[:1] for h in L.states(lp)}
            bad = F.guarded([s], lambda a, b, l: (a, l) in none, kill=lambda q: q in hs2, start=[t for h in hs2 for t, l in I.succ[h] if l == "item"] or None)
            R.obl(not bad, "recorded", "forgotten outputs", "an output which is still produced is forgotten", A.loc(s))


def is_param_in(t, name):
    return is_param(t, name) or any(isinstance(y, T) and is_param(y, name) for y in t.a)


def got(A, flow, s, done):
    if not A.F.is_branch(s):
        return False
    cid, pc = A.I.states[s][:2]
    for c, p in flow.slice(cid, pc, A.I.node(s).a["c"], stop=lambda c, p, n: n.op == "call"):
        if flow.node(c, p).op == "call":
            for q in flow.at[(c, p)]:
                for f, a, k, e in A.I.calls.get(q, ()):
                    if f.k in ("meth", "attr") and f.a[1] in ("get",) and f.a[0] in done:
                        return True
    return False
