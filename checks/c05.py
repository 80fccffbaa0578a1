"""C05: a failed rebuild in watch mode loses no file event and is contained."""
from engine.q import *
from .dev_common import *

TECHNIQUE = "typestate over the interprocedural control-flow graph of the watcher: taken-and-cleared in one lock hold, contained failures, and put-back loops whose iterations are checked path by path"

COPIES = ("set", "list", "frozenset", "sorted", "tuple", "copy.copy", "copy.deepcopy", "dict.fromkeys")
# environment calls whose failure the guarantee does not cover
ENV = ("asyncio.new_event_loop", "asyncio.set_event_loop", "asyncio.get_event_loop", "asyncio.set_event_loop_policy", "asyncio.get_event_loop_policy")
ENVM = ("close", "shutdown_asyncgens", "acquire", "release", "stop")


def check(R):
    R.rule("taken-atomically", "pending events are only removed wholesale in the critical section which copied or loaded them")
    R.rule("handed-over", "the taken events of every kind reach the rebuild")
    R.rule("contained", "no exception leaves the rebuild method, and the watch loop does not end because of its outcome")
    R.rule("put-back", "every path on which the rebuild did not finish passes, for every kind of taken event, a loop putting each event back unless it no longer matches the disk or is pending already")
    R.rule("blocked", "after a failure the project is marked unbuildable, which prevents the next take-over, and every recorded event removes the mark")
    R.rule("recorded", "every callback records its event")
    hs = handler_class(R.p)
    R.need("file event handlers", len(hs))
    for cls in hs:
        one(R, cls)


def deep(A, terms, d=6):
    """Terms stored anywhere inside of the given values."""
    out, work = set(), [(t, d) for t in terms]
    while work:
        t, d = work.pop()
        if t in out or d < 0:
            continue
        out.add(t)
        for x in subterms(t):
            if x is not t and x not in out:
                work.append((x, d - 1))
        for fld in ("*", "*k", "*v"):
            for x in A.V(t, fld):
                work.append((x, d - 1))
    return out


class View:
    """What one analysis of the handler knows about its fields."""

    def __init__(self, H, A, pend=None):
        self.H, self.A, self.I, self.F = H, A, A.I, A.F
        I = A.I
        self.cbq = {m.qual for m in H.callbacks}
        self.held, _ = held_states(H, lock_types(H.p, H.cls))
        self.adds, self.loads, self.attrw = {}, {}, {}
        # the containers stored in fields
        self.cont = {}
        for key in list(I.V):
            if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], T) and isinstance(key[1], str) and H.base_loc(key[0]) is not None:
                for v in I.V[key]:
                    if v.k in ("set", "list", "dict"):
                        self.cont.setdefault(v, set()).add(H.base_loc(key[0]) + (key[1],))
        self.cont = {v: next(iter(x)) for v, x in self.cont.items() if len(x) == 1}
        for sid, rec in I.calls.items():
            for f, a, k, e in rec:
                if f.k == "meth" and H.loc_of(f.a[0]) is not None and f.a[1] in ("add", "append", "update", "extend", "__ior__", "appendleft"):
                    vals = frozenset().union(*a) if a else frozenset()
                    self.adds.setdefault(sid, []).append((H.loc_of(f.a[0]), vals, f.a[1]))
        for s in range(len(I.states)):
            n = I.node(s)
            if n.op in ("attr", "setattr"):
                for t in I.rv(s, n.a["obj"]):
                    b = H.base_loc(t)
                    if b is not None:
                        (self.loads if n.op == "attr" else self.attrw).setdefault(s, set()).add(b + (n.a["name"],))
            elif n.op == "setsub":
                for t in I.rv(s, n.a["obj"]):
                    if H.loc_of(t) is not None:
                        self.adds.setdefault(s, []).append((H.loc_of(t), I.rv(s, n.a["idx"]), "setitem"))
        self.inner = {}
        if pend is None:
            for s, xs in self.adds.items():
                if self.root(s).qual not in self.cbq:
                    continue
                for l, vals, m in xs:
                    if any(has(v, lambda x: x.k == "attr" and x.a[1] in ("src_path", "dest_path")) for v in vals):
                        nm = [n for n in (I.ctxs[c].func.name for c in A.ancestors(s)) if n.startswith("on_")]
                        self.inner.setdefault(l, set()).add(nm[0] if nm else "")
            self.pend = set(self.inner)
        else:
            self.pend = pend
        # kinds only the deletion callback records
        self.gone = {l for l, q in self.inner.items() if "on_deleted" in q and q <= {"on_deleted", "on_moved"}}
        self.base = {}
        for t in H.selfs:
            for l in self.pend:
                x = t
                for nme in l:
                    x = mk("attr", x, nme)
                self.base.setdefault(x, l)

    def in_ctor(self, s):
        return self.H.ctor is not None and any(self.I.ctxs[c].func is self.H.ctor for c in self.A.ancestors(s))

    def root(self, s):
        return self.I.ctxs[self.A.ancestors(s)[-1]].func

    def ploc(self, t):
        l = self.H.loc_of(t) or self.cont.get(t)
        return l if l in self.pend else None

    def from_(self, l=None):
        """Values which are taken events (of kind l)."""
        return lambda t: has(t, lambda x: x.k in ("elem", "key") and x.a[0] in self.base and l in (None, self.base[x.a[0]]))


def one(R, cls):
    dev = R.p.funcs.get(PKG + "runners.dev.dev")
    H = Handler(R.p, cls)
    A = H.analyse()
    R.uses(A)
    V = View(H, A)
    R.obl(V.pend, "recorded", cls.name, "no callback records anything")
    if not V.pend:
        return
    callbacks(R, V)
    L = Handler(R.p, cls)
    L.entries = [(m, None, cls) for m in L.loop]
    W = View(L, L.analyse(), V.pend)
    W.gone = V.gone
    R.uses(W.A)
    rebuild(R, W, V, dev)
    R.assume += ["the event loop can be created and closed; locks can be taken; sets of path strings can be updated"]


def callbacks(R, V):
    H, A, I, F, adds, pend, ploc = V.H, V.A, V.I, V.F, V.adds, V.pend, V.ploc
    # ---- callbacks
    stdcb = {"on_created": ["src_path"], "on_modified": ["src_path"], "on_deleted": ["src_path"], "on_moved": ["src_path", "dest_path"]}
    generic = any(m.name in ("on_any_event", "dispatch") for m in H.callbacks)
    for nm, ps in stdcb.items():
        ms = [m for m in H.callbacks if m.name == nm]
        if not ms:
            R.obl(generic, "recorded", nm, "the handler ignores these events")
            continue
        cid = A.eid[ms[0].qual]
        for p in ps:
            ev = lambda t, p=p, cid=cid: has(t, lambda x: x.k == "attr" and x.a[1] == p and x.a[0].k == "sym")
            rec = {s for s, xs in adds.items() if any(l in pend and any(ev(v) for v in vals) for l, vals, m in xs)}
            member = A.holds(lambda x, v: x.k == "cmp" and ((x.a[0] == "In" and v) or (x.a[0] == "NotIn" and not v)) and ploc(x.a[2]) is not None and ev(x.a[1]))
            isdir = A.holds(lambda x, v: v and x.k == "attr" and x.a[1] == "is_directory")
            ex = A.exits(cid, True, False)
            if V.gone and pend - V.gone:
                bad = lost(V, cid, ev, isdir, nm == "on_deleted" or nm == "on_moved" and p == "src_path")
            else:
                bad = F.guarded(ex, A.any(A.done(rec), member, isdir), start=A.start(cid))
            R.obl(not bad, "recorded", "%s of %s" % (p, nm), "the callback can return without recording the event", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())


def lost(V, cid, ev, isdir, gone):
    """Normal exits of a callback at which the event is not pending any more."""
    A, I, pend = V.A, V.I, V.pend
    good = V.gone if gone else pend - V.gone
    # kinds which modifications are recorded in: those files exist for the last build
    known = {l for l, q in V.inner.items() if "on_modified" in q}
    fresh = pend - V.gone - known
    put = {s for s, xs in V.adds.items() if any(l in good and any(ev(v) for v in vals) for l, vals, m in xs)}
    take = {}
    for s, rec in I.calls.items():
        for f, a, k, e in rec:
            if f.k == "meth" and V.ploc(f.a[0]) is not None and f.a[1] in ("remove", "discard", "pop") and a and any(ev(v) for v in a[0]):
                take.setdefault(s, set()).add(V.ploc(f.a[0]))
    def member(locs):
        return A.holds(lambda x, v: x.k == "cmp" and ((x.a[0] == "In" and v) or (x.a[0] == "NotIn" and not v)) and V.ploc(x.a[2]) in locs and ev(x.a[1]))
    # a file which was only created since the last build may be forgotten again
    removed = {s for s, rec in I.calls.items() if take.get(s, set()) & fresh and any(f.k == "meth" and f.a[1] == "remove" for f, a, k, e in rec)}
    known_in = A.any(member(good), member(fresh), A.done(removed)) if gone else member(good)
    kill = {s for s, ls in take.items() if ls & good}
    return V.F.guarded(A.exits(cid, True, False), A.any(A.done(put), known_in, isdir), start=A.start(cid), kill=lambda q: q in kill)


def rebuild(R, W, V, dev):
    H, A, I, F, adds, pend, ploc, from_, gone = W.H, W.A, W.I, W.F, W.adds, W.pend, W.ploc, W.from_, W.gone
    held, loads, attrw, in_ctor, root, cbq, cls = W.held, W.loads, W.attrw, W.in_ctor, W.root, W.cbq, W.H.cls
    # ---- the rebuild
    hot = A.named(HOT)
    R.obl(hot, "handed-over", "hot rebuild", "the watcher never starts the incremental rebuild")
    if not hot:
        return
    entries = {A.ancestors(s)[-1] for s in hot}
    clears = {}     # state -> (loc, how)
    copies = {}     # loc -> states
    for sid, rec in I.calls.items():
        for f, a, k, e in rec:
            if f.k == "meth":
                l = ploc(f.a[0])
                if l and f.a[1] in ("clear", "intersection_update", "difference_update"):
                    clears.setdefault(sid, []).append((l, "clear"))
                if l and f.a[1] in ("copy", "union", "__or__"):
                    copies.setdefault(l, set()).add(sid)
            for x in (list(a) + list(k.values())):
                for v in x:
                    l = ploc(v)
                    if l and ((f.k == "ext" and f.a[0] in COPIES) or (f.k == "meth" and f.a[1] in ("update", "extend", "union"))):
                        copies.setdefault(l, set()).add(sid)
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op == "next":
            for v in I.rv(s, n.a["it"]):
                if ploc(v):
                    copies.setdefault(ploc(v), set()).add(s)
        elif n.op in ("concat", "bin", "build"):
            for o in n.a.values():
                for x in (o if isinstance(o, (list, tuple)) else [o]):
                    if isinstance(x, str) and x.startswith(("%", "$")) or isinstance(x, str) and n.op != "build":
                        try:
                            vs = I.rv(s, x)
                        except Exception:
                            vs = ()
                        for v in vs:
                            if ploc(v):
                                copies.setdefault(ploc(v), set()).add(s)
    for s, ls in attrw.items():
        if in_ctor(s):
            continue
        for l in ls:
            if l in pend:
                clears.setdefault(s, []).append((l, "swap"))
    after_clear = set()
    for s, xs in sorted(clears.items()):
        for l, how in xs:
            tk = set(copies.get(l, ()))
            if how == "swap":
                tk |= {q for q, ls in loads.items() if l in ls}
            gen0 = A.done(tk)
            gen = lambda a, b, lab: gen0(a, b, lab) or (a in tk and lab != "exc")
            bad = F.guarded([s], gen, kill=lambda q: () in held.get(q, ()), start=A.start(A.ancestors(s)[-1]))
            R.obl(not bad, "taken-atomically", "%s in %s" % (".".join(l), I.func(s).qual), "pending events are discarded outside the critical section which took them over: an event arriving in between is lost", A.where(s))
        after_clear |= {t for t, lab in I.succ[s] if lab != "exc"}
    cleared = {l for xs in clears.values() for l, _ in xs}
    args = {}
    for s in hot:
        f, a, k, e = hot[s]
        allv = frozenset().union(*a, *k.values()) if a or k else frozenset()
        star = deep(A, allv)
        for l in pend:
            R.obl(any(from_(l)(x) for x in star), "handed-over", ".".join(l), "the taken events are not given to the rebuild", A.where(s))

    # ---- containment
    env = set()
    for sid, rec in I.calls.items():
        if all((f.k == "ext" and f.a[0] in ENV) or (f.k == "meth" and f.a[1] in ENVM) for f, a, k, e in rec):
            env.add(sid)
    # removing what was just found in the set
    for sid, rec in I.calls.items():
        for f, a, k, e in rec:
            if f.k == "meth" and f.a[1] == "remove" and ploc(f.a[0]) and a:
                isin = A.holds(lambda x, v: x.k == "cmp" and ((x.a[0] == "In" and v) or (x.a[0] == "NotIn" and not v)) and ploc(x.a[2]) == ploc(f.a[0]) and x.a[1] in a[0])
                if not F.guarded([sid], isin, kill=lambda q: I.node(q).op == "next"):
                    env.add(sid)
    noenv = lambda a, b, lab: a in env and lab == "exc"
    for cid in entries:
        r = F.reach(A.start(cid), stop_edge=noenv)
        ex = [s for s in A.exits(cid, False, True) if s in r]
        R.obl(not ex, "contained", I.ctxs[cid].func.qual, "an exception can leave the rebuild and stop the watcher", A.where(ex[0]) if ex else "", F.path(ex[0], 14) if ex else ())

    # ---- put back
    atoms = {}
    def drop_ok(l):
        f = from_()
        def pred(x, v):
            if x.k == "cmp" and ((x.a[0] == "In" and v) or (x.a[0] == "NotIn" and not v)):
                return ploc(x.a[2]) is not None and f(x.a[1])
            if is_call(x, "exists", "lexists", "os.path.exists", "os.path.lexists", "os.path.isfile", "isfile") and f(x.a[1]):
                return v is (l in gone)
            return False
        return A.holds(pred)
    for l in sorted(pend):
        f = from_(l)
        items = {s for s in range(len(I.states)) if I.node(s).op == "next" and root(s).qual not in cbq
                 and any(f(v) or any(f(y) for y in I.elems(None, frozenset([v]))) or ploc(v) == l for v in I.rv(s, I.node(s).a["it"]))}
        put = {s for s, xs in adds.items() if any(pl in pend and any(any(f(y) for y in deep(A, [v], 3)) for v in vals) for pl, vals, m in xs) and root(s).qual not in cbq}
        single = {s for s in put if any(m in ("add", "append", "appendleft", "setitem") for _, _, m in adds[s])}
        whole = put - single
        for s, ls in attrw.items():
            if not in_ctor(s) and ls & set(pend) and s not in clears and any(f(y) for y in deep(A, I.rv(s, I.node(s).a["src"]), 4)):
                whole.add(s)
        acc = set()
        for s in range(len(I.states)):
            n = I.node(s)
            if n.op == "accadd" and any(f(v) for v in I.rv(s, n.a["src"])):
                acc.add(s)
        for sid, rec in I.calls.items():
            for ff, a, k, e in rec:
                if ff.k == "meth" and ff.a[1] in ("add", "append") and ff.a[0].k in ("set", "list") and a and any(f(v) for v in a[0]):
                    acc.add(sid)
        dok = drop_ok(l)
        full = {}
        for s in items:
            it = [t for t, lab in I.succ[s] if lab == "item"]
            for name, via in (("put", single), ("acc", acc)):
                g = A.done(via)
                r = F.reach(it, stop_edge=lambda a, b, lab: g(a, b, lab) or (a in via and lab != "exc") or dok(a, b, lab), stop_node=None)
                if via and s not in r:
                    full.setdefault(name, set()).add(s)
        # a filtered collection is complete when every loop filling it is
        fills = {s for s in items if F.reach([t for t, lab in I.succ[s] if lab == "item"], stop_node=lambda x, s=s: x == s) & acc}
        okfill = fills <= full.get("acc", set())
        P = full.get("put", set())
        wdone = A.done(whole) if okfill else (lambda a, b, lab: False)
        isput = lambda a, b, lab: (a in P and lab == "done") or wdone(a, b, lab) or (okfill and a in whole and lab not in ("exc", "call"))
        hdone = A.done(set(hot))
        bad = automaton(A, after_clear, entries, hdone, isput, noenv)
        R.obl(not bad, "put-back", ".".join(l), "the rebuild can fail without the taken events being put back (or an event can be skipped although it matches the disk)", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if False else bad.get(min(bad)) if bad else ())


    mark(R, W, V, clears, after_clear, entries, hot, noenv)
    # ---- the watch loop
    if dev is not None:
        D = Ana(R.p, [dev], opaque=OPQ + tuple(I.ctxs[c].func.qual for c in entries))
        R.uses(D)
        Q = {I.ctxs[c].func.qual for c in entries}
        cs = D.calls(lambda f, a, k: (f.k in ("bound",) and f.a[1] in Q) or (f.k == "func" and f.a[0] in Q))
        R.obl(cs, "contained", "watch loop", "the watch loop never rebuilds")
        for s in cs:
            R.obl(s in D.F.reach([t for t, lab in D.I.succ[s] if lab != "exc"]), "contained", "watch loop", "the watch loop ends after a rebuild", D.where(s))
        back = D.F.reach(list(cs), back=True)
        for s in range(len(D.I.states)):
            if D.I.node(s).op != "branch" or s not in back:
                continue
            if not any(lab in ("T", "F") and t not in back for t, lab in D.I.succ[s]):
                continue
            for x in D.F.conds(s):
                if has(x, lambda y: (y.k == "call" and y.a[0] in Q) or (y.k == "obj" and y.a[0] == cls.qual) or (y.k == "call" and any(isinstance(z, T) and z.k == "obj" and z.a[0] == cls.qual for z in y.a[1:]))):
                    R.bad("contained", "watch loop", "the watch loop ends depending on the outcome of a rebuild", D.where(s))



def bools_of(W):
    out = {}
    for s, ls in W.attrw.items():
        if W.in_ctor(s):
            continue
        for v in W.I.rv(s, W.I.node(s).a["src"]):
            if v in (TRUE, FALSE):
                for l in ls:
                    out.setdefault(l, {}).setdefault(v, set()).add(s)
    return out


def mark(R, W, V, clears, after_clear, entries, hot, noenv):
    A, I, F, H = W.A, W.I, W.F, W.H
    bl, bv = bools_of(W), bools_of(V)
    ok = False
    why = "nothing keeps the failed project from being rebuilt again"
    wh = ""
    for l in sorted(set(bl) & set(bv)):
        for b in bl[l]:
            nb = FALSE if b is TRUE else TRUE
            fld = lambda t: H.loc_of(t) == l
            def free(a, t, lab):
                if lab not in ("T", "F"):
                    return False
                at = F.edge_atoms(a, lab)
                if not at or not any(has(x, fld) for x, v in at):
                    return False
                for x, v in at:
                    if x in (TRUE, FALSE):
                        continue
                    if fld(x) and v is (nb is TRUE):
                        continue
                    if x.k == "cmp" and fld(x.a[1]) and x.a[2] in (TRUE, FALSE) and ((x.a[0] in ("Is", "Eq")) == v) == (x.a[2] is nb):
                        continue
                    return False
                return True
            starts = [s for c in entries for s in A.start(c)]
            g = F.guarded(set(clears), free, start=starts)
            if g:
                why, wh = "the project can be rebuilt although it is marked unbuildable", A.where(min(g))
                continue
            setb, unset = bl[l].get(b, set()), bl[l].get(nb, set())
            bad = automaton(A, after_clear, entries, A.done(set(hot)), lambda a, t, lab: a in setb and lab != "exc", noenv, undo=lambda q: q in unset)
            if bad:
                why, wh = "the rebuild can fail without the project being marked unbuildable", A.where(min(bad))
                continue
            # events remove the mark
            VI, VA = V.I, V.A
            w, u = bv[l].get(nb, set()), bv[l].get(b, set())
            g = lambda a, t, lab: a in w and lab != "exc"
            miss = None
            for m in V.H.callbacks:
                cid = VA.eid[m.qual]
                recs = [s for s in V.adds if VA.ancestors(s)[-1] == cid and any(x[0] in V.pend for x in V.adds[s])]
                recs += [s for s in VI.calls if VA.ancestors(s)[-1] == cid and any(f.k == "meth" and V.ploc(f.a[0]) and f.a[1] in ("remove", "discard") for f, a, k, e in VI.calls[s])]
                isdir = VA.holds(lambda x, v: v and x.k == "attr" and x.a[1] == "is_directory")
                if recs and V.F.guarded(VA.exits(cid, True, False), VA.any(g, isdir), start=VA.start(cid)):
                    miss = m
                    continue
                late = V.F.guarded(recs, g, start=VA.start(cid), kill=lambda q: q in u)
                if not late:
                    continue
                aft = {t for s in late for t, lab in VI.succ[s] if lab != "exc"}
                if V.F.guarded(VA.exits(cid, True, False), g, start=aft, kill=lambda q: q in u):
                    miss = m
            if miss is not None:
                why, wh = "%s records an event without removing the unbuildable mark" % miss.name, miss.qual
                continue
            ok = True
    R.obl(ok, "blocked", H.cls.name, why, wh)


def automaton(A, start, entries, hdone, isput, stop, undo=None):
    """Normal exits of the entries reached with neither the rebuild finished nor ``isput`` passed."""
    I = A.I
    seen = {(s, 0) for s in start}
    work = list(seen)
    par = {}
    bad = {}
    exits = {s for c in entries for s in A.exits(c, True, False)}
    while work:
        s, q = k0 = work.pop()
        if I.node(s).op == "handler" and q == 1:
            q = 0
        if undo is not None and undo(s) and q == 2:
            q = 0
        if s in exits and q == 0 and s not in bad:
            tr, k = [], k0
            while k in par and len(tr) < 4000:
                w = I.where(k[0])
                if not tr or tr[-1] != w:
                    tr.append(w)
                k = par[k]
            bad[s] = list(reversed(tr))[-12:]
        for t, lab in I.succ[s]:
            if stop(s, t, lab):
                continue
            nq = 2 if isput(s, t, lab) else (1 if q == 0 and hdone(s, t, lab) else q)
            k = (t, nq)
            if k not in seen:
                seen.add(k); par[k] = k0; work.append(k)
    return bad
