"""C28: a file is built only after the files it depends on."""
from engine.q import *
from engine.consts import explore
from engine.loops import Loops
from .hot_common import *
from .sched_common import Sched, emptiness, base

TECHNIQUE = "path analysis of the scheduling loop: from the choice of a waiting file, every path to handing it out must have found each of its dependencies rebuilt or not being rebuilt and each of its outputs unclaimed; claims and results are followed through the containers holding them"
GRAPHC = B + "graph.FileDependencyGraph."


def check(R):
    R.rule("dependencies", "a file is chosen only when each of its dependencies was found rebuilt, or not among the files to rebuild")
    R.rule("sources", "the dependencies looked at are those of the scan, or of the previous build if it was not scanned, and its placeholder's generator")
    R.rule("rebuilt", "a file counts as rebuilt only after its builder has finished without an error")
    R.rule("outputs", "a file is chosen only when none of its outputs is claimed by a running builder")
    R.rule("claims", "the outputs of a chosen file are claimed at once, until it was rebuilt")
    R.rule("once", "a file handed out does not wait any more")
    R.rule("stuck", "when nothing can proceed and nothing runs, the rebuild fails")
    A = hot(R)
    M = Model(R, A)
    dependencies(R, M)
    outputs(R, M)
    once(R, M)
    stuck(R, M)


class Model:
    def __init__(self, R, A):
        self.R = R; self.A = A; self.I = A.I; self.F = A.F
        self.S = S = Sched(A)
        self.L = L = Loops(A)
        self.flow = S.flow
        R.need("files handed to builders", len(S.subs))
        ps = R.p.funcs[HOTF].params()
        self.params = ps
        I, F = self.I, self.F
        # where a waiting file is chosen
        self.copies = S.waiting | S.copies
        self.appends = {s for s, c, k, v, x in S.puts if c in S.batch and c not in S.pending and s in S.loop and not (v and S.futs and any(f in v for f in S.futs))}
        self.targets = self.appends or set(S.subs)
        self.picks = set()
        for s in self.targets:
            for lp in L.of(s):
                h = [x for x in L.states(lp) if x in S.loop]
                if h and I.node(h[0]).op == "next" and self.over(h[0], self.copies):
                    self.picks |= set(h)
                    break
            else:
                # taken out of the waiting files
                d = [q for q, c, k in S.drops if c in S.waiting and q in S.loop and L.common(q, s)]
                self.picks |= set(d)
        self.starts = {t for s in self.picks for t, l in I.succ[s] if l not in ("done", "exc")}
        self.round = F.reach(self.starts, stop_node=lambda x: x in self.picks)
        self.heads = {}

    def over(self, s, cs):
        """Does a loop go over the elements of one of the containers?"""
        n = self.I.node(s)
        its = self.I.rv(s, n.a["it"])
        for t in its:
            b = base(t)
            if t in cs or b in cs:
                return True
        cid, pc = self.I.states[s][:2]
        sl = self.flow.slice(cid, pc, n.a["it"], stop=lambda c, p, m: m.op == "call" and any(f.k in ("bound",) for q in self.flow.at[(c, p)] for f, a, k, e in self.I.calls.get(q, ())))
        return any(cs & self.flow.made(c, p) for c, p in sl)

    def slice(self, s, reg):
        cid, pc = self.I.states[s][:2]
        return self.flow.slice(cid, pc, reg)

    def tests(self, cs):
        """{loop: {state}} of branches in a round which test membership in one of the containers, by the loop whose elements
        are tested."""
        out = {}
        for s in self.round:
            if not self.F.is_branch(s):
                continue
            for t in self.F.conds(s):
                x, v = atom(t, True)
                if x.k == "cmp" and x.a[0] == "In" and self.member(x.a[2], cs):
                    sl = self.slice(s, self.I.node(s).a["c"])
                    for lp in self.L.of(s):
                        hs = self.L.states(lp)
                        if hs[0] in self.picks or self.I.node(hs[0]).op != "next":
                            break
                        if lp in sl:
                            out.setdefault(lp, set()).add(s)
                            break
        return out

    def member(self, t, cs):
        if t in cs:
            return True
        if t.k in ("keys", "list") or t.k == "call":
            return any(isinstance(x, T) and x in cs for x in t.a)
        return False

    def reads(self, sl, what):
        """Places of a slice where a source is read: (graph parameter index, method), or an attribute name."""
        out = set()
        for c, p in sl:
            n = self.flow.node(c, p)
            if isinstance(what, str):
                if n.op == "attr" and n.a["name"] == what:
                    out.add((c, p))
            elif n.op == "call":
                for s in self.flow.at[(c, p)]:
                    for f, a, k, e in self.I.calls.get(s, ()):
                        if f.k == "bound" and f.a[1] == GRAPHC + what[1] and is_param(f.a[0], self.params[what[0]]):
                            out.add((c, p))
        return out

    def states(self, places):
        return {s for pl in places for s in self.flow.at[pl]}


def is_param(t, name):
    return t.k == "sym" and name in [str(x) for x in t.a]


def fresh(M):
    """Containers which hold every file to rebuild all the time."""
    S = M.S
    out = set()
    for s, c, k, v, x in S.puts:
        if s in S.loop:
            continue
        if x & S.waiting:
            out.add(c)
        if c in S.waiting:
            out |= x
    out -= S.waiting
    ever = {c for s, c, k in S.drops} | {c for s, c, k, v, x in S.puts if s in S.loop}
    return out - ever


def covered(M, loops, fine, rule, what, msg):
    """Every element of each loop: from an item without a fine edge no choice may follow, and a choice passes the loop."""
    R, A, I, F = M.R, M.A, M.I, M.F
    good = set()
    for lp in loops:
        hs = set(M.L.states(lp)) & M.round
        items = [t for s in hs for t, l in I.succ[s] if l == "item"]
        # collected elements which are not fine
        coll = {}
        for s, c, k, v, x in M.S.puts:
            if s in M.round and M.L.within(s, lp):
                coll.setdefault(c, set()).add(s)
        empties = set()
        for c, at in coll.items():
            r = F.reach(items, stop_edge=lambda a, b, l: fine(a, b, l) or a in at and l != "exc")
            if not (r & hs):
                empties.add(c)
        none = M.S.empty(empties)
        stop1 = lambda a, b, l: a in M.picks or fine(a, b, l) or b in hs
        pairs = explore(A, items, stop1, envs=True)
        hit = {s for s, e in pairs} & M.targets
        again = set()
        for s, e in pairs:
            for t, l in I.succ[s]:
                if t in hs and not fine(s, t, l) and s not in M.picks:
                    again.add((t, frozenset((k, x) for k, x in e)))
        if again and not hit:
            pairs = explore(A, again, lambda a, b, l: a in M.picks or none(a, b, l), envs=True)
            hit = {s for s, e in pairs} & M.targets
        R.obl(not hit, rule, what, msg, A.loc(min(hit)) if hit else "")
        if not hit:
            good.add(lp)
    return good


def skipped(M, passed):
    """Choices which can be reached without the edge having been passed since the file was picked."""
    A, F = M.A, M.F
    bad = F.guarded(M.targets, passed, kill=lambda s: s in M.picks, start=M.starts)
    if bad:
        start = set(M.starts) | {t for s in M.picks for t, l in M.I.succ[s] if not passed(s, t, l)}
        bad &= explore(A, start, lambda a, b, l: a in M.picks or passed(a, b, l))
    return bad


def dependencies(R, M):
    A, I, F, S = M.A, M.I, M.F, M.S
    done = {c for c in S.done if any(s in S.loop for s, c2, k, v, x in S.puts if c2 is c)}
    R.obl(bool(done), "rebuilt", "results", "the results of builds are not kept", "")
    succ = [S.jobs.success(f) for f in S.futs]
    for s, c, k, v, x in S.puts:
        if c in done and s in S.loop:
            sel = {h for f in S.futs for t in S.jobs.takers(f) for lp in [M.L.common(s, t)] if lp for h in M.L.states(lp)}
            bad = F.guarded([s], lambda a, b, l: any(g(a, b, l) for g in succ), kill=lambda q: q in sel and I.node(q).op == "next", start={t for q in S.subs for t, l in I.succ[q] if l != "exc"})
            R.obl(not bad, "rebuilt", "results in " + I.func(s).name, "a file counts as rebuilt before its builder has finished without an error", A.loc(s))
    frozen = fresh(M)
    waiting, pending = S.waiting, S.pending
    def fine(s, t, l):
        at = F.edge_atoms(s, l)
        return bool(at) and all(x.k == "cmp" and x.a[0] == "In" and (v and M.member(x.a[2], done) or not v and M.member(x.a[2], frozen)) for x, v in at)
    loops = M.tests(done)
    good = covered(M, sorted(loops), fine, "dependencies", "each dependency", "a file can be chosen although one of its dependencies is still to be rebuilt")
    gs = {s for lp in good for s in M.L.states(lp)}
    passed = lambda s, t, l: s in gs and l == "done"
    if not loops:
        passed = whole(M, done)
    bad = skipped(M, passed)
    R.obl(not bad, "dependencies", "before choosing", "a file can be chosen without its dependencies having been looked at", A.loc(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else None)
    # sources
    sl = set()
    for lp in good:
        for s in M.L.states(lp):
            sl |= M.slice(s, I.node(s).a["it"])
    if not good:
        return
    kept(R, M)
    complete(R, M, good, {"scan": "dependencies", "old": (1, "get_children"), "placeholder": (3, "get_parents")}, "dependencies")
    sources(R, M, sl, {"scan": "dependencies", "old": (1, "get_children"), "placeholder": (3, "get_parents")}, "dependencies")


def consistent(A, flow, start, stop, ends):
    """States reached on paths which do not find the same membership both true and false."""
    I, F = A.I, A.F
    memo = {}
    def looked(s):
        """Dictionaries whose entry of a name was asked for by the branch."""
        if s not in memo:
            cid, pc = I.states[s][:2]
            memo[s] = {f.a[0] for c, p in flow.slice(cid, pc, I.node(s).a["c"], stop=lambda c, p, n: n.op == "call") if flow.node(c, p).op == "call" for q in flow.at[(c, p)] for f, a, k, e in I.calls.get(q, ()) if f.k in ("meth", "attr") and f.a[1] == "get"}
        return memo[s]
    seen = {(s, frozenset()) for s in start}
    work = list(seen)
    while work:
        s, fs = work.pop()
        if s in ends:
            continue
        for t, l in I.succ[s]:
            if stop(s, t, l):
                continue
            nf = fs
            if F.is_branch(s):
                at = {(x.a[2], v) for x, v in F.edge_atoms(s, l) or () if x.k == "cmp" and x.a[0] == "In"}
                if any(x.k == "cmp" and x.a[0] == "Eq" and v and NONE in x.a[1:] for x, v in F.edge_atoms(s, l) or ()):
                    at |= {(d, False) for d in looked(s)}
                if any((x, not v) in fs for x, v in at):
                    continue
                nf = fs | at
            k = (t, nf)
            if k not in seen:
                seen.add(k); work.append(k)
    return {s for s, fs in seen}


def kept(R, M):
    """Where the dependencies found by a scan are rewritten, each one is represented in the result."""
    A, I, F, S = M.A, M.I, M.F, M.S
    for s in F.node_states("setattr"):
        n = I.node(s)
        if n.a["name"] != "dependencies" or s in S.loop:
            continue
        conts = {t for t in I.rv(s, n.a["src"]) if t.k in ("list", "set", "dict")}
        while True:
            more = {y for q, c, k, v, x in S.puts if c in conts for y in x if y.k in ("list", "set", "dict")} - conts
            if not more:
                break
            conts |= more
        fills = {q for q, c, k, v, x in S.puts if c in conts}
        loops = set()
        for q in fills:
            for lp in M.L.of(q):
                h = M.L.states(lp)[0]
                if I.node(h).op == "next" and M.reads(M.flow.slice(I.states[h][0], I.states[h][1], I.node(h).a["it"], stop=lambda c, p, m: m.op == "call"), "dependencies"):
                    loops.add(lp)
                    break
        if len(loops) != 1:
            continue
        hs = set(M.L.states(loops.pop()))
        same = A.holds(lambda x, v: x.k == "cmp" and (x.a[0] == "Eq" and v and not any(y.k == "const" and y is not NONE for y in x.a[1:]) or x.a[0] == "In" and v and x.a[2] in conts))
        first = [t for h in hs for t, l in I.succ[h] if l == "item"]
        hit = hs & consistent(A, M.flow, first, lambda a, b, l: a in fills and l != "exc" or same(a, b, l), hs)
        R.obl(not hit, "sources", "dependencies: rewritten", "a dependency found by the scan can be left out", A.loc(min(hit)) if hit else "")


def complete(R, M, loops, want, what):
    """Nothing of what was read is left out before the loop."""
    A, I, F = M.A, M.I, M.F
    for lp in loops:
        for s in M.L.states(lp)[:1]:
            cid, pc = I.states[s][:2]
            rdp = set()
            def stop(c, p, n):
                return bool(M.reads({(c, p)}, want["scan"]) or any(M.reads({(c, p)}, w) for k, w in want.items() if k != "scan"))
            sl = M.flow.slice(cid, pc, I.node(s).a["it"], stop=stop)
            for c, p in sorted(sl):
                if M.flow.node(c, p).op == "slice":
                    R.bad("sources", what + ": part", "only a part of the %s is looked at" % what, A.loc(M.flow.at[(c, p)][0]))
            reads = {q for k, w in want.items() for q in M.states(M.reads(sl, w))} & M.round
            empty = set()
            for c, p in sl:
                n = M.flow.node(c, p)
                if n.op == "build" and not n.a["parts"] and all(not M.flow.fills.get(t) for t in M.flow.made(c, p)):
                    empty |= set(M.flow.at[(c, p)]) & M.round
            hs = set(M.L.states(lp))
            back = lambda q: q in M.picks
            late = empty & F.reach([t for q in reads for t, l in I.succ[q]], stop_node=back)
            R.obl(not late, "sources", what + ": replaced", "the %s read are replaced by none" % what, A.loc(min(late)) if late else "")


def sources(R, M, sl, want, what):
    """On each path to a choice, the right sources are read: what was scanned, else what the previous build recorded."""
    A, I, F, S = M.A, M.I, M.F, M.S
    scan = M.states(M.reads(sl, want["scan"]))
    old = M.states(M.reads(sl, want["old"]))
    R.obl(bool(scan), "sources", what + ": scan", "the %s found by the scan are not looked at" % what, "")
    R.obl(bool(old), "sources", what + ": previous", "the %s of the previous build are not looked at" % what, "")
    scanned = {c for s, c, k, v, x in S.puts if is_scan(M, c)}
    def known(truth, pred):
        def gen(s, t, l):
            at = F.edge_atoms(s, l)
            return bool(at) and all(pred(x) and v == truth for x, v in at)
        return gen
    is_in = lambda cs: lambda x: x.k == "cmp" and x.a[0] == "In" and M.member(x.a[2], cs) or x.k == "cmp" and x.a[0] == "Eq" and False
    yes, no = known(True, is_in(scanned)), known(False, is_in(scanned))
    looked = {}
    def got(s):
        """Does a branch depend on what was got from the scans by name?"""
        if s not in looked:
            looked[s] = False
            if F.is_branch(s):
                cid, pc = I.states[s][:2]
                for c, p in M.flow.slice(cid, pc, I.node(s).a["c"], stop=lambda c, p, n: n.op == "call"):
                    if M.flow.node(c, p).op == "call":
                        for q in M.flow.at[(c, p)]:
                            for f, a, k, e in I.calls.get(q, ()):
                                if f.k in ("meth", "attr") and f.a[1] in ("get", "pop") and f.a[0] in scanned:
                                    looked[s] = True
        return looked[s]
    def found(truth):
        def gen(s, t, l):
            if not got(s):
                return False
            at = F.edge_atoms(s, l)
            return bool(at) and all((not v if x.k == "cmp" and x.a[0] == "Eq" and NONE in x.a[1:] else v) == truth for x, v in at)
        return gen
    present, absent = found(True), found(False)
    rd = lambda at: lambda s, t, l: s in at and l not in ("exc",)
    kill = lambda s: s in M.picks
    if scan:
        a = rd(scan)
        bad = F.guarded(M.targets, lambda s, t, l: a(s, t, l) or no(s, t, l) or absent(s, t, l), kill=kill, start=M.starts)
        R.obl(not bad, "sources", what + ": scanned files", "a scanned file can be chosen without looking at the %s found by the scan" % what, A.loc(min(bad)) if bad else "")
    if old:
        b = rd(old)
        g = param_in(M, want["old"][0])
        nograph = known(False, g)
        bad = F.guarded(M.targets, lambda s, t, l: b(s, t, l) or yes(s, t, l) or present(s, t, l) or nograph(s, t, l), kill=kill, start=M.starts)
        R.obl(not bad, "sources", what + ": other files", "a file which was not scanned can be chosen without looking at the %s of the previous build" % what, A.loc(min(bad)) if bad else "")
    if "placeholder" in want:
        ph = M.states(M.reads(sl, want["placeholder"]))
        new, newreads = newph(M, sl)
        R.obl(bool(ph), "sources", "generator", "the generator of a placeholder is not among its dependencies", "")
        R.obl(bool(newreads), "sources", "new generator", "the generator of a new placeholder is not among its dependencies", "")
        if ph:
            c = rd(ph | newreads)
            nog = known(False, param_in(M, 3))
            bad = F.guarded(M.targets, lambda s, t, l: c(s, t, l) or nog(s, t, l), kill=kill, start=M.starts)
            R.obl(not bad, "sources", "generator: always", "a placeholder can be chosen without looking at its generator", A.loc(min(bad)) if bad else "")
        if newreads:
            c = rd(newreads)
            non = known(False, is_in(new))
            bad = F.guarded(M.targets, lambda s, t, l: c(s, t, l) or non(s, t, l) or no(s, t, l) or absent(s, t, l), kill=kill, start=M.starts)
            R.obl(not bad, "sources", "new generator: always", "a new placeholder can be chosen without looking at its generator", A.loc(min(bad)) if bad else "")


def param_in(M, i):
    name = M.params[i]
    def pred(x):
        if x.k == "cmp" and x.a[0] == "In" and isinstance(x.a[2], T):
            return is_param(x.a[2], name) or any(isinstance(y, T) and is_param(y, name) for y in x.a[2].a)
        return False
    return pred


def is_scan(M, c):
    if not hasattr(M, "scanres"):
        futs = M.S.jobs.running(SCANF)
        res = {mk("result", f) for f in futs}
        M.scanres = {c for s, c, k, v, x in M.S.puts if c.k == "dict" and v & res}
        while True:
            more = {c for s, c, k, v, x in M.S.puts if x & M.scanres and c.k == "dict"} - M.scanres
            if not more:
                break
            M.scanres |= more
    return c in M.scanres


def newph(M, sl):
    """The mapping of new placeholders to their generators: filled in the same round as placeholder contents are written."""
    I = M.I
    ws = {e.sid for e in M.F.effects() if e.kind in ("write", "touch")}
    ws = {s for s in ws if s not in M.S.loop and s not in M.S.after}
    cs = {c for s, c, k, v, x in M.S.puts if c.k == "dict" and s not in M.S.loop and any(M.L.common(s, w) for w in ws) and not any(is_scan(M, c2) for c2 in [c])}
    cs = {c for c in cs if not is_sym(c)}
    rd = set()
    for c, p in sl:
        n = M.flow.node(c, p)
        if n.op == "sub" and M.flow.vals(c, p, n.a["obj"]) & cs:
            rd |= set(M.flow.at[(c, p)])
        if n.op == "call":
            for s in M.flow.at[(c, p)]:
                for f, a, k, e in I.calls.get(s, ()):
                    if f.k in ("meth", "attr") and f.a[0] in cs and f.a[1] in ("get", "items", "pop", "setdefault"):
                        rd.add(s)
    return cs, rd


def is_sym(t):
    return t.k == "sym"


def whole(M, cs):
    """Tests which look at all elements at once: an edge of a branch on a value made from the containers, when only one of its
    edges leads to a choice."""
    out = set()
    for s in M.round:
        if not M.F.is_branch(s):
            continue
        cid, pc = M.I.states[s][:2]
        sl = M.flow.slice(cid, pc, M.I.node(s).a["c"])
        if not any(cs & (M.flow.vals(c, p, r)) for c, p in sl for r in regs(M.flow.node(c, p))):
            continue
        ways = {l for t, l in M.I.succ[s] if M.F.reach([t], stop_node=lambda x: x in M.picks) & M.targets}
        if len(ways) == 1:
            out.add((s, next(iter(ways))))
    return lambda s, t, l: (s, l) in out


def regs(n):
    out = []
    for k, v in n.a.items():
        if k in ("f", "obj", "l", "r", "v", "src", "it") and isinstance(v, str):
            out.append(v)
        elif k == "args":
            out += [x for x in v if isinstance(x, str)]
    return out


def claims(M):
    """Containers of claimed outputs: filled and emptied while scheduling, and looked into before a choice."""
    S, F = M.S, M.F
    filled = {c for s, c, k, v, x in S.puts if s in S.loop}
    dropped = {c for s, c, k in S.drops if s in S.loop}
    tested = set(); exact = set()
    for s in M.round:
        if F.is_branch(s):
            sl = None
            for t in F.conds(s):
                for x in ([atom(t, True)[0]]):
                    if x.k == "cmp" and x.a[0] == "In":
                        exact |= {c for c in filled if M.member(x.a[2], {c})}
            for t in F.conds(s):
                if t.k != "cmp" or t.a[0] != "In":
                    subs = set(subterms(t))
                    tested |= {c for c in filled if c in subs}
                    cid, pc = M.I.states[s][:2]
                    for c, p in M.flow.slice(cid, pc, M.I.node(s).a["c"], stop=lambda c, p, n: n.op in ("call", "bin")):
                        n = M.flow.node(c, p)
                        if n.op == "bin" and n.a["op"] in ("BitAnd", "Sub"):
                            for r in ("l", "r"):
                                tested |= filled & M.flow.vals(c, p, n.a[r])
                        elif n.op == "call":
                            for q in M.flow.at[(c, p)]:
                                for f, a, k, e in M.I.calls.get(q, ()):
                                    if f.k in ("meth", "attr") and f.a[1] in ("intersection", "isdisjoint", "difference", "issubset"):
                                        tested |= filled & (set(a[0]) if a else set()) | filled & {f.a[0]}
    other = S.waiting | S.batch | S.done | S.pending
    exact -= other
    return (exact or tested & dropped) & filled - other, dropped


def outputs(R, M):
    A, I, F, S = M.A, M.I, M.F, M.S
    cs, dropped = claims(M)
    # only containers which are filled from outputs
    real = set()
    for c in cs:
        for f in M.flow.fills.get(c, ()):
            sl = set()
            for r in f[2] + f[4]:
                sl |= M.flow.slice(f[0], f[1], r)
            if M.reads(sl, "produces") or M.reads(sl, (2, "get_children")):
                real.add(c)
    cs = real
    R.obl(bool(cs), "outputs", "claimed outputs", "the outputs of running builders are not kept apart", "")
    if not cs:
        return
    def fine(s, t, l):
        at = F.edge_atoms(s, l)
        return bool(at) and all(x.k == "cmp" and x.a[0] == "In" and not v and M.member(x.a[2], cs) for x, v in at)
    loops = M.tests(cs)
    good = covered(M, sorted(loops), fine, "outputs", "each output", "a file can be chosen although one of its outputs is claimed")
    gs = {s for lp in good for s in M.L.states(lp)}
    passed = (lambda s, t, l: s in gs and l == "done") if loops else whole(M, cs)
    bad = skipped(M, passed)
    R.obl(not bad, "outputs", "before choosing", "a file can be chosen without its outputs having been looked at", A.loc(min(bad)) if bad else "")
    sl = set()
    for lp in good:
        for s in M.L.states(lp):
            sl |= M.slice(s, I.node(s).a["it"])
    if good:
        complete(R, M, good, {"scan": "produces", "old": (2, "get_children")}, "outputs")
        sources(R, M, sl, {"scan": "produces", "old": (2, "get_children")}, "outputs")
    # claimed at once
    fills = {s for s, c, k, v, x in S.puts if c in cs and s in S.loop}
    made = {s for s in S.loop if I.node(s).op in ("build", "call") and I.node(s).dst is not None and cs & M.flow.made(*I.states[s][:2])}
    R.obl(not made, "claims", "kept", "the claims of running builders are forgotten", A.loc(min(made)) if made else "")
    put = lambda s, t, l: s in fills and l != "exc"
    late = F.guarded(M.targets, put, kill=lambda s: s in M.picks, start=M.starts)
    r = F.reach([t for s in late for t, l in I.succ[s] if l != "exc"], stop_node=lambda x: x in fills)
    hit = r & M.picks
    if not hit:
        hit = {s for s in r & S.subs if s not in late}
    # a claim per element: the loop may find no outputs
    if hit:
        its = {h for s in fills for lp in M.L.of(s)[:1] for h in M.L.states(lp) if h not in M.picks and I.node(h).op == "next" and h in S.loop}
        if its:
            dn = lambda s, t, l: s in its and l == "done"
            late = F.guarded(M.targets, lambda s, t, l: put(s, t, l) or dn(s, t, l), kill=lambda s: s in M.picks, start=M.starts)
            r = F.reach([t for s in late for t, l in I.succ[s] if l != "exc"], stop_edge=lambda s, t, l: put(s, t, l) or dn(s, t, l))
            hit = r & M.picks or {s for s in r & S.subs if s not in late}
    R.obl(bool(fills) and not hit, "claims", "chosen file", "another file can be chosen before the outputs of the chosen one are claimed", A.loc(min(hit)) if hit else "")
    for s in sorted(fills):
        n = I.node(s)
        sl = set()
        for f in [f for c in cs for f in M.flow.fills.get(c, ()) if (f[0], f[1]) == tuple(I.states[s][:2])]:
            for r in f[2] + f[4]:
                sl |= M.flow.slice(f[0], f[1], r)
        R.obl(bool(M.reads(sl, "produces") and M.reads(sl, (2, "get_children"))), "claims", "claimed in " + I.func(s).name, "not all outputs of the chosen file are claimed", A.loc(s))
        partly(R, M, s, sl, cs, fine)
    # released after success only
    takers = {t for f in S.futs for t in S.jobs.takers(f)}
    succ = [S.jobs.success(f) for f in S.futs]
    for s, c, k in S.drops:
        if c not in cs or s not in S.loop:
            continue
        R.obl(k is not None, "claims", "release in " + I.func(s).name, "finishing one builder releases the claims of all", A.loc(s))
        sel = {h for t in takers for lp in [M.L.common(s, t)] if lp for h in M.L.states(lp) if I.node(h).op == "next"}
        bad = F.guarded([s], lambda a, b, l: any(g(a, b, l) for g in succ), kill=lambda q: q in sel, start={t for q in S.subs for t, l in I.succ[q] if l != "exc"})
        R.obl(not bad, "claims", "released early in " + I.func(s).name, "claims are released before the builder has finished without an error", A.loc(s))


def partly(R, M, s, sl, cs, fine):
    """Every round of a loop which collects (or claims) the outputs does so, except with what is claimed already."""
    A, I, F, L = M.A, M.I, M.F, M.L
    fills = {tuple(sorted(M.flow.at[I.states[s][:2]]))} if I.node(s).op in ("call", "accadd", "setsub") else set()
    made = {t for c, p in sl for t in M.flow.made(c, p) if t.k in ("list", "set")} - cs
    for t in made:
        at = {q for f in M.flow.fills.get(t, ()) for q in M.flow.at[(f[0], f[1])]} & M.round
        if at:
            fills.add(tuple(sorted(at)))
    inn = lambda a, b, l: bool(F.edge_atoms(a, l)) and all(x.k == "cmp" and x.a[0] == "In" and v and M.member(x.a[2], cs) for x, v in F.edge_atoms(a, l))
    for at in fills:
        for lp in L.of(at[0])[:1]:
            hs = set(L.states(lp))
            if not hs <= M.round or hs & M.picks or any(I.node(h).op != "next" for h in hs):
                continue
            items = [t for h in hs for t, l in I.succ[h] if l == "item"]
            r = explore(A, items, lambda a, b, l: a in at and l != "exc" or a in hs or inn(a, b, l))
            R.obl(not (r & hs), "claims", "every output in " + I.func(s).name, "only some of the outputs of the chosen file are claimed", A.loc(at[0]))


def once(R, M):
    A, I, F, S, L = M.A, M.I, M.F, M.S, M.L
    out = {s for s, c, k in S.drops if c in S.waiting and s in S.loop}
    outer = {h for s in S.subs for lp in L.of(s) for h in L.states(lp) if h in S.loop and any(L.within(t, lp) for f in S.futs for t in S.jobs.takers(f))}
    if not outer:
        outer = {s for s in S.loop if I.node(s).op in ("next", "loophead")}
    if out:
        inner = {h for s in S.subs for lp in L.of(s)[:1] for h in L.states(lp)}
        chosen = S.batch | {c for s, c, k, v, x in S.puts if s in M.round}
        alls = set()
        for s in out:
            for lp in L.of(s)[:1]:
                for h in L.states(lp):
                    if I.node(h).op == "next" and h not in M.picks and any(base(t) in chosen for t in I.rv(h, I.node(h).a["it"])):
                        if h not in F.reach([t for t, l in I.succ[h] if l == "item"], stop_edge=lambda a, b, l: a in out and l != "exc"):
                            alls.add(h)
        gone = lambda s, t, l: s in out and l != "exc" or s in alls and l == "done"
        late = F.guarded(S.subs, lambda s, t, l: s in out, kill=lambda s: s in inner or s in outer, start=[t for s in outer for t, l in I.succ[s]])
        r = F.reach([t for s in late for t, l in I.succ[s] if l != "exc"], stop_edge=gone)
        hit = r & outer
        R.obl(not hit, "once", "handed out", "a file keeps waiting although it was handed to a builder", A.loc(min(hit)) if hit else "")
    else:
        gs = S.batch | S.pending | S.done
        ok = False
        for s, c, k, v, x in S.puts:
            if c in S.waiting and s in S.loop and I.node(s).op == "accadd" or c in S.chain and s in S.loop and I.node(s).op == "accadd" and c not in S.batch:
                def new(a, b, l):
                    at = F.edge_atoms(a, l)
                    return bool(at) and all(y.k == "cmp" and y.a[0] == "In" and not w and M.member(y.a[2], gs) for y, w in at)
                hs = {h for lp in L.of(s)[:1] for h in L.states(lp)}
                if not F.guarded([s], new, kill=lambda q: q in hs, start=[t for q in hs for t, l in I.succ[q] if l == "item"]):
                    ok = True
        R.obl(ok, "once", "handed out", "a file keeps waiting although it was handed to a builder", A.loc(min(S.subs)))
    # nothing is put back
    for s, c, k, v, x in S.puts:
        if c in S.waiting and s in S.loop and out:
            R.bad("once", "put in " + I.func(s).name, "a file is put among the waiting files while building", A.loc(s))


def stuck(R, M):
    A, I, F, S, L = M.A, M.I, M.F, M.S, M.L
    outer = {h for s in S.subs for lp in L.of(s) for h in L.states(lp) if h in S.loop and any(L.within(t, lp) for f in S.futs for t in S.jobs.takers(f))}
    R.need("scheduling loops", len(outer))
    full = S.nonempty(S.pending | S.batch)
    start = [t for s in outer for t, l in I.succ[s]]
    chosen = M.appends | S.subs
    takers = {t for f in S.futs for t in S.jobs.takers(f)}
    stop = lambda s, t, l: s in outer or s in chosen or s in takers or full(s, t, l)
    r = explore(A, start, stop)
    if r & outer:
        # containers which are new in each round and only filled along with a choice
        new = {c for s in r for c in M.flow.made(*I.states[s][:2]) if c.k in ("list", "set", "dict")}
        sub = lambda s, t, l: s in chosen and l != "exc"
        idle = {c for c in new if not (explore(A, [t for s, c2, k, v, x in S.puts if c2 is c and s in r for t, l in I.succ[s] if l != "exc"], lambda s, t, l: s in outer or sub(s, t, l)) & outer)}
        more = S.nonempty(idle)
        r = explore(A, start, lambda s, t, l: stop(s, t, l) or more(s, t, l))
    hit = r & outer
    ends = set(A.exits(A.eid[HOTF]))
    R.obl(not hit, "stuck", "no progress", "the rebuild goes on when nothing can proceed and nothing runs", A.loc(min(hit)) if hit else "")
