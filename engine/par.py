"""Futures: where jobs are handed to executors and where their outcome is known to be successful."""
from .q import *
from .loops import Loops


class Jobs:
    def __init__(self, A):
        self.A = A; self.I = A.I; self.F = A.F
        self.subs = {}          # future term -> submission states
        for sid, rec in self.I.calls.items():
            for (f, a, k, e) in rec:
                if f.k == "meth" and (f.a[1] in ("submit", "run_in_executor") or (f.a[1] == "map" and f.a[0].k == "executor")):
                    cid = self.I.states[sid][0]; nid = self.I.node(sid).id
                    if f.a[1] == "map":
                        for o in A.V(cid, nid):
                            for t in A.V(o, "*"):
                                if t.k == "result" and t.a[0].k == "future":
                                    self.subs.setdefault(t.a[0], set()).add(sid)
                    else:
                        for t in A.V(cid, nid):
                            if t.k == "future":
                                self.subs.setdefault(t, set()).add(sid)
        self.memo = {}

    def of(self, pred):
        """Futures whose function term satisfies pred."""
        return [f for f in self.subs if pred(f.a[0])]

    def running(self, qual):
        return self.of(lambda t: (t.k in ("func", "closure") and t.a[0] == qual) or (t.k == "bound" and t.a[1] == qual)
                       or (t.k == "partial" and t.a[0].k == "func" and t.a[0].a[0] == qual))

    def takers(self, fut):
        """States where the outcome of a job is taken, an error being raised there."""
        if ("t", fut) in self.memo:
            return self.memo[("t", fut)]
        I = self.I
        out = set(self.A.calls(lambda f, a, k: f.k == "meth" and f.a[1] == "result" and f.a[0] is fut))
        for s in range(len(I.states)):
            n = I.node(s)
            if n.op == "await" and fut in I.rv(s, n.a["v"]):
                out.add(s)
        self.memo[("t", fut)] = out
        return out

    def gathers(self, fut):
        I = self.I
        out = set()
        for s, (f, a, k, e) in self.A.calls(lambda f, a, k: f.k == "ext" and f.a[0] == "asyncio.gather" and "return_exceptions" not in k).items():
            n = I.node(s)
            for o in self.A.V(I.states[s][0], n.id):
                if mk("result", fut) in self.A.V(o, "*"):
                    out.add(s)
        return out

    def success(self, fut):
        """Edge predicate: the outcome of the job at hand was taken and it had not failed."""
        k = ("s", fut)
        if k not in self.memo:
            done = self.A.done(self.takers(fut))
            exc = lambda x: x.k in ("call", "meth") and any(isinstance(y, T) and y.k == "future" for y in x.a) and "exception" in [y.split(".")[-1] for y in x.a if isinstance(y, str)]
            none = self.A.holds(lambda x, v: exc(x) and not v or x.k == "cmp" and x.a[0] == "Eq" and v and NONE in x.a[1:] and any(exc(y) for y in x.a[1:]))
            self.memo[k] = lambda s, t, l: done(s, t, l) or none(s, t, l)
        return self.memo[k]

    def holders(self, fut):
        """Container terms in which the future is kept."""
        return {k[0] for k, v in self.I.V.items() if fut in v and isinstance(k[0], T) and k[0].k in ("list", "set", "dict")}

    def drained(self, fut):
        """Edge predicate: every job submitted so far has finished without error."""
        k = ("d", fut)
        if k in self.memo:
            return self.memo[k]
        A, I, F = self.A, self.I, self.F
        succ = self.success(fut)
        good_next = set()
        collected = set()
        res = mk("result", fut)
        for s in range(len(I.states)):
            n = I.node(s)
            if n.op != "next":
                continue
            els = I.elems(None, I.rv(s, n.a["it"]))
            hit = False
            for x in els:
                ys = [x] + ([y for p in x.a[0] for y in p] if x.k == "tup" else [])
                if fut in ys or res in ys:
                    hit = True
                if x.k in ("key", "elem") and fut in A.V(x.a[0], "*v"):
                    hit = True
            it = I.rv(s, n.a["it"])
            for c in it:
                if c.k == "dict" and fut in (A.V(c, "*v") | A.V(c, "*k")):
                    hit = True
                if c.k == "call" and c.a[0] == "range" and len(c.a) == 2 and c.a[1].k == "call" and c.a[1].a[0] == "len" and c.a[1].a[1].k in ("list", "tup") and fut in A.V(c.a[1].a[1], "*"):
                    hit = True
            if any(c.k == "list" and isinstance(c.a[1], str) and c.a[1][:1] == "s" and c.a[1][1:].isdigit() for c in it):
                hit = False               # only part of the jobs
            if not hit:
                continue
            if any(res in ([x] + ([y for p in x.a[0] for y in p] if x.k == "tup" else [])) for x in els):
                good_next.add(s)          # results of executor.map: iterating raises
                continue
            items = [t for t, l in I.succ[s] if l == "item"]
            r = F.reach(items, stop_edge=succ)
            if s not in r:
                good_next.add(s)
            else:
                # failures collected: none of them is known once the collection is found empty
                col = {}
                for q in r:
                    n2 = I.node(q)
                    if n2.op == "accadd":
                        for o in I.rv(q, n2.a["obj"]):
                            col.setdefault(o, set()).add(q)
                    for f2, a2, k2, e2 in I.calls.get(q, ()):
                        if f2.k == "meth" and f2.a[1] in ("append", "add") and isinstance(f2.a[0], T):
                            col.setdefault(f2.a[0], set()).add(q)
                for o, at in col.items():
                    if s not in F.reach(items, stop_edge=lambda a, b, l: succ(a, b, l) or a in at and l != "exc"):
                        collected.add(o)
        gathered = A.done(self.gathers(fut))
        # a comprehension or loop over a dictionary of running jobs, entries removed only after their success
        conts = self.holders(fut)
        conts = {c for c in conts if c.k in ("dict", "set", "list")}
        emptied = set()
        for c in conts:
            rem = set()
            for sid, rec in I.calls.items():
                for (f, a, kk, e) in rec:
                    if f.k == "meth" and f.a[0] is c and f.a[1] in ("pop", "remove", "discard", "popitem", "clear", "difference_update"):
                        rem.add(sid)
            for s in range(len(I.states)):
                n = I.node(s)
                if n.op == "delsub" and c in I.rv(s, n.a["obj"]):
                    rem.add(s)
            if not rem:
                emptied.add(c)
                continue
            sel = set()
            L = Loops(A)
            for s in rem:
                for k2 in self.takers(fut):
                    x = L.common(s, k2)
                    if x is not None and I.ctxs[x[0]].ir.nodes[x[1]].op == "next":
                        sel |= set(L.states(x))
            ok = True
            for s in rem:
                if s in self.takers(fut):
                    continue
                if F.guarded([s], succ, kill=lambda x: x in sel):
                    ok = False
            pops = {s for s in rem if self.I.node(s).op == "call"}
            if ok:
                emptied.add(c)
            elif pops:
                # popped, then taken: between a removal and the next one the outcome is taken
                if all(not (F.reach([t for t, l in I.succ[s] if l != "exc"], stop_edge=succ) & rem) for s in pops):
                    emptied.add(c)
        def none_left(x, v):
            r = emptiness(x, v)
            return r is not None and r[1] and r[0] in emptied
        emptied |= collected
        noleft = A.holds(none_left) if emptied else (lambda s, t, l: False)
        looped = bool(self.subs.get(fut)) and any(s in F.reach([t for t, l in I.succ[s]]) for s in self.subs[fut])
        def gen(s, t, l):
            if l == "done" and s in good_next:
                return True
            if not looped and succ(s, t, l):
                return True
            return gathered(s, t, l) or noleft(s, t, l)
        self.memo[k] = gen
        return gen

    def undrained(self, fut, targets):
        """Targets reachable from a submission without every job known to have succeeded."""
        F, I = self.F, self.I
        start = {t for s in self.subs[fut] for t, l in I.succ[s] if l != "exc"}
        return F.guarded(targets, self.drained(fut), kill=lambda s: s in self.subs[fut], start=start)

    def dropped(self, fut, targets):
        """Submissions whose future is forgotten: a target or another submission is reached without it having been kept."""
        A, I, F = self.A, self.I, self.F
        keep = set()
        for sid, rec in I.calls.items():
            for (f, a, k, e) in rec:
                if any(fut in x for x in a) or any(fut in x for x in k.values()) or (f.k == "meth" and f.a[0] is fut):
                    keep.add(sid)
        for s in range(len(I.states)):
            n = I.node(s)
            if n.op in ("accadd", "setsub") and fut in I.rv(s, n.a["src"]):
                keep.add(s)
            elif n.op == "await" and fut in I.rv(s, n.a["v"]):
                keep.add(s)
            elif n.op in ("build", "builddict"):
                if any(fut in v for v in self._vals(s)):
                    keep.add(s)
        out = set()
        for s in self.subs[fut]:
            if I.node(s).op == "call" and any(f.k == "meth" and f.a[1] == "map" for f, a, k, e in I.calls[s]):
                continue
            st = [t for t, l in I.succ[s] if l != "exc"]
            r = F.reach([t for t in st if t not in keep], stop_node=lambda x: x in keep)
            if r & (set(targets) | {s}):
                out.add(s)
        return out

    def _vals(self, s):
        n = self.I.node(s)
        out = []
        for v in n.a.values():
            if isinstance(v, str):
                try:
                    out.append(self.I.rv(s, v))
                except Exception:
                    pass
            elif isinstance(v, (list, tuple)):
                for x in v:
                    if isinstance(x, str):
                        try:
                            out.append(self.I.rv(s, x))
                        except Exception:
                            pass
        return out
