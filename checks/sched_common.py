"""The scheduling part of a rebuild: which files wait, which are being built, which are done."""
from engine.q import *
from engine.flow import Flow
from engine.par import Jobs
from .hot_common import *


class Sched:
    def __init__(self, A, quals=(BUILDF,)):
        self.A = A; self.I = I = A.I; self.F = F = A.F
        self.flow = Flow(A)
        self.jobs = Jobs(A)
        self.futs = [f for q in quals for f in self.jobs.running(q)]
        self.subs = {s for f in self.futs for s in self.jobs.subs[f]}
        out = {t for s in self.subs for t, l in I.succ[s] if l != "exc"}
        fw = F.reach(out) if out else set()
        self.loop = fw & F.reach(self.subs, back=True) if self.subs else set()
        self.after = fw
        self.pending = {c for f in self.futs for c in self.jobs.holders(f) if c.k in ("dict", "list", "set")}
        self.places = set()
        for s in self.subs:
            cid, pc = I.states[s][:2]
            for f, args, kws, e in I.calls[s]:
                r = I.node(s).a["args"]
                if len(r) > 1 and isinstance(r[-1], str):
                    self.places |= self.flow.slice(cid, pc, r[-1], stop=self.behindgraph)
        self.chain = self.flow.containers(self.places)
        puts_ = list(puts(A)); drops_ = list(drops(A))
        self.puts, self.drops = puts_, drops_
        filled = {c for s, c, k, v, x in puts_ if s in self.loop}
        made = {c for cid, pc in self.places for c in self.flow.made(cid, pc) if self.I.states and any(s in self.loop for s in self.flow.at[(cid, pc)])}
        dropped = {c for s, c, k in drops_ if s in self.loop}
        self.waiting = {c for c in self.chain if c in dropped and c not in filled and c not in made}
        self.batch = {c for c in self.chain if c in filled or c in made}
        if not self.waiting:
            # the list of waiting files is replaced by a shorter one
            tested = {x for s in self.loop if F.is_branch(s) for x in (base(atom(t, True)[0]) for t in F.conds(s)) if x is not None}
            init = {c for c in self.chain if c in tested and c not in made}
            self.waiting = {c for c in tested & self.chain if any(init & set(I.rv(s, I.node(s).a["c"])) and c in I.rv(s, I.node(s).a["c"]) for s in self.loop if F.is_branch(s))} | init
            self.batch -= self.waiting
        # copies of the waiting files made while scheduling
        self.copies = {c for c in self.batch if all(x & self.waiting for s, c2, k, v, x in puts_ if c2 is c) and any(c2 is c for s, c2, k, v, x in puts_)}
        self.batch -= self.copies
        self.done = {c for s, c, ks, vs, x in puts_ if any(t.k == "result" and t.a[0] in self.futs for t in vs)}

    def behindgraph(self, c, p, n):
        """Not behind reads of the graphs or of results."""
        return n.op == "call" and any(f.k not in ("meth", "attr", "ext") and f.k not in ("func",) for s in self.flow.at[(c, p)] for f, a, k, e in self.I.calls.get(s, ()))

    def empty(self, conts):
        """Edge predicate: one of the containers is found empty."""
        return self.found(conts, True)

    def nonempty(self, conts):
        return self.found(conts, False)

    def found(self, conts, which):
        def pred(x, v):
            r = emptiness(x, v)
            return r is not None and r[1] == which and base(r[0]) in conts
        def gen(s, t, l):
            at = self.F.edge_atoms(s, l)
            return bool(at) and all(pred(x, v) for x, v in at)
        return gen


def base(x):
    """The container whose emptiness a condition tests."""
    while x.k == "list" and isinstance(x.a[0], T):
        x = x.a[0]
    if x.k in ("list", "set", "dict"):
        return x
    r = emptiness(x, True)
    return base(r[0]) if r and r[0] is not x else None
