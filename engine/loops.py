"""Natural loops of a function's instruction graph."""


def natural(ir):
    """{loop header: nodes of the loop} (exception edges included)."""
    m = ir.rdmemo.get("!loops")
    if m is not None:
        return m
    n = len(ir.nodes)
    succ = [[t for t, l in x.succ] for x in ir.nodes]
    pred = [[] for _ in range(n)]
    for i, ts in enumerate(succ):
        for t in ts:
            pred[t].append(i)
    def reach(start, without):
        seen = set(); st = [start] if start != without else []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(t for t in succ[x] if t != without and t not in seen)
        return seen
    entry = next(i for i in range(n) if ir.nodes[i].op == "entry")
    live = reach(entry, None)
    out = {}
    for h in range(n):
        if ir.nodes[h].op not in ("next", "loophead") or h not in live:
            continue
        dom = live - reach(entry, h)
        back = [p for p in pred[h] if p in dom]
        lp = {h}; st = list(back)
        while st:
            x = st.pop()
            if x in lp:
                continue
            lp.add(x)
            st.extend(p for p in pred[x] if p in dom)
        if back:
            out[h] = lp
    ir.rdmemo["!loops"] = out
    return out


class Loops:
    def __init__(self, A):
        self.A = A; self.I = A.I
        self.at = {}
        for s, (cid, pc, part) in enumerate(A.I.states):
            self.at.setdefault((cid, pc), []).append(s)

    def states(self, loop):
        """States of the header of a loop."""
        return self.at.get(loop, [])

    def of(self, s):
        """Loops a state is in, innermost first: (context, header)."""
        I = self.I
        cid, pc = I.states[s][:2]
        out = []
        while True:
            ir = I.ctxs[cid].ir
            own = [(len(b), h) for h, b in natural(ir).items() if pc in b]
            out += [(cid, h) for k, h in sorted(own)]
            c = I.ctxs[cid].csid
            if c is None:
                return out
            cid, pc = I.states[c][:2]

    def common(self, a, b):
        """The innermost loop both states are in."""
        bs = set(self.of(b))
        for x in self.of(a):
            if x in bs:
                return x
        return None

    def within(self, s, loop):
        return loop in self.of(s)
