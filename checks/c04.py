"""C04: the watcher's shared record is touched only while its lock is held, and the lock is always released."""
from engine.q import *
from .dev_common import *

TECHNIQUE = "lock-held analysis (state x lock depth) over the interprocedural control-flow graph of the event callbacks and the rebuild loop, with an escape rule for values loaded from shared fields"


def check(R):
    hs = handler_class(R.p)
    R.rule("held", "every read, write and use of a field shared by the callbacks and the rebuild loop happens while the handler's lock is held")
    R.rule("released", "the lock is released on every normal and exceptional exit, never released without being held, and never taken twice unless it is reentrant")
    R.rule("one-lock", "the lock is created once, in the constructor, and one lock guards all accesses of a field")
    R.need("file event handlers", len(hs))
    for cls in hs:
        one(R, cls)


def one(R, cls):
    H = Handler(R.p, cls)
    dev = R.p.funcs.get(PKG + "runners.dev.dev")
    A = H.analyse([dev] if dev is not None else [])
    R.uses(A)
    I = A.I
    # handlers which were constructed are handlers too
    for t in list(I.V):
        if isinstance(t, tuple) and t and isinstance(t[0], T) and t[0].k == "obj" and t[0].a[0] == cls.qual:
            H.selfs.add(t[0])
    locks = lock_types(R.p, cls)
    R.obl(locks, "one-lock", cls.name, "the handler's constructor creates no lock")
    if not locks:
        return
    cbq = {m.qual for m in H.callbacks}
    # accesses
    acc = []        # (state, loc, kind)
    ctor = set()
    def in_ctor(s):
        if H.ctor is None:
            return False
        return any(I.ctxs[c].func is H.ctor for c in A.ancestors(s))
    vals = {}       # loc -> values which stand for it
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op not in ("attr", "setattr"):
            continue
        for t in I.rv(s, n.a["obj"]):
            b = H.base_loc(t)
            if b is None:
                continue
            l = b + (n.a["name"],)
            acc.append((s, l, "write" if n.op == "setattr" else "read"))
            if n.op == "attr" or True:
                for v in A.V(t, n.a["name"]):
                    if v.k in ("set", "list", "dict"):
                        vals.setdefault(v, set()).add(l)
    # uses of the containers themselves
    uses = []
    def stands(v):
        l = H.loc_of(v)
        return {l} if l is not None else vals.get(v, set())
    def isself(t):
        return H.loc_of(t) is not None
    for s in range(len(I.states)):
        n = I.node(s)
        ops = []
        if n.op == "next":
            ops = [n.a["it"]]
        elif n.op == "cmp":
            ops = [n.a.get("l"), n.a.get("r")] + list(n.a.get("args", []))
        elif n.op in ("branch",):
            ops = [n.a["c"]]
        elif n.op in ("setsub", "delsub", "sub"):
            ops = [n.a.get("obj"), n.a.get("o")]
        for o in ops:
            if not isinstance(o, str):
                continue
            for v in I.rv(s, o):
                for y in ([v] if n.op != "branch" else [v] + list(x for x in v.a if isinstance(x, T))):
                    if isself(y):
                        uses.append((s, H.loc_of(y), "use", False))
    for sid, rec in I.calls.items():
        for f, a, k, e in rec:
            if f.k == "meth" and isself(f.a[0]):
                uses.append((sid, H.loc_of(f.a[0]), "write" if f.a[1] in MUT else "use", f.a[1] in MUT))
            elif f.k == "meth" and f.a[0] in vals and f.a[1] in MUT:
                for l in vals[f.a[0]]:
                    pass
            if f.k in ("ext", "meth") and not e:
                for x in list(a) + list(k.values()):
                    for v in x:
                        if isself(v):
                            uses.append((sid, H.loc_of(v), "use", False))
    wr, cb, lp = set(), set(), set()
    for s, l, kind in acc + [(s, l, k) for s, l, k, m in uses if m]:
        if in_ctor(s):
            continue
        if kind == "write":
            wr.add(l)
        root = I.ctxs[A.ancestors(s)[-1]].func
        (cb if root.qual in cbq else lp).add(l)
    shared = {l for l in wr if l in cb and l in lp and l not in locks}
    # fields of a record reached through a shared location belong to it
    R.need("shared fields", len(shared), 0)
    R.obl(shared, "held", cls.name, "no field is shared by the callbacks and the rebuild loop: events never reach the rebuild")
    held, probs = held_states(H, locks)
    byloc = {}
    reported = set()
    for s, l, kind in acc:
        if l in shared and not in_ctor(s):
            byloc.setdefault(l, []).append((s, kind))
    for l, xs in sorted(byloc.items()):
        sets = []
        for s, kind in xs:
            for h in held.get(s, ()):
                sets.append((s, frozenset(k for k, _ in h)))
        cand = {}
        for s, h in sets:
            for k in h:
                cand[k] = cand.get(k, 0) + 1
        best = max(sorted(cand), key=lambda k: cand[k]) if cand else None
        bad = {}
        for s, h in sets:
            if best not in h:
                bad.setdefault(I.func(s).qual, s)
        if not bad:
            R.ok("held", ".".join(l), len(sets))
        for q, s in sorted(bad.items()):
            R.bad("held", "%s in %s" % (".".join(l), q), "the shared field is read or written without holding the lock", A.where(s))
            reported.add((l, q))
        # values taken from the field under the lock and used after it was released
        for s, ul, kind, m in uses:
            if ul != l or in_ctor(s) or (l, I.func(s).qual) in reported:
                continue
            for h in held.get(s, ()):
                if best in dict(h):
                    continue
                if kind == "use" and I.node(s).op in ("branch", "cmp") and not container(H, l):
                    continue
                if not container(H, l) and kind != "write":
                    continue
                if exclusively_owned(H, s, l):
                    continue
                R.bad("held", "%s in %s" % (".".join(l), I.func(s).qual), "the content of the shared field is used after the lock was released", A.where(s))
                reported.add((l, I.func(s).qual))
                break
    for s in range(len(I.states)):
        cid, pc, part = I.states[s]
        if I.ctxs[cid].csid is None and pc in (I.ctxs[cid].ir.exit, I.ctxs[cid].ir.excexit):
            leak = {h for h in held.get(s, ()) if h}
            R.obl(not leak, "released", "exit of %s" % I.ctxs[cid].func.qual, "the lock can still be held when the function ends", A.where(s))
    for what, s, l in sorted(set(probs)):
        R.bad("released", "%s in %s" % (".".join(l), I.func(s).qual), {"deadlock": "the lock is taken again while it is held, and it is not reentrant",
              "unheld-release": "the lock is released without being held", "unreleased": "the lock is taken without being released"}[what], A.where(s))
    for s, l, kind in acc:
        if kind == "write" and l in locks and not in_ctor(s):
            R.bad("one-lock", "%s in %s" % (".".join(l), I.func(s).qual), "the lock is replaced, so that its holders no longer exclude each other", A.where(s))
    R.assume += ["the observer calls only the handler's on_* methods; the constructor runs before the handler is shared"]


def container(H, l):
    """Whether the location holds a container (it is mutated in place or created as one)."""
    A = H.A
    for t in H.selfs:
        x = t
        for i, name in enumerate(l):
            st = A.V(x, name)
            if i == len(l) - 1:
                if any(v.k in ("set", "list", "dict") for v in st):
                    return True
            x = mk("attr", x, name)
    for sid, rec in A.I.calls.items():
        for f, a, k, e in rec:
            if f.k == "meth" and H.loc_of(f.a[0]) == l and f.a[1] in MUT:
                return True
    return False


def exclusively_owned(H, s, l):
    """Every path to the use replaces the field after its value was loaded."""
    A, I = H.A, H.I
    ld, st = set(), set()
    for q in range(len(I.states)):
        n = I.node(q)
        if n.op in ("attr", "setattr") and any(H.base_loc(t) is not None and H.base_loc(t) + (n.a["name"],) == l for t in I.rv(q, n.a["obj"])):
            (ld if n.op == "attr" else st).add(q)
    return not any(s in A.F.reach([q], stop_node=lambda x: x in st) for q in ld)
