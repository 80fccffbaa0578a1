"""C20: the metadata which marks an image export as complete is written last."""
from engine.q import *
from engine.par import Jobs
from .c18 import GET, GETOR, RESERVE, SCAN, EXPORT, HASHS, HASHF, PRODUCE
from .c19 import last, inart
from .hot_common import loops, body, puts

TECHNIQUE = "ordering of file effects and outcomes of encoder jobs before the completing write, over every path of the exporter (futures typestate, must-precede)"
PLACE = {"rename", "copy", "symlink", "link", "save", "write", "remove", "rmtree"}


def check(R):
    R.rule("jobs", "the metadata is written only where every encoder job handed out has ended and is known not to have failed")
    R.rule("reported", "an encoder failing to save its image ends in an error, not in a normal result")
    R.rule("placed", "every artifact listed in the metadata was moved to its final name before")
    R.rule("last", "no artifact of the export is written, moved or removed after the metadata was begun")
    R.rule("only", "nothing but the exporter writes such metadata; a reservation does not")
    opq = OPAQUE + (HASHS, HASHF, GET, RESERVE, GETOR)
    A = Ana(R.p, [(EXPORT, {}, None)], opaque=opq)
    R.uses(A)
    I, F = A.I, A.F
    cid = A.eid[EXPORT]
    main = F.reach(A.start(cid))
    effs = [e for e in F.effects()]
    done = {}
    for e in effs:
        if e.kind in ("write", "rename", "copy") and any(inart(t) and last(t) == "metadata.json" for t in e.path):
            done[e.sid] = e
    R.need("writes of the metadata", len(done))
    D = set(done)
    # jobs
    J = Jobs(A)
    enc = {}
    for fut, subs in J.subs.items():
        if any(PRODUCE in (c.qual for c in job_funcs(A, fut)) for _ in [0]) or saves_in(A, fut):
            enc[fut] = subs
    direct = {s for s, (f, a, k, e) in A.named(PRODUCE).items() if s in main}
    direct |= {e.sid for e in effs if e.kind == "save" and e.sid in main}
    R.need("encoder jobs", len(enc) + len(direct))
    names = set()
    for fut, subs in enc.items():
        con = "encoder jobs submitted in " + I.func(min(subs)).qual.split(".")[-1]
        bad = J.undrained(fut, D)
        R.obl(not bad, "jobs", con, "the metadata can be written while an encoder may still run or after one failed", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())
        d = J.dropped(fut, D)
        R.obl(not d, "jobs", con + ": kept", "an encoder job is not kept, its failure is never noticed", A.where(min(d)) if d else "")
    for s in direct:
        exc = [t for t, l in I.succ[s] if l in ("exc", "excret")]
        hit = F.reach(exc) & D
        R.obl(not hit, "jobs", "encoding in " + I.func(s).qual.split(".")[-1], "the metadata is written although encoding failed", A.where(s))
    # failures of the encoder
    P = Ana(R.p, [(PRODUCE, {}, None)])
    R.uses(P)
    sv = {e.sid for e in P.F.effects() if e.kind in ("save", "write")}
    R.need("saves of the encoder", len(sv))
    pc = P.eid[PRODUCE]
    okg = lambda s, t, l: s in sv and l != "exc"
    g = P.F.guarded(set(P.exits(pc)), okg)
    R.obl(not g, "reported", "produce_image", "the encoder can end normally without having saved an image", P.where(min(sv)), P.trace(bad=min(g)) if g else ())
    for s in sv:
        exc = [t for t, l in P.I.succ[s] if l == "exc"]
        r = P.F.reach(exc, stop_edge=lambda a, b, l: okg(a, b, l))
        R.obl(not (r & set(P.exits(pc))), "reported", "failure of the save in " + P.I.func(s).qual.split(".")[-1], "a failure to save an image is not passed on", P.loc(s))
    # the listed artifacts
    listed(R, A, D, effs)
    # after
    for s in sorted(D):
        after = F.reach([t for t, l in I.succ[s]])
        for e in effs:
            if e.kind in PLACE and e.sid in after and e.sid not in D and any(inart(t) and last(t) != "metadata.json" for t in e.path):
                # a path of the same round only
                R.bad("last", "%s in %s" % (e.kind, I.func(e.sid).qual.split(".")[-1]), "an artifact is still touched after the export was marked as complete", A.loc(e.sid), A.F.path(e.sid))
        R.ok("last", "effects after the metadata write in " + I.func(s).qual.split(".")[-1])
    for e in effs:
        if e.kind == "save" and e.sid in main:
            pass
    # others
    B2 = Ana(R.p, [(RESERVE, {}, None), (SCAN, {}, None)], opaque=OPAQUE + (HASHS, HASHF))
    R.uses(B2)
    for e in B2.F.effects():
        if e.kind in ("write", "rename", "copy", "touch", "symlink") and any(inart(t) for t in e.path):
            R.obl(not any(last(t) == "metadata.json" for t in e.path), "only", "%s in %s" % (e.kind, B2.I.func(e.sid).qual.split(".")[-1]), "an export is marked as complete by what only reserves or scans it", B2.loc(e.sid))


def job_funcs(A, fut):
    t = fut.a[0]
    q = t.a[0] if t.k in ("func", "closure") else t.a[1] if t.k == "bound" else None
    f = A.p.funcs.get(q)
    return [f] if f else []


def saves_in(A, fut):
    I = A.I
    for k, c in A.spawned.items():
        if any(k[0] == s for s in ()):
            pass
    fs = {f.qual for f in job_funcs(A, fut)}
    for e in A.F.effects():
        if e.kind == "save":
            root = A.ancestors(e.sid)[-1]
            if any(c == root and k[1] in fs for k, c in A.spawned.items()):
                return True
    return False


def listed(R, A, D, effs):
    I, F = A.I, A.F
    outs = {}
    ps = list(puts(A))
    for sid, c, ks, vs, cp in ps:
        for v in set(ks) | set(vs):
            if v.k == "obj" and I.typeof(v) is not None and I.typeof(v).name == "ImageTargetOutput" and sid in F.reach([sid]) | {sid}:
                if F.reach([sid]) & D:
                    outs.setdefault(v, set()).add(sid)
    R.need("artifacts listed", len(outs))
    placed = {}
    for e in effs:
        if e.kind in ("rename", "save", "copy", "write", "link", "symlink"):
            for t in e.path:
                if inart(t):
                    placed.setdefault(rest(t), set()).add(e.sid)
    for o, sids in outs.items():
        vs = A.V(o, "relpath")
        got = set()
        miss = []
        for v in vs:
            k = rest(v)
            hit = placed.get(k)
            if hit is None:
                miss.append(v)
            else:
                got |= hit
        for sid in sids:
            con = "artifact listed in " + I.func(sid).qual.split(".")[-1]
            if not R.obl(vs and not miss, "placed", con, "nothing is moved to the name listed: " + ", ".join(sorted(show(norm(v))[-80:] for v in miss)[:2]), A.loc(sid)):
                continue
            # a round which lists without having placed
            gen = A.done(got)
            inner, start = set(), A.start(A.eid[EXPORT])
            size = None
            for key, (ns, items) in groups(A).items():
                b = F.reach(items, stop_node=lambda x: x in ns)
                if sid in b and got & b and (size is None or len(b) < size):
                    inner, start, size = ns, items, len(b)
            pre = F.reach(start, stop_edge=gen, stop_node=lambda x: x in inner)
            post = F.reach([sid], stop_edge=gen, stop_node=lambda x: x in inner)
            bad = sid in pre and (post & D or any(t in inner for x in post for t, l in I.succ[x]))
            R.obl(not bad, "placed", con + ": order", "an artifact can be listed without having been moved to its final name", A.loc(sid))


def groups(A):
    """Loops by place: {place: (states at the head, first states of a round)}"""
    out = {}
    for s, (items, dones) in loops(A).items():
        g = out.setdefault(A.I.states[s][:2], (set(), []))
        g[0].add(s); g[1].extend(items)
    return out


def rest(t):
    """What follows the folder of the export in an artifact's path."""
    ps = [x for x in parts(t)]
    for i in range(len(ps) - 1, -1, -1):
        x = ps[i]
        if x.k == "call" and ("get_target" in x.a[0] or "reserve_target" in x.a[0]):
            return tuple(("".join(cval(p) for p in [q]) if isstr(q) else norm(q)) for q in ps[i + 1:])
    return tuple(norm(q) for q in ps[-3:])
