"""C09: what a build step leaves under out or artifacts it reports as produced; reused means found to exist."""
from engine.q import *
from checks.out_common import *
from engine.loops import Loops
from engine.flow import Flow

TECHNIQUE = "effect analysis of each build step: every file-creating effect under out/ or artifacts/ is matched with a recording of the same path term on every path from start to end through it; must-condition check of what is recorded as reused"
REL = mk("sym", "relpath")
LEAVES = {"write", "rename", "copy", "symlink", "link", "touch", "save"}


def check(R):
    R.rule("written", "every file created under out or artifacts is recorded as produced on every path to the step's end, or is removed or moved away by the step itself")
    R.rule("reused", "a path is recorded as reused only where it was found to exist (artifacts and locks: where the marker of their export was)")
    R.rule("forwarded", "outputs reported by a partial build are forwarded, as produced where that build says produced")
    ms = manipulators(R.p)
    n = k = 0
    for kind, x, name in [("manip", c, c.qual) for c in ms] + [("handler", h, h) for h in handlers(R.p)]:
        A, q = drive_manip(R.p, x, "build") if kind == "manip" else drive_handler(R.p, x, "build_file", ms)[:2]
        R.uses(A)
        a, b = step(R, A, q, name.split("vanillaplusjs.")[-1].replace("build.", ""), kind)
        n += a
        k += b
    R.rule("kept", "where a file is only created when it does not exist, it is reported on every path on which it was found to exist")
    R.need("file-creating effects of build steps", n)
    R.need("recordings as reused", k)
    R.assume += ["temporary files are recognised by the form of their path"]


def rooted(A, t):
    """Name relative to the project folder."""
    for s in ("context", "build_context"):
        r = relpath(t, mk("attr", mk("sym", s), "folder"))
        if r is not None:
            return r
    return None


def step(R, A, q, name, kind):
    I = A.I
    cid = A.eid[q]
    start = A.start(cid)
    rep = reported(A, q)
    prod, reus = rep.get("produced", set()), rep.get("reused", set())
    held = held_fields(A, q)
    adds = list(additions(A))
    sk = {}
    for sid, cont, vals, src in adds:
        for fld in ("produced", "reused"):
            if fld in held.get(cont, ()):
                copied = {v for c in src for v in I.elems(sid, frozenset([c])) if c in held}
                for v in vals:
                    if v not in copied:
                        sk.setdefault((fld, v), set()).add(sid)
    gone = set()
    for e in A.F.effects():
        if e.kind == "remove":
            gone |= {form(x, REL) for x in e.path}
        if e.kind == "rename" and e.other:
            gone |= {form(x, REL) for x in e.other}
    ends = set(A.F.exits())
    n = 0
    for e in A.F.effects():
        if e.kind not in LEAVES:
            continue
        for t in e.path:
            r = rooted(A, t)
            if r is None:
                continue
            ps = parts(r)
            top = cval(ps[0]).split("/")[0] if isstr(ps[0]) else None
            if top not in ("out", "artifacts"):
                continue
            n += 1
            f = showform(form(r, REL))
            con = "%s: %s of %s" % (name, e.kind, f)
            if form(t, REL) in gone:
                R.ok("written", con)
                continue
            if not R.obl(r in prod, "written", con, "the file is created but never reported as produced" + (", only as reused" if r in reus else ""), A.loc(e.sid)):
                continue
            # once recorded as produced somewhere, reporting it as reused on a
            # path keeps it tracked all the same
            S = sk.get(("produced", r), set()) - {e.sid}
            if not S:
                continue
            S |= sk.get(("reused", r), set()) - {e.sid}
            before = A.F.reach(start, stop_node=lambda s: s in S)
            if e.sid not in before:
                R.ok("written", con)
                continue
            after = A.F.reach([x for x, l in I.succ[e.sid] if l != "exc"], stop_node=lambda s: s in S)
            bad = [x for x in after & ends if not any(y in S for y in [x])]
            R.obl(not bad, "written", con, "the file can be left behind without being reported as produced", A.loc(e.sid), A.F.path(bad[0]) if bad else ())
    # reused
    k = 0
    M = must(A, start, None, True)
    losers(R, A, name, ends)
    kept(R, A, cid, name, [e for e in A.F.effects() if e.kind in LEAVES and e.sid in M], M, sk, gone, ends)
    found = {}
    for sid, cont, vals, src in adds:
        if "reused" not in held.get(cont, ()) or sid not in M:
            continue
        yes = set()
        for x, b in M[sid]:
            for y in (x.a[0] if x.k == "alt" else [x]) if b else ():
                if y.k == "call" and y.a[0].split(".")[-1] in ("exists", "lexists", "isfile", "is_file") and isinstance(y.a[1], T):
                    yes.add(y.a[1])
        fs = {r for r in (rooted(A, y) for y in yes) if r is not None}
        for v in vals:
            if v is NONE or owner(v) is not None:
                continue
            strict = not showform(form(v, REL)).startswith(("artifacts/", "out/locks/"))
            good = v in fs or any(form(v, REL) == form(y, REL) for y in fs) or not strict and any(showform(form(y, REL)).startswith(("artifacts/", "out/www")) for y in fs)
            found.setdefault(v, []).append((sid, good, yes))
    for v, l in found.items():
        where = {I.func(s).qual for s, g, y in l if g}
        for sid, good, yes in l:
            k += 1
            if not good and where and I.func(sid).qual not in where:
                continue          # handed on from where it was found
            R.obl(good, "reused", "%s: %s" % (name, showform(form(v, REL))), "reported as reused without having been found to exist in the project folder", A.loc(sid),
                  ["tests known to have succeeded: " + (", ".join(sorted(show(y) for y in yes)) or "none")])
    # partial builds
    fw = {}
    for f in ("produced", "reused"):
        for v in rep.get(f, ()):
            o = owner(v)
            if o is not None:
                fw.setdefault((o[0], v.a[0].a[1]), set()).add(f)
    subs = {}
    for sid, f, args, kws, e in A.F.calls():
        nm = A.F.name(f).split(".")[-1]
        if nm in ("build_result", "build_file") and not e and sid in M:
            for t in I.V.get((sid, "ret"), ()) or result_of(I, sid):
                if t.k == "call" and len(t.a) > 1:
                    o = owner(mk("elem", mk("attr", t, "produced")))
                    if o is not None:
                        subs.setdefault(o[0], sid)
    merged(R, A, name, sk, fw, subs, ends)
    for who, sid in sorted(subs.items(), key=lambda x: str(x[0])):
        w = who.split(".")[-1] if isinstance(who, str) else show(who)
        R.obl("produced" in fw.get((who, "produced"), ()), "forwarded", "%s: produced by %s" % (name, w), "what a partial build produced is not reported as produced", A.loc(sid))
        R.obl(bool(fw.get((who, "reused"))), "forwarded", "%s: reused by %s" % (name, w), "what a partial build reused is not reported", A.loc(sid))
    return n, k


def kept(R, A, cid, name, effs, M, sk, gone, ends):
    I = A.I
    done = set()
    for e in effs:
        for t in e.path:
            r = rooted(A, t)
            if r is None or form(t, REL) in gone or (r, e.sid) in done:
                continue
            ft = form(t, REL)
            asks = set()
            for x, b in M[e.sid]:
                ys = [y for y in (x.a[0] if x.k == "alt" else [x]) if exists(y) is not None]
                if not b and any(form(exists(y), REL) == ft for y in ys):
                    asks |= set(ys)
            if not asks:
                continue
            done.add((r, e.sid))
            S = set()
            for (fld, v), ss in sk.items():
                if form(v, REL) == form(r, REL):
                    S |= ss
            S.add(e.sid)
            not_ = lambda s, u, l: any(x in asks and not b for x, b in A.F.edge_atoms(s, l) or ())
            before = A.F.reach(A.start(cid), stop_node=lambda s: s in S)
            froms = {v for s in before for v, l in I.succ[s] if l in ("T", "F") and any(x in asks and b for x, b in A.F.edge_atoms(s, l) or ())}
            after = A.F.reach([x for x in froms if x not in S], stop_edge=not_, stop_node=lambda s: s in S)
            bad = after & ends
            R.obl(not bad, "kept", "%s: %s of %s" % (name, e.kind, showform(form(r, REL))), "the file is not reported where it was found to exist and is not created again", A.loc(e.sid), A.F.path(min(bad)) if bad else ())


def losers(R, A, name, ends):
    """Where one of several files made is chosen and moved to its place, the other ones are removed."""
    I, F = A.I, A.F
    defs = {}
    def source(cid, reg, d=6):
        """(context, variable) a register was loaded from, through parameters of helpers."""
        ir = I.ctxs[cid].ir
        if id(ir) not in defs:
            defs[id(ir)] = {}
            for n in ir.nodes:
                if n.dst is not None and n.op != "store":
                    defs[id(ir)].setdefault(n.dst, []).append(n)
        ns = defs[id(ir)].get(reg, ())
        if len(ns) != 1 or ns[0].op != "load":
            return None
        v, c = ns[0].a["name"], I.ctxs[cid]
        ps = c.func.params()
        if v in ps and c.csid is not None and d:
            call = I.node(c.csid)
            kw = [r for k, r in call.a.get("kws", ()) if k == v]
            i = ps.index(v) - (1 if c.func.cls is not None else 0)
            r = kw[0] if kw else call.a["args"][i] if 0 <= i < len(call.a.get("args", ())) else None
            return source(I.states[c.csid][0], r, d - 1) if isinstance(r, str) else None
        return cid, v
    stores, gone, moved, others = {}, {}, {}, set()
    for s in F.node_states("store"):
        stores.setdefault((I.states[s][0], I.node(s).dst), set()).add(s)
    for e in F.effects():
        if e.kind in ("remove", "rename") and I.node(e.sid).op == "call":
            rs = [r for r in I.node(e.sid).a["args"] if isinstance(r, str)]
            v = source(I.states[e.sid][0], rs[0]) if rs else None
            if v is not None:
                (gone if e.kind == "remove" else moved).setdefault(v, set()).add(e.sid)
            elif e.kind == "remove":
                others.add(e.sid)
    if not moved:
        return
    L = Loops(A)
    flow = Flow(A)
    for (cid, b), mv in sorted(moved.items(), key=str):
        for s in sorted(stores.get((cid, b), ())):
            x = source(cid, I.node(s).a["src"])
            lps = L.of(s)
            if x is None or x[0] != cid or not lps or I.node(L.states(lps[0])[0]).op != "next":
                continue
            lp, hs = lps[0], set(L.states(lps[0]))
            made = {q for q in stores.get(x, ()) if L.within(q, lp)}
            if not made or any(L.within(m, lp) for m in mv):
                continue
            if any(L.within(q, lp) for q in others) or any(v not in (x, (cid, b)) and any(L.within(q, lp) for q in qs) for v, qs in gone.items()):
                continue          # what is removed is chosen in another way
            # variables which tell whether something was chosen before
            tell = {v for (c, v), qs in stores.items() if c == cid and any(L.within(q, lp) for q in qs) and any(not L.within(q, lp) and NONE in I.rv(q, I.node(q).a["src"]) for q in qs)}
            ir = I.ctxs[cid].ir
            memo = {}
            def none(q, t, l):
                if l not in ("T", "F") or I.states[q][0] != cid:
                    return False
                if q not in memo:
                    memo[q] = asks(I.node(q).a["c"])
                return memo[q] == l
            def asks(reg, flip=False):
                """The edge on which nothing was chosen before."""
                source(cid, reg)
                ns = defs[id(ir)].get(reg, ())
                if len(ns) != 1:
                    return None
                n = ns[0]
                if n.op == "load" and n.a["name"] in tell:
                    return "T" if flip else "F"
                if n.op == "unop" and n.a["op"] in ("Not", "not"):
                    return asks(n.a["v"], not flip)
                if n.op == "cmp" and n.a["op"] in ("Is", "IsNot", "Eq", "NotEq"):
                    vs = [source(cid, n.a["l"]), source(cid, n.a["r"])]
                    cs = [k for r in (n.a["l"], n.a["r"]) for k in defs[id(ir)].get(r, ()) if k.op == "const" and k.a["v"] is None]
                    if cs and any(v is not None and v[1] in tell for v in vs):
                        return "T" if (n.a["op"] in ("Is", "Eq")) != flip else "F"
                return None
            chosen = stores[(cid, b)]
            exc = lambda a, t, l: l == "exc"
            mine = gone.get(x, set())
            con = "%s: files %s is chosen from" % (name, b)
            bars = stores.get((cid, b), set())
            other = {}
            def apart(q, t, l):
                """The path is decided by something else than the files: this one was never made."""
                if l not in ("T", "F"):
                    return False
                c, p = I.states[q][:2]
                if (c, p) not in other:
                    at = {I.states[m][:2] for m in made}
                    sl = flow.slice(c, p, I.node(q).a["c"])
                    other[c, p] = not any(y in at or y[0] == cid and flow.node(*y).op == "load" and flow.node(*y).a["name"] in tell for y in sl)
                return other[c, p]
            r = F.reach({t for q in made for t, l in I.succ[q]}, A.any(exc, apart, A.done(mine)), lambda q: q in bars or q in hs)
            hit = {q for q in r for t, l in I.succ[q] if t in hs and l != "exc" and q not in bars and not A.done(mine)(q, t, l)}
            R.obl(not hit, "written", con, "a file which is not chosen can be left behind", A.loc(min(made)))
            first = [t for h in hs for t, l in I.succ[h] if l == "item"]
            r = F.reach(first, A.any(exc, none, A.done(gone.get((cid, b), set()))), lambda q: q in hs) & bars
            R.obl(not r, "written", con, "a file which was chosen before can be left behind", A.loc(s))
            after = [t for h in hs for t, l in I.succ[h] if l == "done"]
            r = F.reach(after, A.any(exc, none, A.done(mv)), lambda q: q in hs)
            out = {q for l2 in L.of(min(hs))[:2] if l2 != lp for q in L.states(l2)}
            R.obl(not r & (out | set(ends)), "written", con, "the chosen file can be left behind", A.loc(min(mv)))


def empty(x, b, side):
    """Known to be empty when x is b."""
    if x.k == "attr" and x.a[1] == side:
        return not b
    ns = [y for y in subterms(x) if y.k == "attr" and y.a[1] == side]
    if x.k == "call" and x.a[0].split(".")[-1] in ("len", "bool") and ns:
        return not b
    if x.k == "cmp" and ns and any(y.k == "const" for y in x.a[1:]):
        try:
            l, r = [0 if y.k != "const" else cval(y) for y in x.a[1:3]]
            return {"Gt": l > r, "Lt": l < r, "GtE": l >= r, "LtE": l <= r, "Eq": l == r, "NotEq": l != r}.get(x.a[0], not b) == b
        except TypeError:
            return False
    return False


def exists(x):
    if x.k == "call" and len(x.a) > 1 and isinstance(x.a[0], str) and x.a[0].split(".")[-1] in ("exists", "lexists", "isfile", "is_file") and isinstance(x.a[1], T):
        return x.a[1]
    return None


def past(A, L, sid, S, ends, side):
    """Ends reached from sid without any of the forwarding states S, where there is something to forward."""
    I = A.I
    S = set(S)
    around = set(L.of(sid))
    for x in list(S):
        for lp in L.of(x):
            if lp not in around:
                S |= set(L.states(lp))
    none = lambda s, u, l: any(empty(x, b, side) for x, b in A.F.edge_atoms(s, l) or ())
    return A.F.reach([x for x, l in I.succ[sid] if l != "exc" and x not in S], stop_edge=none, stop_node=lambda s: s in S) & set(ends)


def merged(R, A, name, sk, fw, subs, ends):
    """Nothing goes past the forwarding of what a partial build reports."""
    I = A.I
    L = Loops(A)
    for who, sid in sorted(subs.items(), key=lambda x: str(x[0])):
        w = who.split(".")[-1] if isinstance(who, str) else show(who)
        for side in ("produced", "reused"):
            S = set()
            for (fld, v), ss in sk.items():
                o = owner(v)
                if o is not None and o[0] == who and v.a[0].a[1] == side and (fld == "produced" or side == "reused"):
                    S |= ss
            if not S:
                continue
            bad = past(A, L, sid, S, ends, side)
            R.obl(not bad, "forwarded", "%s: %s by %s always" % (name, side, w), "what a partial build %s can be left out of the report" % side, A.loc(sid), A.F.path(min(bad)) if bad else ())


def result_of(I, sid):
    n = I.node(sid)
    out = set()
    for t, l in I.succ[sid]:
        if l != "exc" and n.dst is not None:
            try:
                out |= I.rv(t, n.dst)
            except Exception:
                pass
    return out
