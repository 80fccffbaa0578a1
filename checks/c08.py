"""C08: every project file a build step reads is reported as a dependency, by the scan as well."""
from engine.q import *
from checks.out_common import *
from engine.loops import Loops
from checks.c09 import rooted, result_of, past

TECHNIQUE = "effect analysis of each build step: every file-reading effect below the project folder is matched with a recording of the same path term (or of the source it is published from) on every path to the step's end through it; must-condition comparison with what the scan records"
REL = mk("sym", "relpath")
OWN = ("artifacts", "src/public/js/gen/", "src/public/css/gen/", "out/www/js/gen/", "out/www/css/gen/", "out/www/img/gen/")


def check(R):
    R.rule("reported", "every project file whose contents a build step reads is its source, an output of the step itself, or recorded as a dependency on every path to the step's end")
    R.rule("rejected", "the same where the file was read but found unfit")
    R.rule("scanned", "every dependency form which building reports is reported by the scan, under no condition which building does not need")
    R.rule("forwarded", "dependencies reported by a partial build or scan are forwarded")
    ms = manipulators(R.p)
    n = 0
    for kind, x, name in [("manip", c, c.qual) for c in ms] + [("handler", h, h) for h in handlers(R.p)]:
        if kind == "manip":
            A, q = drive_manip(R.p, x, "build", linked=True)
            SA, sq = drive_manip(R.p, x, "scan", linked=True)
        else:
            A, q = drive_handler(R.p, x, "build_file", ms)[:2]
            SA, sq = drive_handler(R.p, x, "scan_file", ms)[:2]
        R.uses(A)
        R.uses(SA)
        short = name.split("vanillaplusjs.")[-1].replace("build.", "")
        n += reads(R, A, q, short)
        scan(R, short, kind, SA, sq, A, q)
        forwarded(R, A, q, short, "build", "children", ("build_result", "build_file"), {"hash.build_file", "hash.calculate_hash"})
        forwarded(R, SA, sq, short, "scan", "dependencies", ("scan_result", "scan_file"), {"hash.scan_file"})
    R.need("reads of project files by build steps", n)
    R.assume += ["files under artifacts and under the generated folders of outlined parts are outputs of the step that reads them", "a path read is identified by its term; names which cannot be traced to the project folder are not checked"]


def key(t):
    """The path as a sequence of characters and opaque parts."""
    out = []
    for x in parts(t):
        if isstr(x):
            out.extend(cval(x))
        else:
            out.append(norm(x))
    return tuple(out)


def below(k, n):
    """``k`` is a name below ``n``: the name itself, where it was cut out of another."""
    p = tuple(n)
    if k[:len(p)] != p or len(k) != len(p) + 1 or not isinstance(k[-1], T):
        return None
    t = k[-1]
    if t.k == "slice" and t.a[1] is const(len(n)) and t.a[2] is NONE:
        return key(t.a[0])
    if t.k == "call" and t.a[0].split(".")[-1] == "relpath" and len(t.a) == 3 and isstr(t.a[2]) and cval(t.a[2]).rstrip("/") == n.rstrip("/"):
        return key(t.a[1])
    return None


def sources(t):
    """Names which, reported, make an edit of what ``t`` is made from visible."""
    k = t if isinstance(t, tuple) and not isinstance(t, T) else key(t)
    out = {k}
    h = tuple(".hash")
    if k[-5:] == h:
        out.add(k[:-5])
    for y in list(out):
        p = tuple("out/www/")
        if y[:len(p)] == p:
            out.add(tuple("src/public/") + y[len(p):])
    for y in list(out):
        b = below(y, "src/public/")
        if b is not None:
            out.add(b)
    return out


def unabs(t):
    while t.k == "call" and t.a[0].split(".")[-1] in ("abspath", "realpath", "normpath") and len(t.a) > 1 and isinstance(t.a[1], T):
        t = t.a[1]
    return t


def reads(R, A, q, name):
    I = A.I
    start = A.start(A.eid[q])
    rep = reported(A, q)
    held = held_fields(A, q)
    kids = {}
    for v in rep.get("children", ()):
        if v is not NONE and owner(v) is None:
            kids.setdefault(key(v), set()).add(v)
    at = {}
    for sid, cont, vals, src in additions(A):
        if "children" in held.get(cont, ()):
            copied = {v for c in src for v in I.elems(sid, frozenset([c])) if c in held}
            for v in vals:
                if v not in copied:
                    at.setdefault(key(v), set()).add(sid)
    mine = {v for f in ("produced", "reused") for v in rep.get(f, ()) if v is not NONE}
    mineforms = {form(v, REL) for v in mine}
    ends = set(A.F.exits())
    n = 0
    for e in A.F.effects():
        if e.kind not in ("read", "copy", "symlink"):
            continue
        for t in (e.path if e.kind == "read" else e.other or ()):
            r = rooted(A, unabs(t))
            if r is None or r is REL:
                continue
            n += 1
            f = form(r, REL)
            s = showform(f)
            con = "%s: %s of %s" % (name, e.kind, s)
            if key(r) == key(REL) or r in mine or f in mineforms or s.startswith(OWN):
                R.ok("reported", con)
                continue
            S, hit = set(), False
            for k in sources(r):
                if k in kids:
                    hit = True
                    S |= at.get(k, set())
            if not R.obl(hit, "reported", con, "the file is read while building but never reported as a dependency", A.loc(e.sid)):
                continue
            S -= {e.sid}
            if not S:
                continue
            if e.sid not in A.F.reach(start, stop_node=lambda x: x in S):
                continue
            nxt = [x for x, l in I.succ[e.sid] if l != "exc"]
            empty = None
            fns, x = set(), e.sid
            while x is not None:
                fns.add(I.states[x][0])
                x = I.ctxs[I.states[x][0]].csid
            def rejects(x):
                n = I.node(x)
                return n.op == "ret" and n.a.get("src") is not None and I.states[x][0] in fns and I.rv(x, n.a["src"]) == frozenset([const(False)])
            after = A.F.reach(nxt, empty, lambda x: x in S or rejects(x))
            if after & ends - S:
                a1, a2 = again(A, start, e.sid, lambda x: x in S), against(A, start, e.sid)
                empty = lambda a, b, l: a1(a, b, l) or a2(a, b, l)
                if e.sid not in A.F.reach(start, a2, lambda x: x in S):
                    R.ok("reported", con)
                    continue
                after = A.F.reach(nxt, empty, lambda x: x in S or rejects(x))
            bad = list(after & ends - S)
            R.obl(not bad, "reported", con, "the file can be read without being reported as a dependency", A.loc(e.sid), A.F.path(bad[0]) if bad else ())
            rej = [x for x in A.F.reach(nxt, empty, lambda x: x in S) if rejects(x)]
            if rej and not bad:
                bad = list(A.F.reach(rej, empty, lambda x: x in S) & ends - S)
                R.obl(not bad, "rejected", con, "a file found unfit is not reported as a dependency: correcting it does not rebuild the reader", A.loc(e.sid), A.F.path(bad[0]) if bad else ())
    return n


def against(A, start, sid):
    """Edges contradicting what holds on every path to ``sid`` about the inputs of the step."""
    M = must(A, start, None, True).get(sid, ())
    known = {x: v for x, v in M if stable(x)}
    def cut(a, b, l):
        if l not in ("T", "F"):
            return False
        at = {atom(x, l == "T") for x in A.F.conds(a)}
        if len({v for _, v in at}) != 1:
            return False
        x = next(iter(at))[0] if len(at) == 1 else mk("alt", frozenset(y for y, _ in at))
        return x in known and known[x] != next(iter(at))[1]
    return cut


def stable(x):
    """A condition on the inputs alone: it cannot change during the step."""
    return all(stable(y) for y in x.a[0]) if x.k == "alt" else x.k != "choice" and not has(x, lambda y: y.k in ("any", "file", "fresh", "obj", "count") or y.k == "call" and y.a[0].split(".")[-1] in ("exists", "lexists", "isfile", "isdir", "stat", "read"))


def again(A, start, sid, stop):
    """Edges leaving a loop, which cannot be taken on its first round because what it runs over was found to have items on the way to ``sid``."""
    I = A.I
    loops = {}
    for s in A.F.node_states("next"):
        loops.setdefault((I.states[s][0], I.node(s).id), []).append(s)
    full = set()
    for k, ss in loops.items():
        its = set().union(*(I.rv(s, I.node(s).a["it"]) for s in ss))
        if len(its) == 1 and sid not in A.F.reach(start, lambda a, b, l: a in ss and l == "item"):
            full |= its
    cut = set()
    for k, ss in loops.items():
        for s in ss:
            its = I.rv(s, I.node(s).a["it"])
            if its and its <= full:
                first = [x for x, l in I.succ[s] if l == "item"]
                if not any(x in ss for x in A.F.reach(first, stop_node=stop)):
                    cut.add(s)
    return lambda a, b, l: a in cut and l == "done"


def scan(R, short, kind, SA, sq, BA, bq):
    s, b = reported(SA, sq), reported(BA, bq)
    sc = {form(t, REL): t for t in s.get("dependencies", ()) if t is not NONE}
    bd = {form(t, REL): t for t in b.get("children", ()) if t is not NONE}
    sr, br = at_return(SA, sq, REL, True), at_return(BA, bq, REL)
    ss, _ = recorded(SA, sq, REL, kind == "handler", True)
    bs, bat = recorded(BA, bq, REL, kind == "handler")
    for f, t in sorted(bd.items(), key=lambda x: showform(x[0])):
        if f == (("l", "S"),) and kind == "manip" or f == form(REL, REL):
            acc = [g for g in sc if g == f] or None
            if acc is None:
                continue
        else:
            acc = [g for g in sc if accepts(g, f)]
        at = BA.where(bat[("D", f)]) if ("D", f) in bat else ""
        if f and f[0][0] == "m" and f[0][1][0] in ("x",):
            continue
        if not R.obl(bool(acc), "scanned", "%s: %s" % (short, showform(f)), "building may depend on %s, which scanning never reports" % showform(f), at,
                     ["scanning reports only: " + ", ".join(sorted(map(showform, sc))[:12])]):
            continue
        bad = None
        for sx, bx in ((ss, bs), (sr, br)):
            places = [x for g in acc for x in sx.get(("D", g), ())]
            if not places or ("D", f) not in bx:
                continue
            need = frozenset.intersection(*places)
            for m in bx[("D", f)]:
                if not any(p <= m for p in places) and need - m:
                    bad = need - m
        R.obl(bad is None, "scanned", "%s: %s" % (short, showform(f)), "scanning reports it only under a condition building does not need", at,
              ["only if %s%s" % ("" if v else "not ", show(x)) for x, v in (bad or ())])


def forwarded(R, A, q, name, what, field, fns, leaf):
    I = A.I
    rep = reported(A, q)
    have = set()
    for v in rep.get(field, ()):
        o = owner(v)
        if o is not None:
            have.add(o[0])
    L = Loops(A)
    ends = set(A.F.exits())
    held = held_fields(A, q)
    given = {}
    for sid, c, vals, src in additions(A):
        if field in held.get(c, ()):
            copied = {v for x in src for v in I.elems(sid, frozenset([x])) if x in held}
            for v in vals:
                o = owner(v)
                if o is not None and v not in copied:
                    given.setdefault(o[0], set()).add(sid)
    for sid, f, args, kws, e in A.F.calls():
        if A.F.name(f).split(".")[-1] in fns and not e:
            for t in I.V.get((sid, "ret"), ()) or result_of(I, sid):
                if t.k == "call" and len(t.a) > 1:
                    o = owner(mk("elem", mk("attr", t, field)))
                    if o is not None:
                        w = o[0].split(".")[-1] if isinstance(o[0], str) else show(o[0])
                        R.obl(o[0] in have, "forwarded", "%s: %s dependencies of %s" % (name, what, w), "what a partial %s depends on is not reported as a dependency" % what, A.loc(sid))
                        if o[0] in have and given.get(o[0]):
                            bad = past(A, L, sid, given[o[0]], ends, field)
                            R.obl(not bad, "forwarded", "%s: %s dependencies of %s always" % (name, what, w), "what a partial %s depends on can be left out of the report" % what, A.loc(sid), A.F.path(min(bad)) if bad else ())
