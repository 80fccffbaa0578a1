"""C16: a source file counts as unchanged only if its whole signature matches."""
from engine.q import *
from engine.sigs import *
from .hot_common import *

TECHNIQUE = "guard analysis of every round of the loop classifying source files, and data-flow of the three signature components from measurement to record and comparison"


def check(R):
    R.rule("unchanged", "a round which records a file neither as changed nor as added passed the equality of each component of its measured signature with the recorded component of the same name of the same file")
    R.rule("changed", "files recorded as changed are known ones, files recorded as added unknown ones, each with the signature measured for it")
    R.rule("deleted", "files reported as deleted are the recorded ones not found by the walk")
    R.rule("every", "every file found below the source folder is classified before the rebuild starts")
    R.rule("component", "recorded and measured components are of the same name everywhere")
    A = cold(R)
    I, F = A.I, A.F
    hots = A.named(HOTF)
    R.need("calls of the rebuild", len(hots))
    changed, added, deleted, old = set(), set(), set(), set()
    for sid, (f, args, kws, e) in hots.items():
        b = bound(A, HOTF, args, kws)
        changed |= set(b.get("changed_files", ())); added |= set(b.get("added_files", ())); deleted |= set(b.get("deleted_files", ()))
        old |= set(b.get("old_dependency_graph", ()))
    isold = lambda t: has(t, lambda x: x in old)
    walk = lambda t: has(t, lambda x: x.k == "call" and x.a[0] in ("os.walk",))
    lp = loops(A)
    L = {}
    for s, (items, dones) in lp.items():
        els = I.elems(None, I.rv(s, I.node(s).a["it"]))
        if any(walk(x) for x in els):
            L[s] = items
    ps = list(puts(A))
    cls = {sid: (c, ks, vs) for sid, c, ks, vs, _ in ps if c in changed or c in added}
    src = {}
    for sid, c, ks, vs, cp in ps:
        for k in cp:
            src.setdefault(c, set()).add(k)

    def feeds(c, seen=()):
        """Is a container iterated by a loop of L, or copied into one which is?"""
        for s in L:
            if c in I.rv(s, I.node(s).a["it"]):
                return True
        return any(c in v and o not in seen and feeds(o, seen + (o,)) for o, v in src.items())

    bodies = {s: body(A, s, items) for s, items in L.items()}
    its = {s: I.elems(None, I.rv(s, I.node(s).a["it"])) for s in L}
    within = lambda x, s: any(has(t, lambda y: y in its[s]) for t in I.rv(x, I.node(x).a["it"]))
    inner = {s: {x for x in L if x != s and x in bodies[s] and (s not in bodies[x] or within(x, s)) and not within(s, x)} for s in L}
    ends, handled = set(), set()

    def keyok(k, p):
        """Is k the name under which the file at p is known?"""
        return is_call(k, "os.path.relpath") and (k.a[1] == p or rel_join(p, k)) or rel_join(p, k)

    known = lambda x, v: x.k == "cmp" and (x.a[0] == "In" and v and walk(x.a[1]) and isold(x.a[2]) or x.a[0] == "Eq" and not v and NONE in (x.a[1], x.a[2]) and any(isold(y) and walk(y) for y in x.a[1:])) or x.k != "cmp" and v and isold(x) and walk(x)
    unknown = lambda x, v: x.k == "cmp" and (x.a[0] == "In" and not v and walk(x.a[1]) and isold(x.a[2]) or x.a[0] == "Eq" and v and NONE in (x.a[1], x.a[2]) and any(isold(y) and walk(y) for y in x.a[1:])) or x.k != "cmp" and not v and isold(x) and walk(x)

    def recorded(b, field):
        return b.k == "attr" and b.a[1] == field and isold(b)

    eqok = whole_eq(A)

    def same(p, b):
        """Does the recorded value b belong to the file at p?"""
        ks = [x.a[1] for x in subterms(b) if x.k == "item" and isinstance(x.a[1], T) and walk(x.a[1])]
        return any(keyok(k, p) for k in ks)

    def eq(field):
        def pred(x, v):
            if not (x.k == "cmp" and x.a[0] == "Eq" and v):
                return False
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                m = measured(A, a)
                if m is not None and m[1] == field and recorded(b, field) and same(m[0], b):
                    return True
                if a.k == "tup" and b.k == "tup" and len(a.a[0]) == len(b.a[0]):
                    for xs, ys in zip(a.a[0], b.a[0]):
                        if xs and ys and all(measured(A, q) and measured(A, q)[1] == field and all(same(measured(A, q)[0], y) for y in ys) for q in xs) and all(recorded(q, field) for q in ys):
                            return True
                if eqok and b.k in ("obj", "repl"):
                    p = sig_of_path(A, a)
                    if p is not None and all(fields_of(A, b, f) and all(recorded(y, f) and same(p, y) for y in fields_of(A, b, f)) for f in FIELDS):
                        return True
            return False
        return pred

    n = 0
    D = {d for d in deleted if d.k in ("set", "list", "dict")}
    dr = [(sid, ks) for sid, c, ks in drops(A) if c in D]
    for s in sorted(L):
        where = A.where(s)
        if inner[s]:
            # the files of a folder are looked at before the next folder
            done = lambda a, b, l: a in inner[s] and l == "done"
            bad = F.guarded({s}, done, start=L[s])
            R.obl(not bad, "every", "round over the folders", "a folder can be passed over", where, A.trace(bad=min(bad)) if bad else ())
            ends.add(s)
            continue
        ev = {x for x in cls if x in bodies[s]}
        coll = {sid for sid, c, ks, vs, cp in ps if sid in bodies[s] and any(walk(k) for k in ks) and feeds(c)}
        if not ev and not coll:
            continue
        ends.add(s)
        out = {s} | (set(hots) & F.reach(L[s])) | set(A.exits(None, True, False))
        if not ev:
            bad = F.guarded(out, A.done(coll), start=L[s])
            R.obl(not bad, "every", "round collecting the files", "a file can be passed over", where, A.trace(bad=min(bad)) if bad else ())
            continue
        n += 1
        stored = lambda a, b, l: a in ev and l not in ("exc", "call")
        for f in FIELDS:
            bad = F.guarded(out, A.any(stored, A.holds(eq(f))), start=L[s])
            R.obl(not bad, "unchanged", "files taken as unchanged: %s" % f, "a file can be taken as unchanged although its %s was not found to equal the recorded one" % f, where, A.trace(bad=min(bad)) if bad else ())
        for e in ev:
            c, ks, vs = cls[e]
            what = "changed" if c in changed else "added"
            if c in changed and c in added:
                R.bad("changed", "changed and added", "changed and added files are put into the same collection", A.loc(e))
            bad = F.guarded({e}, A.holds(known if c in changed else unknown), start=L[s])
            R.obl(not bad, "changed", "file recorded as %s" % what, "a file can be recorded as %s without having been found %s before" % (what, "known" if c in changed else "unknown"), A.loc(e), A.trace(bad=min(bad)) if bad else ())
            for v in vs:
                p = sig_of_path(A, v)
                R.obl(p is not None, "changed", "signature of a file recorded as %s" % what, "it is recorded with %s" % show(v)[:80], A.loc(e))
                if p is not None:
                    R.obl(any(keyok(k, p) for k in ks), "changed", "name of a file recorded as %s" % what, "it is recorded as %s" % show(ks)[:100], A.loc(e))
                    R.obl(all(x.a[0] in ("os.lstat", "lstat", ".lstat", "os.stat", ".stat") for x in subterms(v) if x.k == "call" and "stat" in x.a[0]), "component", "measurement", "not a measurement", A.loc(e))
        # deleted
        rem = {sid for sid, ks in dr if sid in bodies[s] and ks is not None}
        if rem:
            bad = F.guarded(out, A.any(A.done(rem), A.holds(unknown)), start=L[s])
            R.obl(not bad, "deleted", "known file found", "a file which exists can be reported as deleted", where, A.trace(bad=min(bad)) if bad else ())
        else:
            seen = {c for sid, c, ks, vs, cp in ps if sid in bodies[s] and any(walk(k) for k in ks) and not F.guarded(out, A.done({sid}) if I.node(sid).op == "call" else (lambda a, b, l, q=sid: a == q and l != "exc"), start=L[s])}
            notseen = lambda x, v: x.k == "cmp" and x.a[0] == "In" and not v and x.a[2] in seen
            from_ = lambda c, d=0: {c} | {z for x in src.get(c, ()) if d < 4 for z in from_(x, d + 1)}
            alld = {x for d in D for x in from_(d)}
            pd = [sid for sid, c, ks, vs, cp in ps if c in alld and not cp and I.node(sid).op in ("accadd", "setsub", "call") and any(isold(k) for k in ks)]
            ok = bool(pd) and not F.guarded(set(pd), A.holds(notseen))
            for sid, o, l, r in differences(A):
                if o in alld and r & seen:
                    ok = True
            R.obl(ok, "deleted", "known file found", "a file which exists can be reported as deleted", where)
    R.need("loops classifying the files", n)
    for sid in hots:
        for s in ends:
            if any(s in inner[x] for x in ends):
                continue
            bad = F.guarded({sid}, lambda a, b, l: a == s and l == "done")
            R.obl(not bad, "every", "rebuild", "the rebuild can start before every file was classified", A.loc(sid), A.trace(bad=min(bad)) if bad else ())
    for sid, ks in dr:
        if ks is None:
            R.bad("deleted", "reported deletions", "they are forgotten", A.loc(sid))
            continue
        R.obl(all(walk(k) for k in ks), "deleted", "file taken from the deleted ones", "%s is not a file found by the walk" % show(ks)[:80], A.loc(sid))
    # the deleted ones start as everything recorded
    for d in deleted:
        els = A.V(d, "*") | A.V(d, "*k") if d in D else frozenset([d])
        R.obl(any(isold(x) and not walk(x) for x in els), "deleted", "reported deletions", "they do not come from the recorded files", COLDF)
    for c in D:
        for s, (items, dones) in lp.items():
            its = I.rv(s, I.node(s).a["it"])
            if not any(isold(x) for x in its) or s in L:
                continue
            pd = {sid for sid, o, ks, vs, cp in ps if o == c and sid in body(A, s, items)}
            if not pd:
                continue
            seenin = lambda x, v: x.k == "cmp" and x.a[0] == "In" and v and x.a[2].k in ("set", "dict", "list") and any(walk(y) for y in A.V(x.a[2], "*") | A.V(x.a[2], "*k"))
            bad = F.guarded({s}, A.any(lambda a, b, l: a in pd and l not in ("exc", "call"), A.holds(seenin)), start=items)
            R.obl(not bad, "deleted", "recorded file not found", "a recorded file which does not exist any more can be left out", A.where(s), A.trace(bad=min(bad)) if bad else ())
    walks = [(sid, args) for sid, f, args, kws, e in F.calls() if F.name(f) == "os.walk"]
    for sid, args in walks:
        R.obl(args and any(q(x) for x in args[0] for q in [srcfolder]), "every", "walk", "it walks %s" % show(args[0])[:80], A.loc(sid))
    components(R)


def srcfolder(t):
    ps = parts(t)
    return len(ps) == 2 and has(ps[0], lambda x: x.k == "attr" and x.a[1] == "folder") and isstr(ps[1]) and cval(ps[1]) in ("/src", "/src/")


def rel_join(p, k):
    """Is p the project folder joined with k, or k what is below the project folder of p?"""
    r = folder_of(p)
    return r is not None and len(r) == 1 and r[0] == k


def components(R):
    """Everywhere in the rebuild a recorded component is the component of the same name."""
    A = hot(R)
    n = 0
    for k, vs in A.I.V.items():
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], T) and k[0].k == "obj" and k[1] in FIELDS):
            continue
        cls = R.p.classes.get(k[0].a[0])
        if cls is None or cls.name not in ("FileSignature", "FileDependencyGraphNode"):
            continue
        for v in vs:
            if isconst(v, "int") or v is ANY or v.k == "any":
                continue
            n += 1
            m = measured(A, v)
            got = m[1] if m is not None else v.a[1] if v.k == "attr" else cval(v.a[1]) if v.k == "item" and isstr(v.a[1]) else None
            R.obl(got == k[1], "component", "%s of %s" % (k[1], cls.name), "it is taken from %s" % show(v)[-80:], cls.qual)
    R.need("recorded components", n, 3)
