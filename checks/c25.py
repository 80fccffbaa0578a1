"""C25: only files inside the public folder are published, at the mirrored path."""
from engine.q import *
from .fs_common import *
from .out_common import manipulators, HP

TECHNIQUE = "path-sensitive reachability: what scanning and building a file can reach without having found its path below the public folder must neither write, nor report, nor fail; symbolic paths of what is written compared with the path of the source; dominance of the same test over publishing an image"
PUBLIC = "src/public/"
OUTPUT = "out/www/"


def check(R):
    p = R.p
    R.rule("outside", "a file which was not found inside the public folder is neither written to the outputs nor reported, and does not fail")
    R.rule("handled", "a file which was not found inside the public folder still gets an (empty) answer")
    R.rule("mirrored", "what is published for a file has the relative path of that file")
    R.rule("images", "an image is only published when it was found inside the public folder")
    ms = manipulators(p)
    quals = {m.qual for c in ms for k in p.mro(c) for m in k.methods.values()}
    n = 0
    for q in (SCANF, BUILDF):
        A = Ana(p, [(q, {}, None)], opaque=tuple(o for o in OPAQUE if o != q), inline=lambda f: std_inline(f) and f.qual not in quals)
        R.uses(A)
        rel = mk("sym", p.func(q).params()[1])
        outside(R, A, q, rel)
        n += mirrored(R, A, q, rel)
    R.need("files written for a source", n)
    k = 0
    for c in ms:
        A, q = drive_manip(p, c, "build", linked=True)
        R.uses(A)
        k += images(R, A, c.name, q)
    R.need("published images", k)


def inside(A, S):
    """Predicate: this outcome of a condition means S(path) lies in the public folder (or among the outputs)."""
    def pre(c):
        return isstr(c) and (cval(c).startswith(PUBLIC) or cval(c).startswith(OUTPUT)) or c.k == "tup" and all(pre(x) for s in c.a[0] for x in s) or c.k == "cat" and isstr(c.a[-1]) and cval(c.a[-1]).endswith("/public/")

    def subject(t):
        while t.k == "call" and str(t.a[0]).split(".")[-1] in ("abspath", "realpath", "normpath", "fspath", "str", "PurePath", "Path", "PurePosixPath", "replace", "as_posix"):
            t = t.a[1]
        return S(t) or t.k == "cat" and len(t.a) > 1 and folder(t.a[0]) and S(t.a[-1]) or t.k == "call" and str(t.a[0]).split(".")[-1] == "relpath" and isinstance(t.a[1], T) and subject(t.a[1]) and len(t.a) > 2 and folder(t.a[2])

    def constant(t):
        return t.k == "cat" and isstr(t.a[0]) and cval(t.a[0]).startswith(PUBLIC)

    def ok(x, v):
        if x.k == "const":
            return cval(x) is v
        if x.k == "call":
            n = str(x.a[0]).split(".")[-1]
            ts = [y for y in x.a[1:] if isinstance(y, T)]
            if n == "startswith" and len(ts) == 2:
                if v and subject(ts[0]) and pre(ts[1]):
                    return True
                r = ts[0]
                return not v and r.k == "call" and str(r.a[0]).split(".")[-1] == "relpath" and len(r.a) > 2 and subject(r.a[1]) and under(r.a[2]) and isstr(ts[1]) and cval(ts[1]) in ("..", "../")
            if n == "is_relative_to" and len(ts) == 2:
                return v and subject(ts[0]) and under(ts[1])
            if n in ("match", "fullmatch") and len(ts) >= 2:
                return v and any(subject(y) for y in ts) and any(isstr(y) and PUBLIC in cval(y).replace("\\", "").lstrip("^") for y in ts)
        if x.k == "cmp" and x.a[0] in ("Eq", "NotEq"):
            eq = v if x.a[0] == "Eq" else not v
            for l, r in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if not (isinstance(l, T) and isinstance(r, T)):
                    continue
                if eq and l.k == "slice" and (S(l.a[0]) or constant(l.a[0])) and l.a[1] in (NONE, const(0)) and isstr(r) and cval(r) in (PUBLIC, OUTPUT) and l.a[2] is const(len(cval(r))):
                    return True
                if eq and l.k == "call" and str(l.a[0]).split(".")[-1] == "commonpath" and any(S(z) for z in A.I.elems(None, frozenset(y for y in l.a[1:] if isinstance(y, T)))) and under(r):
                    return True
                if eq and l.k in ("slice", "item") and has(l.a[0], S) and (l.a[0].k == "call" and str(l.a[0].a[0]).split(".")[-1] == "split" or l.a[0].k == "attr" and l.a[0].a[1] == "parts"):
                    return True
                if not eq and l.k == "call" and str(l.a[0]).split(".")[-1] == "removeprefix" and S(l.a[1]) and pre(l.a[2]) and S(r):
                    return True
        return False
    return ok


def holds(A, pred):
    base = A.holds(pred)
    return lambda s, t, l: base(s, t, l) and any(x.k != "const" for x, v in A.F.edge_atoms(s, l))


def under(t):
    return isstr(t) and cval(t).rstrip("/") == "src/public" or t.k == "cat" and isstr(t.a[-1]) and cval(t.a[-1]).rstrip("/").endswith("/src/public") or t.k == "attr" and t.a[1] == "public_folder" or t.k == "call" and len(t.a) > 1 and isinstance(t.a[1], T) and under(t.a[1])


def outside(R, A, q, rel):
    """What is reached when no test finds the file inside the public folder."""
    I = A.I
    S = lambda t: t is rel
    found = holds(A, inside(A, S))
    constants = A.holds(lambda x, v: x.k == "cmp" and (x.a[0] == "Eq") == v and x.a[0] in ("Eq", "NotEq") and rel in x.a[1:] and any(isinstance(y, T) and has(y, lambda z: z.k == "attr" and z.a[1] == "js_constants") for y in x.a[1:]))
    seen = A.F.reach(A.start(A.eid[q]), stop_edge=lambda s, t, l: found(s, t, l) or constants(s, t, l))
    what = q.split(".")[-1]
    R.obl(bool(set(A.exits(A.eid[q])) & set(seen)), "handled", what, "a file outside the public folder gets no answer", "")
    effects = {}
    for e in A.F.effects():
        effects.setdefault(e.sid, []).append(e)
    for s in seen:
        con = "%s: %s" % (what, I.func(s).qual[len(PKG):])
        for e in effects.get(s, ()):
            if e.kind in MUTATING:
                R.bad("outside", con, "a file outside the public folder is written: %s" % ", ".join(sorted(show(t) for t in e.path))[:160], A.loc(s), ())
        n = I.node(s)
        if n.op == "call":
            for f, args, kws, ent in I.calls.get(s, ()):
                nm = A.F.name(f)
                if nm.startswith("os.") or nm in ("open", "shutil.copyfile", "shutil.copy"):
                    if any(NONE in a for a in args):
                        R.bad("outside", con, "%s is given no path for a file outside the public folder: building it fails" % nm, A.loc(s), ())
                if f.k in ("meth", "attr") and f.a[1] in ("add", "append", "insert"):
                    if any(published(t, rel) for a in args for t in a):
                        R.bad("outside", con, "an output is recorded for a file outside the public folder", A.loc(s), ())
        elif n.op == "build":
            for r in n.a["parts"]:
                if isinstance(r, str) and any(published(t, rel) for t in I.rv(s, r)):
                    R.bad("outside", con, "an output is reported for a file outside the public folder", A.loc(s), ())
        elif n.op == "raise" and (I.func(s).qual.startswith(HP) or I.func(s).qual == q):
            R.bad("outside", con, "a file outside the public folder fails the build", A.loc(s), ())
        R.ok("outside", con)


def published(t, rel):
    return t.k == "cat" and isstr(t.a[0]) and cval(t.a[0]).startswith("out/") and has(t, lambda x: x is rel)


SUFFIX = {"": ("", ".hash"), ".images.json": (".images.js", ".images.js.hash")}


def mirrored(R, A, q, rel):
    n = 0
    moved = {x for e in A.F.effects() if e.kind == "rename" for x in e.other or ()}
    for e in A.F.effects():
        if e.kind not in MUTATING or e.kind in ("mkdir", "rmdir", "remove"):
            continue
        for t in e.path:
            if t in moved:
                continue        # moved into its place afterwards
            ps = flat(t)
            if len(ps) < 3 or not folder(ps[0]) or not isstr(ps[1]) or not cval(ps[1]).startswith("/out/www/"):
                continue
            if not chain(ps[2], rel):
                continue
            con = "%s: %s" % (q.split(".")[-1], A.I.func(e.sid).qual[len(PKG):])
            n += 1
            tail = "".join(cval(x) for x in ps[3:] if isstr(x))
            ok = cval(ps[1]) == "/out/www/" and all(isstr(x) for x in ps[3:])
            ok = ok and any(ps[2] in (part(rel, b, cut) for b in (PUBLIC,) + ((OUTPUT,) if tail == ".hash" else ())) or same_tail(ps[2], rel, cut) for cut, ends in SUFFIX.items() if tail in ends)
            R.obl(ok, "mirrored", con, "%s is written for %s" % (show(t)[:160], show(rel)), A.loc(e.sid))
    return n


def chain(t, rel):
    """A part of the path of the source, or something computed from it alone."""
    while t is not rel:
        ts = [x for x in t.a if isinstance(x, T)] if t.k in ("slice", "call", "item", "elem", "attr") else ()
        if not ts or t.k == "call" and str(t.a[0]).split(".")[-1] in ("load", "loads", "read"):
            return False
        t = ts[0]
    return True


def flat(t):
    out = []
    for y in ([z for x in t.a for z in flat(x)] if t.k == "cat" else [t]):
        if isstr(y) and out and isstr(out[-1]):
            out[-1] = const(cval(out[-1]) + cval(y))
        else:
            out.append(y)
    return out


def part(rel, base, cut):
    x = mk("slice", rel, const(len(base)), NONE)
    return x


def core(t, rel):
    """(characters removed in front, suffix removed) of a part of the path of the source, or None."""
    if t is rel:
        return 0, ""
    if t.k == "slice":
        c = core(t.a[0], rel)
        lo, hi = t.a[1], t.a[2]
        if c is None or not (lo is NONE or lo.k == "const" and isinstance(cval(lo), int) and cval(lo) >= 0) or not (hi is NONE or hi.k == "const" and isinstance(cval(hi), int) and cval(hi) < 0):
            return None
        front = c[0] + (0 if lo is NONE else cval(lo))
        if hi is NONE:
            return front, c[1]
        return (front, ".images.json") if cval(hi) == -len(".images.json") and not c[1] else None
    if t.k == "call":
        n = str(t.a[0]).split(".")[-1]
        ts = [y for y in t.a[1:] if isinstance(y, T)]
        if n in ("removeprefix", "removesuffix") and len(ts) == 2 and isstr(ts[1]):
            c = core(ts[0], rel)
            if c is None:
                return None
            return (c[0] + len(cval(ts[1])), c[1]) if n == "removeprefix" else (c[0], c[1] + cval(ts[1]))
        if n == "relpath" and len(ts) == 2 and isstr(ts[1]):
            c = core(ts[0], rel)
            return None if c is None else (c[0] + len(cval(ts[1]).rstrip("/")) + 1, c[1])
        if n in ("normpath", "replace", "str", "fspath", "relative_to", "PurePath", "Path", "as_posix", "PurePosixPath") and ts:
            c = core(ts[0], rel)
            return (c[0] + len(cval(ts[1]).rstrip("/")) + 1, c[1]) if c and n == "relative_to" and len(ts) > 1 and isstr(ts[1]) else c
    if t.k in ("item", "elem") and isinstance(t.a[0], T) and t.a[0].k == "call" and str(t.a[0].a[0]).split(".")[-1] in ("partition", "split") and t.a[1] in (const(2), const(1), const(-1)):
        ts = [y for y in t.a[0].a[1:] if isinstance(y, T)]
        return (len(cval(ts[1])), "") if core(ts[0], rel) == (0, "") and len(ts) > 1 and isstr(ts[1]) else None
    return None


def same_tail(t, rel, cut):
    c = core(t, rel)
    return c is not None and c[0] in (len(PUBLIC), len(OUTPUT) if cut == "" and False else len(PUBLIC)) and c[1] in (cut, )


def images(R, A, name, q):
    """Paths of images given by a page: what is cut out of them is below the public folder."""
    n = 0
    memo = {}
    for e in A.F.effects():
        if e.kind not in MUTATING:
            continue
        for t in e.path:
            for x in subterms(t):
                if x.k == "slice" and x.a[1] is const(len(PUBLIC)) and x.a[0].k == "call" and str(x.a[0].a[0]).split(".")[-1] in ("relpath", "normpath", "abspath"):
                    n += 1
                    X = x.a[0]
                    if X not in memo:
                        memo[X] = holds(A, inside(A, lambda y: y is X))
                    key = (e.sid, X)
                    if key in memo:
                        continue
                    memo[key] = 1
                    bad = A.F.guarded([e.sid], memo[X], lambda s: False, A.start(A.eid[q]))
                    R.obl(not bad, "images", "%s: %s" % (name, A.I.func(e.sid).qual[len(PKG):]), "%s may be an image beside the public folder" % show(X)[:100], A.loc(e.sid))
    return n
