"""C12: a published hash is the digest of the finished published bytes."""
from engine.q import *
from checks.out_common import *
from checks.c08 import key, sources, below

TECHNIQUE = "data-flow from the bytes read of an output through the hash object to what is written as its hash; ordering of write, close and read effects of the same path term over every path of each build step"
REL = mk("sym", "relpath")
WRITES = {"write", "rename", "copy", "symlink", "link", "touch", "save", "append"}


def check(R):
    R.rule("digest", "what is written as the hash of a file is the URL-safe base64 text of the SHA-256 digest of all bytes of that file, read in binary")
    R.rule("same file", "the digest is of the published file itself, or of a source which is published unprocessed")
    R.rule("finished", "the bytes are read only after every handle writing the file was closed, and the file is not written afterwards")
    ms = manipulators(R.p)
    n = 0
    for kind, x, name in [("manip", c, c.qual) for c in ms] + [("handler", h, h) for h in handlers(R.p)]:
        A, q = drive_manip(R.p, x, "build") if kind == "manip" else drive_handler(R.p, x, "build_file", ms)[:2]
        R.uses(A)
        n += step(R, A, q, name.split("vanillaplusjs.")[-1].replace("build.", ""), kind)
    R.need("hashes written by build steps", n)


def unwrap(t):
    """The digest object in an encoded digest, or None."""
    while t.k == "call" and t.a[0].split(".")[-1] in ("decode", "str", "ascii", "strip") and len(t.a) > 1:
        t = t.a[1]
    if t.k == "call" and t.a[0].split(".")[-1] == "urlsafe_b64encode" and len(t.a) == 2:
        d = t.a[1]
        if d.k == "call" and d.a[0].split(".")[-1] == "digest" and len(d.a) == 2:
            return d.a[1]
    return None


def step(R, A, q, name, kind):
    I = A.I
    cid = A.eid[q]
    effs = list(A.F.effects())
    calls = list(A.F.calls())
    written = {}
    for sid, f, args, kws, e in calls:
        if f.k in ("meth", "attr") and f.a[1] == "write" and isinstance(f.a[0], T) and f.a[0].k == "file" and args:
            written.setdefault(f.a[0].a[0], []).append((sid, args[0]))
        if f.k in ("meth", "attr") and f.a[1] in ("write_text", "write_bytes") and isinstance(f.a[0], T) and args:
            written.setdefault(f.a[0], []).append((sid, args[0]))
    moved = {}
    for e in effs:
        if e.kind in ("rename", "copy") and e.other:
            for t in e.path:
                moved.setdefault(t, set()).update(x for x in e.other if x in written and x is not t)
    n = 0
    hash_reads, sites = {}, {}
    for e in effs:
        if e.kind not in ("write", "rename", "copy"):
            continue
        for t in e.path:
            if e.kind != "write" and not moved.get(t):
                continue
            k = key(t)
            if k[-5:] != tuple(".hash") or not has(t, lambda x: x.k == "attr" and x.a[1] == "folder"):
                continue
            n += 1
            con = "%s: %s" % (name, showform(form(t, REL)).replace("<*>", ""))
            hs = [(h, w) for h, w in written.items() if h is t or h in moved.get(t, ())]
            if not R.obl(bool(hs), "digest", con, "nothing is written into the hash", A.loc(e.sid)):
                continue
            for h, ws in hs:
                for sid, vals in ws:
                    xs = {}
                    for v in vals:
                        d = unwrap(v)
                        if R.obl(d is not None and d.k in ("hasher", "call"), "digest", con, "what is written is not the URL-safe base64 text of a digest but " + show(v)[:120], A.loc(sid)):
                            xs.update(digested(R, A, d, con, calls, sid))
                    sites.setdefault(sid, []).append((t, con, xs))
    for sid, l in sites.items():
        # a site reached with several files: their pairing is the call's, the sets have to agree
        allsrc = {k for t, con, xs in l for k in origins(rootkey(A, t))}
        for t, con, xs in l:
            mine = origins(rootkey(A, t))
            R.obl(any(rootkey(A, x) in mine for x in xs) or not xs, "same file", con, "the digest is of %s" % ", ".join(show(x)[:100] for x in xs), A.loc(sid))
            for x, rs in xs.items():
                if R.obl(rootkey(A, x) in allsrc, "same file", con, "the digest is of %s" % show(x)[:120], A.loc(sid)) and rootkey(A, x) in mine:
                    hash_reads.setdefault((x, rootkey(A, t)[:-5]), set()).update(rs)
    for (x, out), rs in hash_reads.items():
        con = "%s: %s" % (name, showform(form(x, REL)))
        wr = [e for e in effs if e.kind in WRITES and any(rootkey(A, t) == out or t is x for t in e.path)]
        if rootkey(A, x) != out:
            bad = [e for e in wr if e.kind == "write"]
            R.obl(not bad, "same file", con, "the output is written by the step, but its hash is of the source", A.loc(bad[0].sid) if bad else "")
        # closed before
        for e in wr:
            if e.kind != "write" or not any(t is x for t in e.path):
                continue
            def closes(s):
                m = I.node(s)
                if m.op == "with_exit":
                    return any(h.k == "file" and h.a[0] is x for h in I.rv(s, m.a["ctx"]))
                if m.op == "call":
                    return any(f.k in ("meth", "attr") and f.a[1] == "close" and isinstance(f.a[0], T) and f.a[0].k == "file" and f.a[0].a[0] is x for f in I.rv(s, m.a["f"]))
                return False
            hit = A.F.reach([e.sid], stop_node=closes) & rs
            R.obl(not hit, "finished", con, "the hash is computed while the output may still be open for writing", A.loc(e.sid), A.F.path(min(hit)) if hit else ())
        # not written afterwards
        its = {y.a[0] for y in subterms(x) if y.k in ("elem", "key", "val")}
        cnt = {(y.a[0], y.a[1]) for y in subterms(x) if y.k == "count"}
        def again(a, b, l):
            m = I.node(a)
            return l == "item" and m.op == "next" and any(any(y is z for z in its for y in subterms(t)) or t.k == "list" for t in I.rv(a, m.a["it"])) and bool(its)
        def other(s):
            if kind == "manip" and I.states[s][0] == cid:
                return True
            return (I.ctxs[I.states[s][0]].sig, I.node(s).id) in cnt
        after = A.F.reach(rs, again, other)
        for e in wr:
            R.obl(e.sid not in after - rs, "finished", con, "the output is written again after its hash was computed", A.loc(e.sid))
    return n


def root(A, t):
    for s in ("context", "build_context"):
        r = relpath(t, mk("attr", mk("sym", s), "folder"))
        if r is not None:
            return r
    return None


def origins(k):
    """The file of which ``k`` may be the published hash."""
    out = set(sources(k))
    for y in list(out):
        b = below(y, "out/www/")
        if b is not None:
            out.add(b)
    return out - {k}


def rootkey(A, t):
    r = root(A, t)
    return key(t if r is None else r)


def missed(R, A, con, s, rs, v, feed, d, calls, made):
    """Bytes which were read are fed to the digest before it is taken and before more are read, unless there were none."""
    I = A.I
    feeds = {x for x, vs in feed if v in vs}
    use = {x for x, f, a, k, e in calls if f.k in ("meth", "attr") and f.a[0] is d and f.a[1] in ("digest", "hexdigest")}
    again = {x for x, a, h in rs}
    def none(a, b, l):
        if I.node(a).op == "next":
            return l != "item" and I.node(s).op != "next"
        for x in A.F.edge_atoms(a, l) or ():
            if x is not None and empty(x[0], x[1], v):
                return True
        return l == "exc"
    if s in feeds or s not in A.F.reach(made, stop_node=lambda x: x in use):
        return
    first = [t for t, l in I.succ[s] if t not in feeds and (l == "item" or I.node(s).op != "next" and l != "exc")]
    got = A.F.reach(first, none, lambda x: x in feeds or x in made)
    hit = (got & (use | again)) - feeds
    R.obl(not hit, "digest", con, "bytes which were read may not be fed to the digest", A.loc(s), A.F.path(min(hit)) if hit else ())


LENGTHS = (1, 2, 7, 4096, 8191, 8192, 65535, 65536, 65537, 1 << 20)


def empty(t, b, v):
    """Whether the condition being b says that nothing was read: it is otherwise for whatever number of bytes."""
    if not any(y is v for y in subterms(t)):
        return False
    more = tuple(x for y in subterms(t) if isconst(y, "int") for x in (cval(y), cval(y) - 1, cval(y) + 1) if x > 0)
    for n in LENGTHS + more:
        r = holds(t, v, n)
        if r is None or bool(r) == b:
            return False
    return True


OPS = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b, "Is": lambda a, b: a == b, "IsNot": lambda a, b: a != b}


def holds(t, v, n):
    """The value of a condition on a chunk v of n bytes (a chunk is its length and a mark), None if it is not known."""
    if t is v:
        return bytes(n)
    if t.k == "const":
        return cval(t)
    if t is NONE:
        return False
    if t.k == "not":
        x = holds(t.a[0], v, n)
        return None if x is None else not x
    if t.k == "call" and len(t.a) == 2 and t.a[0].split(".")[-1] in ("len", "bool"):
        x = holds(t.a[1], v, n)
        return None if not isinstance(x, bytes) else len(x) if t.a[0].endswith("len") else bool(x)
    if t.k == "cmp" and t.a[0] in OPS:
        l, r = holds(t.a[1], v, n), holds(t.a[2], v, n)
        if l is None or r is None or type(l) is not type(r) and t.a[0] not in ("Eq", "NotEq", "Is", "IsNot"):
            return None
        return OPS[t.a[0]](l, r)
    return None


def digested(R, A, d, con, calls, at):
    """{file path: states reading it} of everything fed to a digest."""
    I = A.I
    out = {}
    if d.k == "call":
        nm = d.a[0].split(".")[-1]
        R.obl(nm == "sha256" and len(d.a) == 2, "digest", con, "the digest is not SHA-256 (%s)" % nm, A.loc(at))
        feed = [(at, frozenset([d.a[1]]))] if len(d.a) == 2 else []
        made = set()
    else:
        R.obl("sha256" in [x for x in d.a if isinstance(x, str)], "digest", con, "the digest is not SHA-256", A.loc(at))
        feed, made = [], set()
        for sid, f, args, kws, e in calls:
            if f.k in ("meth", "attr") and f.a[0] is d and f.a[1] == "update" and args:
                feed.append((sid, args[0]))
            if f.k == "ext" and f.a[0] == "hashlib.file_digest" and len(args) > 1 and any(d in I.rv(t, I.node(sid).dst) for t, l in I.succ[sid] if l != "exc"):
                for h in args[0]:
                    if R.obl(h.k == "file" and "b" in str(h.a[1]), "digest", con, "not a digest of the bytes of a file", A.loc(at)):
                        out.setdefault(h.a[0], set()).add(sid)
                return out
            if f.k == "ext" and f.a[0] in ("hashlib.sha256", "hashlib.new") and I.node(sid).dst is not None and any(d in I.rv(t, I.node(sid).dst) for t, l in I.succ[sid] if l != "exc"):
                made.add(sid)
                args = args[1:] if f.a[0] == "hashlib.new" else args
                if args:
                    feed.append((sid, args[0]))
    if not R.obl(bool(feed), "digest", con, "nothing is fed to the digest", A.loc(at)):
        return out
    reads, f_name, handed = {}, {}, {}
    for sid, f, args, kws, e in calls:
        if f.k == "ext" and f.a[0] == "iter" and len(args) == 2 and I.node(sid).dst is not None:
            gs = {g for x in args[0] for g in [x.a[0] if x.k == "partial" else x] if g.k in ("attr", "meth") and g.a[1] == "read" and g.a[0].k == "file"}
            for t, l in I.succ[sid]:
                for o in I.rv(t, I.node(sid).dst):
                    handed.setdefault(o, set()).update(g.a[0] for g in gs)
    for sid, f, args, kws, e in calls:
        if f.k in ("meth", "attr") and f.a[1] in ("read", "readline", "readlines") and isinstance(f.a[0], T) and f.a[0].k == "file":
            reads.setdefault(f.a[0].a[0], []).append((sid, args, f.a[0]))
            f_name[sid] = f.a[1]
        if f.k in ("meth", "attr") and f.a[1] in ("read_bytes", "read_text") and isinstance(f.a[0], T):
            reads.setdefault(f.a[0], []).append((sid, (), mk("file", f.a[0], "rb" if f.a[1] == "read_bytes" else "r")))
    for s in range(len(I.states)):
        m = I.node(s)
        if m.op == "next":
            for h in I.rv(s, m.a["it"]):
                if h.k == "file":
                    reads.setdefault(h.a[0], []).append((s, (), h))
                for g in handed.get(h, ()):
                    reads.setdefault(g.a[0], []).append((s, (), g))
    for sid, vals in feed:
        for v in vals:
            x = v.a[0] if v.k in ("read", "elem") else v.a[1] if v.k == "call" and v.a[0].split(".")[-1] in ("read", "read_bytes", "read_text") and len(v.a) > 1 else None
            if x is not None and x.k == "file":
                x = x.a[0]
            rs = reads.get(x, [])
            if not R.obl(x is not None and bool(rs), "digest", con, "what is fed to the digest is not what was read of a file: " + show(v)[:100], A.loc(sid)):
                continue
            for s, args, h in rs:
                R.obl("b" in str(h.a[1]), "digest", con, "the file is read as text, not as bytes", A.loc(s))
                missed(R, A, con, s, rs, v, feed, d, calls, made)
                if f_name.get(s) == "readline" or args and not (len(args[0]) == 1 and isconst(next(iter(args[0])), "int") and cval(next(iter(args[0]))) < 0):
                    loop = any(r in A.F.reach([t for t, l in I.succ[r]]) for r, a, g in rs if g is h) or "<lambda>" in I.func(s).qual
                    R.obl(loop, "digest", con, "only a part of the file is read", A.loc(s))
            out.setdefault(x, set()).update(s for s, a, h in rs)
    allr = {s for rs in out.values() for s in rs}
    if made and out:
        use = {s for s, f, a, k, e in calls if f.k in ("meth", "attr") and f.a[0] is d and f.a[1] == "digest"}
        feeds = {s for s, v in feed}
        for m in made - feeds:
            miss = A.F.reach([m], stop_node=lambda s: s in feeds or s in allr) & use
            R.obl(not miss, "digest", con, "the digest may be taken without reading the file", A.loc(m))
    return out
