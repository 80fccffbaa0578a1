"""C02: external files are remembered as good only after every download succeeded; removed ones are forgotten."""
from engine.q import *
from engine.par import Jobs
from engine.loops import Loops
from .ext_common import *

TECHNIQUE = "must-pass analysis over the interprocedural control-flow graph (all futures drained before the state file is written; removal followed by a rewrite), with value terms for the remembered fields"


def check(R):
    A = Ana(R.p, [ENTRY])
    R.uses(A)
    I, F = A.I, A.F
    R.rule("drained", "the state file is written only where every submitted job is known to have finished without error")
    R.rule("kept", "no submitted job is forgotten before its outcome was taken")
    R.rule("fields", "an entry is remembered under the external file's own relpath with the integrity configured for it and a signature measured at its own location, or carried over for the same file")
    R.rule("late-signature", "the remembered signature is measured after the file was put in place")
    R.rule("forget", "a removed external file's remembered entry is dropped: after the deletion every normal exit passes the rewriting of the state file, and the deletion tolerates the file being gone")
    R.rule("removal", "every normal exit passes the loop deleting the remembered files which are no longer configured")
    effs = F.effects()
    def is_state(t):
        r = folder_of(t)
        return r is not None and len(r) == 1 and isstr(r[0]) and "external_files_state" in cval(r[0])
    W = [e for e in effs if e.kind in ("write", "rename") and any(is_state(t) for t in e.path)]
    if not W:
        R.bad("drained", "state file", "the state of the external files is never written")
        return
    wset = {e.sid for e in W}
    J = Jobs(A)
    Pall, P, moves = handlers(A)
    R.need("places processing an external file", len(P))
    for fut, subs in J.subs.items():
        if not (subs & P):
            continue
        bad = J.undrained(fut, wset)
        R.obl(not bad, "drained", "state file in %s" % I.func(W[0].sid).qual,
              "the state is written although a download job may still run or may have failed", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())
        d = J.dropped(fut, wset)
        R.obl(not d, "kept", "job submitted in %s" % I.func(min(subs)).qual, "a submitted download is not kept, its failure is never noticed", A.where(min(d)) if d else "")
    for s in P:
        if any(s in x for x in J.subs.values()):
            continue
        exc = [t for t, l in I.succ[s] if l in ("exc", "excret")]
        cids = {c for c in range(len(I.ctxs)) if I.ctxs[c].csid == s}
        for q in range(len(I.states)):
            if I.states[q][0] in cids:
                exc += [t for t, l in I.succ[q] if l == "excret"]
        hit = F.reach(exc) & wset
        R.obl(not hit, "drained", "failure of a download in %s" % I.func(s).qual, "the state is written although the download failed", A.where(s))

    # what is remembered
    for w in W:
        dumped = set()
        for sid, (f, a, k, e) in A.calls(lambda f, a, k: f.k == "ext" and f.a[0] in ("json.dump", "json.dumps")).items():
            if F.reach([w.sid]) & {sid} or F.reach([sid]) & {w.sid}:
                dumped |= a[0] if a else set()
        seen = set()
        objs = set()
        for t in dumped:
            for x in subterms(t):
                if x.k in ("obj", "dict", "repl"):
                    objs.add(x)
        dicts = set(x for x in objs if x.k == "dict")
        for o in list(objs):
            if o.k in ("obj", "repl"):
                for fld in ("state_by_relpath",):
                    dicts |= {x for x in A.V(o, fld) if x.k == "dict"}
        # a dictionary of the entries: its values are remembered states
        entries = set(); keys = set()
        for d in dicts:
            vals = A.V(d, "*v")
            ks = A.V(d, "*k")
            inner = set()
            for v in vals:
                if v.k == "dict":
                    inner.add(v)
            if any(v.k == "obj" and v.a[0].endswith("State") for v in vals) or any(is_entry(A, v) for v in vals):
                entries |= vals; keys |= ks
        R.need("remembered entries", len(entries), 0)
        if not entries:
            R.bad("fields", "entries of the state file", "no entry for a processed file is remembered", A.where(w.sid))
        for kx in keys:
            ok = ext_key(kx) is not None
            R.obl(ok, "fields", "key %s" % show(kx), "an entry is remembered under something which is not the relpath of a configured external file", A.where(w.sid))
        for v in entries:
            check_entry(R, A, v, w)

    # the files no longer configured
    removes = []
    for e in effs:
        if e.kind == "remove":
            for t in e.path:
                r = folder_of(t)
                if r is not None and len(r) == 1 and old_key(r[0]):
                    removes.append((e, t))
    R.obl(removes, "removal", "files no longer configured", "files which are no longer configured are never deleted")
    rs = {e.sid for e, _ in removes}
    normal = A.exits(None, True, False)
    normal = [s for s in normal if I.states[s][0] == A.eid[ENTRY]] if ENTRY in A.eid else normal
    # loops deleting them: each iteration passes the deletion or sees that the file is still configured
    member = A.holds(lambda x, v: x.k == "cmp" and ((x.a[0] == "In" and v) or (x.a[0] == "NotIn" and not v)) and old_key(x.a[1]) and x.a[2].k in ("attr", "dict", "set", "list", "call"))
    N = set()
    for s in range(len(I.states)):
        if I.node(s).op != "next":
            continue
        items = [t for t, l in I.succ[s] if l == "item"]
        r0 = F.reach(items, stop_node=lambda x: x == s)
        if r0 & rs:
            r = F.reach(items, stop_edge=A.any(member, A.done(rs), lambda a, b, l: a in rs and l == "exc"), stop_node=None)
            direct = s not in r
            # or the collection itself holds only files which are no longer configured
            if direct:
                N.add(s)
    nostate = A.holds(lambda x, v: v is False and is_exists(x, is_state))
    # no remembered entries at all
    bad = F.guarded(normal, A.any(lambda a, b, l: a in N and l == "done", nostate)) if normal else set()
    # a listed loop over (old - configured) is accepted when its items are differences
    R.obl(not bad, "removal", "exits of %s" % ENTRY, "the check can end normally without the files that are no longer configured having been deleted", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())
    if removes:
        after = set()
        for s in rs:
            after |= {t for t, l in I.succ[s] if l not in ("exc",)}
        # what the deletions go through is not empty then
        L = Loops(A)
        through = {t for s in rs for lp in L.of(s) for h in L.states(lp) if I.node(h).op == "next" for t in I.rv(h, I.node(h).a["it"]) if t.k in ("list", "set", "dict")}
        through -= {f.a[0] for s in I.calls for f, a, k, e in I.calls[s] if f.k == "meth" and f.a[1] in ("clear", "pop", "remove", "discard", "popitem")}
        nothing = A.holds(lambda x, v: not v and (x in through or x.k == "call" and str(x.a[0]).split(".")[-1] in ("len", "bool") and x.a[1] in through))
        bad = F.guarded(normal, A.any(A.done(wset), nothing), start=after)
        R.obl(not bad, "forget", "exits after a deletion in %s" % I.func(min(rs)).qual,
              "a file was deleted but the state that still remembers it is left in place", A.where(min(bad)) if bad else "", A.trace(bad=min(bad)) if bad else ())
        # tolerant of the file being gone already
        from engine.tol import intolerant
        for s in rs:
            x = intolerant(A, s)
            R.obl(not x, "forget", "deletion in %s" % I.func(s).qual, "the build fails when a file that is no longer configured is already gone", A.where(s))
    R.assume += ["json round-trips the remembered values"]


def is_exists(x, pred):
    return x.k == "call" and x.a[0] in ("exists", "lexists", "isfile", "os.path.exists", "os.path.lexists", "os.path.isfile") and pred(x.a[1])


def old_key(t):
    """A relpath remembered by the previous build."""
    if t.k == "key" and has(t, lambda y: y.k == "file" or y.k == "call" and y.a[0] in ("load", "json.load", "loads", "json.loads")):
        return True
    if t.k in ("attr", "item") and has(t, lambda y: y.k == "file"):
        return (t.k == "attr" and t.a[1] == "relpath") or (t.k == "item" and isstr(t.a[1]) and cval(t.a[1]) == "relpath")
    return False


def is_entry(A, v):
    return bool(A.V(v, "integrity")) or (v.k == "dict" and bool(A.V(v, "['integrity'")))


def field(A, v, name):
    if v.k == "dict":
        return A.V(v, "['%s'" % name)
    return A.I.getattr_(None, v, name) if v.k in ("obj", "repl") else frozenset()


def from_old(A, t):
    """Is t (a value or any object built from it) the remembered state of the previous build?"""
    return has(t, lambda y: y.k == "file")


def check_entry(R, A, v, w):
    integ = field(A, v, "integrity")
    if not integ:
        R.obl(v.k not in ("any",), "fields", show(v), "an unknown value is remembered", A.where(w.sid))
        return
    if all(from_old(A, t) for t in integ):
        R.ok("fields", "carried over %s" % show(v))
        return
    for t in integ:
        b = attr_base(t, "integrity")
        R.obl(b is not None and ext_item(b) is not None, "fields", "integrity of %s" % show(v),
              "the remembered integrity %s is not the configured one" % show(t), A.where(w.sid))
    sigs = field(A, v, "signature")
    R.obl(sigs, "fields", "signature of %s" % show(v), "no signature is remembered", A.where(w.sid))
    for s in sigs:
        p = sig_path(A, s)
        if p is None:
            R.bad("fields", "signature of %s" % show(v), "the remembered signature %s was not measured from the file" % show(s), A.where(w.sid)); continue
        r = folder_of(p)
        R.obl(r is not None and len(r) == 1 and ext_key(r[0]) is not None, "fields", "signature of %s" % show(v),
              "the remembered signature is that of %s and not of the file's own location" % show(p), A.where(w.sid))
    # measured after the file was processed: the stat lies behind every processing
    Pall, P, moves = handlers(A)
    J = Jobs(A)
    stats = {sid for sid, (f, a, k, e) in A.calls(lambda f, a, k: f.k == "ext" and f.a[0] in ("os.lstat", "os.stat")).items()}
    used = set()
    for s in sigs:
        for f in ("mtime", "filesize", "inode"):
            for x in field(A, s, f):
                used |= {y for y in subterms(x) if y.k == "call" and y.a[0] in ("lstat", "stat", "os.lstat", "os.stat")}
    for s in sigs:
        made = [q for q in stats if any(c == s for c in made_in(A, q))]
        hit = set()
        for fut, subs in J.subs.items():
            if subs & P and made:
                hit |= J.undrained(fut, set(made))
        R.obl(not hit, "late-signature", "signature of %s" % show(v), "the signature is measured while downloads may still be running", A.where(min(hit)) if hit else "")


def made_in(A, q):
    """Objects constructed in the function in which the file is measured at q."""
    I = A.I
    c = I.states[q][0]
    return I.V.get((c, "ret"), frozenset())


def sig_path(A, s):
    """The path whose measured values a signature object holds field by field."""
    names = {"mtime": "st_mtime", "filesize": "st_size", "inode": "st_ino"}
    p = None
    for f, st in names.items():
        vals = [x for x in field(A, s, f) if not isconst(x, "int")]
        if not vals:
            return None
        for x in vals:
            if not (x.k == "attr" and x.a[1] == st and x.a[0].k == "call" and x.a[0].a[0].split(".")[-1] in ("lstat", "stat")):
                return None
            if p is not None and x.a[0].a[1] is not p:
                return None
            p = x.a[0].a[1]
    return p
