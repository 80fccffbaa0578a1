"""C26: script constants match the build mode."""
from engine.q import *
from engine.consts import explore
from .hot_common import HOTF, BUILDF, SCANF, bound, puts
from .out_common import ADD

TECHNIQUE = "value-source and path analysis specialised to each build mode: whose constants can flow into the generated file and in which order they are laid over each other; in a rebuild, paths which neither found the mode recorded nor schedule the constants file again, and order of the record against the builds"
H = B + "handlers."
JSC = H + "js_constants."
RECORD = "js_constants_mode"


def check(R):
    R.rule("content", "the generated file gets every constant of the shared ones and of the current mode and none of the other mode")
    R.rule("override", "a constant of the current mode replaces the shared one of the same name, never the other way round")
    R.rule("dispatch", "the configured constants file is scanned and built by its own handler")
    R.rule("regenerated", "unless the recorded mode is the current one, the constants file is scheduled again")
    R.rule("recorded", "once everything was rebuilt and stored, and only then, the current mode is recorded")
    R.rule("invalidated", "when the recorded mode is not the current one, the record is removed before anything is rebuilt")
    for dev in (True, False):
        fixed = {("BuildContext", "dev"): frozenset([const(dev)])}
        A = Ana(R.p, [(JSC + "build_file", {}, None)], opaque=OPAQUE + (H + "hash.build_file",), fixed=fixed)
        R.uses(A)
        content(R, A, "dev" if dev else "prod", "prod" if dev else "dev")
    words = {}
    for dev in (True, False):
        fixed = {("BuildContext", "dev"): frozenset([const(dev)])}
        A = Ana(R.p, [(HOTF, {}, None)], opaque=OPAQUE + (BUILDF, SCANF), fixed=fixed)
        R.uses(A)
        words[dev] = rebuild(R, A, "development" if dev else "production")
    R.obl(not (words[True] & words[False]), "regenerated", "recorded words", "both modes are recorded as %s" % ", ".join(sorted(words[True] & words[False])), "")
    dispatch(R)


# ---- content

def mine(t, name):
    """t comes from the constants of that name."""
    return has(t, lambda x: x.k == "attr" and x.a[1] == name and x.a[0].k == "attr" and x.a[0].a[1] == "js_constants")


def content(R, A, cur, other):
    I, F = A.I, A.F
    start = A.start(A.eid[JSC + "build_file"])
    writes = [(s, args[0]) for s, f, args, kws, e in F.calls() if f.k in ("meth", "attr") and f.a[1] in ("write", "writelines") and isinstance(f.a[0], T) and f.a[0].k == "file" and args]
    writes += [(s, frozenset(x for v in args for x in v)) for s, f, args, kws, e in F.calls() if f.k == "ext" and f.a[0] == "print" and "file" in kws]
    writes = [(s, deep(A, v)) for s, v in writes]
    vals = [(s, t) for s, v in writes for t in v]
    R.need("write of constants", sum(1 for s, t in vals if mine(t, cur) or mine(t, "shared") or mine(t, other)))
    for what in (cur, "shared"):
        for part in ("key", "val"):
            ok = any(has(t, lambda x: x.k in (part, "elem", "item", "any") and mine(x, what)) for s, t in vals)
            R.obl(ok, "content", "%s: %s of %s" % (cur, part, what), "no %s of the %s constants is written" % ({"key": "name", "val": "value"}[part], what), A.loc(writes[0][0]) if writes else "")
    for s, v in writes:
        R.obl(not any(mine(t, other) for t in v), "content", "%s: write in %s" % (cur, I.func(s).name), "the %s constants are written in %s mode" % (other, cur), A.loc(s))
    # each source is looked at on every path which writes constants
    looks = {n: {s for s in F.node_states("attr") if I.node(s).a["name"] == n and any(t.k == "attr" and t.a[1] == "js_constants" for t in I.rv(s, I.node(s).a["obj"]))} for n in (cur, "shared")}
    targets = {s for s, t in vals if mine(t, cur) or mine(t, "shared")}
    for n, at in looks.items():
        bad = F.guarded(targets, lambda s, t, l: s in at, start=start)
        R.obl(not bad, "content", "%s: %s always" % (cur, n), "there is a way to write the constants without those of %s" % n, A.loc(next(iter(bad))) if bad else "", A.trace(bad=next(iter(bad))) if bad else None)
    # order
    ev = list(events(A, cur))
    for s, o, src, kind in ev:
        if src != {"shared"} or kind == "weak":
            continue
        before = {x for x, o2, src2, k2 in ev if o2 is o and src2 == {cur} and x != s}
        late = s in F.reach(set().union(*[{t for t, l in I.succ[x]} for x in before]) if before else set())
        if late and guard(A, s, o, start):
            late = False
        R.obl(not late, "override", "%s: shared into the constants in %s" % (cur, I.func(s).name), "the shared constants are put over those of the %s mode" % cur, A.loc(s))
    def preceded(s, o):
        at = {x for x, o2, src2, k2 in ev if o2 is o and "shared" in src2 and x != s}
        return base(o) == "shared" or bool(at) and s in F.reach({t for x in at for t, l in I.succ[x]})
    for s, o, src, kind in ev:
        if src == {cur} and kind == "weak":
            R.obl(not preceded(s, o), "override", "%s: default in %s" % (cur, I.func(s).name), "a constant of the %s mode gives way to the shared one" % cur, A.loc(s))
        if src == {cur} and kind == "set":
            at = must(A, start).get(s, ())
            miss = [x for x, v in at if (x.k == "cmp" and x.a[0] in ("In", "NotIn") and (x.a[0] == "In") != v and preceded(s, x.a[2]))]
            R.obl(not miss, "override", "%s: kept in %s" % (cur, I.func(s).name), "a constant of the %s mode is left out where a shared one has its name" % cur, A.loc(s))
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op == "bin" and n.a.get("op") == "BitOr":
            l, r = I.rv(s, n.a["l"]), I.rv(s, n.a["r"])
            R.obl(not (any(holder(A, t, cur) for t in l) and all(holder(A, t, "shared") and not holder(A, t, cur) for t in r) and r), "override", "%s: union in %s" % (cur, I.func(s).name), "the shared constants are put over those of the %s mode" % cur, A.loc(s))
        if n.op == "builddict" and I.func(s).qual.startswith(JSC[:-1]):
            stars = [I.rv(s, v) for k, v in n.a["items"] if k is None] if "items" in n.a else []
            seen = False
            for v in stars:
                if any(holder(A, t, cur) for t in v):
                    seen = True
                elif seen and any(holder(A, t, "shared") for t in v):
                    R.bad("override", "%s: dict in %s" % (cur, I.func(s).name), "the shared constants are put over those of the %s mode" % cur, A.loc(s))
        if n.op == "call":
            for f, args, kws, e in I.calls.get(s, ()):
                if f.k == "ext" and f.a[0] == "collections.ChainMap" and len(args) == 2:
                    R.obl(not (any(holder(A, t, "shared") for t in args[0]) and any(holder(A, t, cur) for t in args[1])), "override", "%s: chain in %s" % (cur, I.func(s).name), "the shared constants hide those of the %s mode" % cur, A.loc(s))


def deep(A, v):
    """The values with the contents of the lists within them."""
    out, st = set(), list(v)
    while st:
        t = st.pop()
        if t in out:
            continue
        out.add(t)
        for x in subterms(t):
            if x.k == "list":
                st += A.V(x, "*")
    return out


def holder(A, t, n):
    return mine(t, n) or t.k == "dict" and any(mine(x, n) for k in ("*k", "*v") for x in A.V(t, k))


def base(o):
    return o.a[1] if o.k == "attr" else None


def srcs(ts, cur):
    return {n for n in (cur, "shared") for t in ts if mine(t, n)}


def events(A, cur):
    """(state, container, whose constants, kind) of everything put into a container of constants."""
    I = A.I
    for s, f, args, kws, e in A.F.calls():
        if f.k in ("meth", "attr") and isinstance(f.a[0], T) and args:
            if f.a[1] == "update" and f.a[0].k != "file":
                ts = set(args[0])
                for t in args[0]:
                    if t.k == "dict":
                        ts |= A.V(t, "*k") | A.V(t, "*v")
                yield s, f.a[0], srcs(ts, cur), "set"
            elif f.a[1] == "setdefault" and len(args) > 1:
                yield s, f.a[0], srcs(args[1], cur), "weak"
    for s, f, args, kws, e in A.F.calls():
        src = frozenset([f.a[0]]) if f.k in ("meth", "attr") and f.a[1] == "copy" and isinstance(f.a[0], T) else args[0] if f.k == "ext" and f.a[0] in ("dict", "copy.copy", "copy.deepcopy") and args else None
        if src and I.node(s).dst is not None:
            ts = set(src) | {x for t in src if t.k == "dict" for x in A.V(t, "*v")}
            for t, l in I.succ[s]:
                if l not in ("exc", "call"):
                    for o in I.rv(t, I.node(s).dst):
                        if o.k == "dict":
                            yield s, o, srcs(ts, cur), "set"
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op == "setsub":
            for o in I.rv(s, n.a["obj"]):
                yield s, o, srcs(I.rv(s, n.a["src"]), cur), "set"
        elif n.op == "accadd":
            for o in I.rv(s, n.a["obj"]):
                if o.k == "dict":
                    ts = {x for t in I.rv(s, n.a["src"]) if t.k == "tup" and len(t.a[0]) == 2 for x in t.a[0][1]}
                    yield s, o, srcs(ts, cur), "set"


def guard(A, s, o, start):
    """Only where the container does not have the name yet."""
    return any(x.k == "cmp" and x.a[0] in ("In", "NotIn") and (x.a[0] == "In") != v and x.a[2] is o for x, v in must(A, start).get(s, ()))


# ---- rebuilds

def record(ts):
    return [t for t in ts if any(isstr(x) and RECORD in cval(x) for x in parts(t))]


def relp(t):
    return t.k == "attr" and t.a[1] == "relpath" and t.a[0].k == "attr" and t.a[0].a[1] == "js_constants"


def rebuild(R, A, mode):
    I, F = A.I, A.F
    start = A.start(A.eid[HOTF])
    effs = F.effects()
    rec = [e for e in effs if record(e.path)]
    reads = [e for e in rec if e.kind == "read" and any(I.node(s).op for s in [e.sid])]
    writes = {e.sid for e in rec if e.kind in ("write", "rename", "copy")}
    gone = {e.sid for e in rec if e.kind == "remove"}
    R.obl(bool(writes), "recorded", "%s: record" % mode, "the mode is not recorded", "")
    R.obl(bool(reads), "regenerated", "%s: record" % mode, "the recorded mode is not looked at", "")
    words = {}
    for s, f, args, kws, e in F.calls():
        if f.k in ("meth", "attr") and f.a[1] in ("write", "write_text") and isinstance(f.a[0], T) and args and record([f.a[0].a[0] if f.a[0].k == "file" else f.a[0]] if isinstance((f.a[0].a[0] if f.a[0].k == "file" else f.a[0]), T) else ()):
            for t in args[0]:
                if isstr(t):
                    words.setdefault(cval(t), s)
                elif t.k != "const":
                    words.setdefault(None, s)
    known = {w for w in words if w is not None}
    R.obl(len(known) == 1 and None not in words, "recorded", "%s: word" % mode, "what is recorded in %s mode is not one fixed word (%s)" % (mode, ", ".join(map(str, words))), "")
    # conditions
    def comparison(x):
        """The word the record is compared with."""
        if x.k == "cmp" and x.a[0] == "Eq":
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if fromrecord(a):
                    return cval(b) if isstr(b) else show(b)
        return None
    for s in range(len(I.states)):
        if F.is_branch(s):
            for x in F.conds(s):
                w = comparison(atom(x, True)[0])
                if w is not None:
                    R.obl(w in known, "regenerated", "%s: compared word" % mode, "the record is compared with %s, but %s is recorded in %s mode" % (w, ", ".join(sorted(known)) or "nothing", mode), A.loc(s))
    def same(s, t, l):
        at = F.edge_atoms(s, l)
        return bool(at) and all(v and comparison(x) in known for x, v in at)
    def absent(s, t, l):
        at = F.edge_atoms(s, l)
        return bool(at) and all(not v and any(tested(x, n) for n in ("exists", "isfile", "lexists", "is_file")) for x, v in at)
    def already(s, t, l):
        at = F.edge_atoms(s, l)
        return bool(at) and all(v and x.k == "cmp" and x.a[0] == "In" and relp(x.a[1]) for x, v in at)
    put = {s for s, o, ks, vs, _ in puts(A) if ks and all(relp(k) for k in ks) and o.k != "list"}
    fine = lambda s, t, l: same(s, t, l) or absent(s, t, l)
    subs = {s for s, f, args, kws, e in F.calls() if any(t.k in ("func", "closure") and t.a[0] in (SCANF, BUILDF) for v in args for t in v) or F.name(f) in (SCANF, BUILDF)}
    R.need("scan and build of files", len(subs))
    ends = set(A.exits(A.eid[HOTF]))
    # regenerated
    got = explore(A, start, lambda s, t, l: fine(s, t, l) or already(s, t, l) or s in put and l not in ("exc", "call"))
    bad = sorted((subs | ends) & got)
    R.obl(not bad, "regenerated", "%s: constants file scheduled" % mode, "the rebuild can go on although the record does not say %s and the constants file was not scheduled" % mode, A.loc(bad[0]) if bad else "")
    # recorded (what the constants file was put into is not empty)
    full = {o for s, o, ks, vs, _ in puts(A) if s in put and all(relp(k) for k in ks)}
    def empty(s, t, l):
        at = F.edge_atoms(s, l)
        return bool(at) and all(x in full and not v or nothing(x, full, v) for x, v in at)
    got = explore(A, start, lambda s, t, l: fine(s, t, l) or empty(s, t, l) or s in writes and l not in ("exc", "call"))
    bad = sorted(ends & got)
    R.obl(not bad, "recorded", "%s: on success" % mode, "the rebuild can succeed in a mode which is not the recorded one without recording it", A.loc(bad[0]) if bad else "")
    out = set().union(*[{t for t, l in I.succ[s] if l != "exc"} for s in writes]) if writes else set()
    later = F.reach(out)
    work = sorted(s for s in later if s in subs)
    R.obl(not work, "recorded", "%s: after the builds" % mode, "files are still scanned or built after the mode was recorded", A.loc(work[0]) if work else "")
    late = sorted((e.sid, e.kind) for e in effs if e.sid in later and e.sid not in writes and e.kind in ("write", "remove", "rename", "rmtree", "symlink", "copy", "save") and not record(e.path))
    R.obl(not late, "recorded", "%s: last" % mode, "the outputs or the stored state are still changed after the mode was recorded", A.loc(late[0][0]) if late else "")
    for s in {x for x in later if x in gone}:
        R.bad("recorded", "%s: kept" % mode, "the record is removed after it was written", A.loc(s))
    # invalidated
    missing = {e.sid for e in reads}
    gen = lambda s, t, l: fine(s, t, l) or s in gone and l != "call" or s in missing and l == "exc"
    got = explore(A, start, gen)
    bad = sorted(x for x in subs if x in got and is_build(A, x))
    R.obl(not bad, "invalidated", "%s: before the builds" % mode, "files are built for %s while the record still names another mode, so a failing build leaves a record which does not match" % mode, A.loc(bad[0]) if bad else "")
    return known


def nothing(x, full, v):
    """The number of entries is nought (also that of several containers)."""
    def count(t):
        return t.k == "call" and t.a[0] == "len" and t.a[1] in full or t.k in ("add", "bin") and any(isinstance(y, T) and count(y) for y in t.a)
    if x.k == "cmp" and x.a[0] == "Eq" and any(isinstance(y, T) and y.k == "const" and cval(y) == 0 for y in x.a[1:]):
        return v and any(count(y) for y in x.a[1:])
    return not v and count(x)


def is_build(A, s):
    return any(A.F.name(f) == BUILDF or any(t.k in ("func", "closure") and t.a[0] == BUILDF for v in args for t in v) for f, args, kws, e in A.I.calls[s])


def fromrecord(t):
    return has(t, lambda x: x.k == "read" and isinstance(x.a[0], T) and bool(record([x.a[0]])))


def tested(x, n):
    return x.k == "call" and len(x.a) == 2 and str(x.a[0]).split(".")[-1] == n and isinstance(x.a[1], T) and bool(parts(x.a[1])) and relp(parts(x.a[1])[-1])


# ---- dispatch

def dispatch(R):
    hs = ("copy_and_hash", "css", "js", "html", "image_glue", "js_constants", "copy", "hash")
    for q in (BUILDF, SCANF):
        name = q.split(".")[-1]
        A = Ana(R.p, [(q, {}, None)], opaque=OPAQUE + tuple(H + h + "." + name for h in hs))
        R.uses(A)
        own = set(A.named(JSC + name))
        others = {s for h in hs if h != "js_constants" for s in A.named(H + h + "." + name)}
        R.need("%s of other handlers" % name, len(others))
        no = A.holds(lambda x, v: not v and isconst(x))
        both = own & others
        bad = A.F.guarded(others - both, no, start=A.start(A.eid[q]))
        # where one call serves several handlers, what matters is where the handler is chosen
        if both:
            asked = {A.I.node(s).a["obj"] for s in A.F.node_states("attr") if A.I.node(s).a["name"] != name}
            chosen = {}
            for op in ("attr", "load"):
                for s in A.F.node_states(op):
                    n = A.I.node(s)
                    if n.dst is None or n.dst in asked and op == "attr" and not any(t.k == "mod" and t.a[0] == H[:-1] for t in A.I.rv(s, n.dst)):
                        continue
                    for t, l in A.I.succ[s]:
                        for v in A.I.rv(t, n.dst) if l != "exc" else ():
                            for h in hs:
                                if len(A.I.rv(t, n.dst)) == 1 and (v.k, v.a[:1]) in (("mod", (H[:-1] + "." + h,)), ("func", (H + h + "." + name,))):
                                    chosen.setdefault(h == "js_constants", set()).add(s)
            first = A.F.reach(A.start(A.eid[q]), stop_edge=no) & chosen.get(False, set())
            mine = chosen.get(True, set())
            if not mine:
                first = set(both)
            r = A.F.reach([t for s in first for t, l in A.I.succ[s]], stop_edge=no, stop_node=lambda x: x in mine)
            bad = set(bad) | r & both
        R.obl(not bad, "dispatch", name + ": others", "the constants file can be handed to another handler", A.loc(min(bad)) if bad else "")
        R.obl(bool(own), "dispatch", name + ": own handler", "the handler of the constants file is never used", "")


def isconst(x):
    return x.k == "cmp" and x.a[0] == "Eq" and (relp(x.a[1]) or relp(x.a[2]))
