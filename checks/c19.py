"""C19: export ids are reserved under a lock between processes."""
from engine.q import *
from .c18 import GET, RESERVE, SCAN, EXPORT, HASHS, HASHF
from engine.tol import caught

TECHNIQUE = "lock-state exploration of every path of the reservation and lookup of image exports, with data-flow of the counter from its read to the written, claimed and returned id"
LOCK = ("fasteners.InterProcessLock", "fasteners.process_lock.InterProcessLock", "filelock.FileLock", "filelock.UnixFileLock")
ENTER, LEAVE = ("acquire", "__enter__"), ("release", "__exit__")


def check(R):
    R.rule("held", "the counter of an image's exports is read and written, the export's folder made, its reservation written and an unfinished reservation inspected only while an inter-process lock is held")
    R.rule("specific", "the lock is the same for whatever shares the artifacts folder: its path has no varying part beyond what the artifacts folder itself is made of")
    R.rule("one", "every write of the counter follows a read of it within the same hold of the lock")
    R.rule("next", "the id written, claimed and returned is the one read plus one (or the first one where there was no counter)")
    A = Ana(R.p, [(RESERVE, {}, None), (GET, {}, None), (SCAN, {}, None), (EXPORT, {}, None)], opaque=OPAQUE + (HASHS, HASHF))
    R.uses(A)
    I, F = A.I, A.F
    held, releases, odd = explore(A)
    for s, why in odd:
        R.bad("held", "lock " + I.func(s).short if hasattr(I.func(s), "short") else "lock", why, A.loc(s))
    n = {"counter": 0, "placeholder": 0, "look": 0, "folder": 0}
    counter_reads, counter_writes = {}, {}
    for e in F.effects():
        if e.kind in ("remove", "rename") and any(last(t).endswith(".lock") for t in e.path):
            R.bad("held", "lock file", "the lock's file is removed or replaced: a waiting process and a new one would each hold their own", A.loc(e.sid))
        for t in e.path:
            b = last(t)
            if not inart(t):
                continue
            if b == "counter.txt" and e.kind in ("test", "stat"):
                counter_reads.setdefault(e.sid, set()).add(t)
            if b == "counter.txt" and e.kind in ("read", "write", "rename", "copy", "append"):
                n["counter"] += 1
                d = counter_writes if e.kind != "read" else counter_reads
                d.setdefault(e.sid, set()).add(t)
                need(R, A, held, e, t, "%s of the counter" % e.kind)
            elif b == "placeholder.json" and e.kind in ("write", "rename", "copy"):
                n["placeholder"] += 1
                need(R, A, held, e, t, "%s of a reservation" % e.kind)
            elif b == "placeholder.json" and e.kind in ("read", "test", "stat"):
                n["look"] += 1
                need(R, A, held, e, t, "%s of a reservation" % e.kind)
    for k in ("counter", "placeholder"):
        R.need("accesses of the " + k, n[k])
    # names written through a temporary file count as writes of the counter as well
    rd = lambda s, t, l: s in counter_reads and l != "call" or l == "ret" and csid(I, s) in counter_reads
    bad = F.guarded(set(counter_writes), rd, kill=lambda s: s in releases)
    for s in counter_writes:
        R.obl(s not in bad, "one", "write of the counter in " + I.func(s).qual.split(".")[-1], "the counter can be written without having been read since the lock was taken", A.loc(s))
    # a counter which cannot be understood is not a missing one
    for sid, f, args, kws, e in F.calls():
        if F.name(f) == "int" and args and any(has(x, lambda y: y.k == "read" and last(y.a[0]) == "counter.txt") for x in args[0]):
            hs = caught(A, sid, "ValueError")
            hit = F.reach(hs, rd, lambda s: s in releases) & set(counter_writes) if hs else ()
            R.obl(not hit, "next", "counter read in " + I.func(sid).qual.split(".")[-1], "a counter which exists but cannot be read is started over", A.loc(sid))
    # the next id
    ids = {}
    for s, ts in sorted(counter_writes.items()):
        for w in written(A, s, ts):
            con = "counter written in " + I.func(s).qual.split(".")[-1]
            good = nextid(A, w, ts)
            R.obl(good, "next", con, "what is written is not one more than what was read: " + show(norm(w))[:100], A.loc(s))
            ids.setdefault(I.states[s][0], set()).add(strip(w))
    allids = {w for v in ids.values() for w in v}
    for e in F.effects():
        for t in e.path:
            if inart(t) and last(t) == "placeholder.json" and e.kind == "write":
                ps = parts(t)
                own = {strip(x) for x in ps} | {x for c in ps if isstr(c) for x in nums(c)}
                R.obl(any(w in own or w.k == "const" and w in own for w in allids), "next", "reservation at " + shortp(t), "the folder reserved is not the one of the id just taken", A.loc(e.sid))
    cid = A.eid[RESERVE]
    for s in range(len(I.states)):
        if I.node(s).op == "ret" and I.states[s][0] == cid:
            vs = [v for v in I.rv(s, I.node(s).a["src"])]
            R.obl(vs and all(strip(v) in allids for v in vs), "next", "id returned by the reservation", "the id handed out is not the one just taken", A.loc(s))


def nums(c):
    return [const(int(x)) for x in cval(c).split("/") if x.isdigit()]


def csid(I, s):
    return I.ctxs[I.states[s][0]].csid


def last(t):
    ps = parts(t)
    return cval(ps[-1]).split("/")[-1] if ps and isstr(ps[-1]) else ""


def shortp(t):
    return "/".join("*" if not isstr(x) else cval(x).strip("/") for x in parts(t)[1:])[:60]


def inart(t):
    return any(isstr(x) and "artifacts" in cval(x) for x in subterms(t))


def lockpaths(A, s, vs):
    return {x for v in vs for x in ([v.a[1]] if v.k == "call" and v.a[0] in LOCK and len(v.a) > 1 else [])}


def explore(A):
    """state -> set of possible (locks held); states which release; problems"""
    I = A.I
    acts = {}
    odd = []
    for sid, rec in I.calls.items():
        for f, a, k, e in rec:
            if f.k in ("meth", "attr") and isinstance(f.a[0], T) and f.a[1] in ENTER + LEAVE:
                lp = lockpaths(A, sid, [f.a[0]])
                if lp:
                    acts.setdefault(sid, []).append((f.a[1] in ENTER, lp))
                    if f.a[1] == "acquire" and (any(truth(x) is False for x in a[0]) if a else any(truth(x) is False for x in k.get("blocking", ())) or "timeout" in k):
                        odd.append((sid, "the lock is not waited for"))
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op in ("with_enter", "with_exit"):
            lp = lockpaths(A, s, I.rv(s, n.a["ctx"]))
            if lp:
                acts.setdefault(s, []).append((n.op == "with_enter", lp))
    releases = {s for s, l in acts.items() if any(not a for a, _ in l)}
    out = {}
    seen = set()
    work = [(s, frozenset()) for _, s in I.entries]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        s, h = k
        out.setdefault(s, set()).add(h)
        for t, l in I.succ[s]:
            g = h
            for a, lp in acts.get(s, ()):
                if a and l != "exc":
                    g = g | {frozenset(lp)}
                elif not a:
                    g = frozenset(x for x in g if not (x & frozenset(lp)))
            work.append((t, g))
    return out, releases, odd


def need(R, A, held, e, t, what):
    I = A.I
    con = "%s in %s (%s)" % (what, I.func(e.sid).qual.split(".")[-1], shortp(t))
    hs = held.get(e.sid, set())
    if not R.obl(bool(hs) and all(hs), "held", con, "this is done without holding an inter-process lock", A.loc(e.sid)):
        return
    own = set().union(*(keyparts(x) for x in e.path))
    for h in hs:
        fits = False
        why = set()
        for lp in h:
            bad = {x for p in lp for x in parts(p) if not derived(x, own)}
            nokey = not any(any(k in subterms(x) for k in own) for p in lp for x in parts(p))
            if not bad:
                fits = True
            why |= bad
        R.obl(fits, "specific", con, "the lock held depends on more than the artifacts folder it protects: " + ", ".join(sorted(show(norm(x))[:60] for x in why)), A.loc(e.sid))


def keyparts(t):
    """The varying parts of an artifacts path which name the image's folder."""
    out = set()
    for x in parts(t):
        for y in subterms(x):
            if y.k == "call" and y.a[0] == "os.path.splitext0" or y.k == "item" and y.a[0].k == "call" and "split" in y.a[0].a[0]:
                out.add(y)
    for x in parts(t):
        if not isstr(x) and not (x.k == "attr" and x.a[1] in ROOTS) and not has(x, lambda y: y.k in ("elem", "read")) and x.k != "bin":
            out.add(x)
    return out


ROOTS = ("folder", "out_folder", "artifacts_folder", "src_folder", "public_folder")


def derived(x, own):
    if x in own or x.k in ("const", "enum"):
        return True
    if x.k == "attr":
        return x.a[1] in ROOTS
    if x.k == "call" and x.a[0] not in ("os.getpid", "time.time", "os.path.relpath", "os.getcwd") and len(x.a) > 1:
        return all(derived(y, own) for y in x.a[1:] if isinstance(y, T))
    if x.k in ("cat", "item", "slice"):
        return all(derived(y, own) for y in x.a if isinstance(y, T))
    return False


def strip(t):
    while t.k == "call" and t.a[0] in ("str", "int", "repr", ".strip", "fmt", "format") and len(t.a) > 1:
        t = t.a[1]
    if isstr(t) and cval(t).strip().isdigit():
        return const(int(cval(t)))
    return t


def written(A, s, paths):
    """What is written to the file opened at s."""
    I = A.I
    files = {t for t in A.V(s, "ret") if t.k == "file"}
    for sid, f, args, kws, e in A.F.calls():
        if f.k in ("meth", "attr") and isinstance(f.a[0], T) and f.a[0].k == "file" and f.a[0].a[0] in paths and str(f.a[0].a[1]).strip("'\"").startswith(("w", "a", "r+", "x")) and f.a[1] == "write" and args:
            yield from args[0]
        nm = A.F.name(f)
        if nm in ("json.dump", "print") and any(x.k == "file" and x.a[0] in paths for a in list(args) + list(kws.values()) for x in a):
            yield from args[0]


def nextid(A, w, paths):
    w = strip(w)
    if w.k == "const":
        return w.a[-1] == 1
    if w.k == "count":
        return True          # stepped up in place; rule "one" requires the read
    if w.k == "bin" and w.a[0] == "Add":
        x, y = strip(w.a[1]), strip(w.a[2])
        if y.k != "const":
            x, y = y, x
        return y.k == "const" and y.a[-1] == 1 and x.k == "read" and last(x.a[0]) == "counter.txt"
    return False
