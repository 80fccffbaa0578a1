"""C33: working directory, temporary files and servers are put back on every exit."""
import ast
from engine.q import *
from engine.flow import Flow

TECHNIQUE = "typestate over all normal and exceptional paths of each command: away/restored working directory (with a def-use slice of the directory returned to), created/removed temporary path, started/ended server thread"
DEV = PKG + "runners.dev.dev"
RUN = PKG + "runners.run.run_server"
DETECT = PKG + "runners.build.detect_symlink_support"
BUILD = PKG + "runners.build.build"


def roots(p):
    """Commands to analyse for changes of the working directory and servers: (function, opaque functions)."""
    heavy = tuple(q for q, f in p.funcs.items() if f.cls is not None and f.name in ("rebuild_if_appropriate", "rebuild", "prepare_rebuild"))
    heavy += HEAVY
    out = []
    for q, extra in ((RUN, ()), (DEV, (BUILD, DETECT, RUN))):
        if q in p.funcs:
            out.append((q, OPAQUE + heavy + extra))
    return out


def check(R):
    p = R.p
    R.rule("directory", "every path from a change of the working directory to an exit, by return or exception, goes back to the directory read before")
    R.rule("temporary", "every path from the creation of a temporary file to an exit passes its removal (or a test that it is absent)")
    R.rule("server", "a command which started a server ends only after the server was told to stop and its thread was joined or seen dead")
    seen = set()
    n = 0
    for q, opq in roots(p):
        A = Ana(p, [(q, {}, None)], opaque=opq)
        R.uses(A)
        seen |= {A.I.func(s).qual for s in range(len(A.I.states))}
        n += directory(R, A, q)
        servers(R, A, q)
    others(R, seen)
    R.need("commands analysed", len(seen))
    probe(R)
    download(R)
    outline(R)


def others(R, seen):
    """Functions which change the working directory or start threads and are part of no command analysed."""
    p = R.p
    for q, f in sorted(p.funcs.items()):
        if q in seen or f.qual in seen:
            continue
        names = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        own = bool(names & {"chdir", "fchdir"}), "Thread" in names
        if not any(own) or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            continue
        if f.parent is not None:
            continue
        A = Ana(p, [(q, {}, f.cls)], opaque=OPAQUE + tuple(h for h in HEAVY if h != q))
        R.uses(A)
        directory(R, A, q)
        servers(R, A, q)


def callto(A, *names):
    out = {}
    for s, f, args, kws, e in A.F.calls():
        if f.k == "ext" and f.a[0] in names:
            out.setdefault(s, (args, kws))
    return out


CWD = ("getcwd", "cwd", "getcwdb")
SAME = ("abspath", "realpath", "normpath", "str", "fspath", "Path", "PurePath", "expanduser", "resolve", "absolute")


def is_cwd(t):
    """The working directory at some time, normalised in any way."""
    while t.k == "call" and t.a[0].split(".")[-1] in SAME and len(t.a) == 2:
        t = t.a[1]
    return t.k == "call" and t.a[0].split(".")[-1] in CWD and len(t.a) == 1


def read_at(flow, cid, pc, reg):
    """Calls reading the working directory a value stems from."""
    I = flow.I
    out, seen = set(), set()
    st = [(cid, pc, reg)]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for c, k in flow.slice(*x):
            n = flow.node(c, k)
            if n.op != "call":
                continue
            for f in flow.vals(c, k, n.a["f"]):
                nm = flow.A.F.name(f).split(".")[-1]
                if nm in CWD:
                    out.add((c, k))
                elif nm in SAME:
                    st += [(c, k, r) for r in n.a["args"] if isinstance(r, str)]
                    st.append((c, k, n.a["f"]))
    return out


def normal_succ(A, ss):
    return {t for s in ss for t, l in A.I.succ[s] if l not in ("exc", "excret")}


def exits(A, q, normal=True, exc=True):
    return set(A.F.exits(normal, exc)) if q is None else set(A.exits(A.eid[q], normal, exc))


def directory(R, A, q):
    I = A.I
    ch = callto(A, "os.chdir", "os.fchdir")
    if not ch:
        return 0
    flow = Flow(A)
    home = {s for s, (args, kws) in ch.items() if all(is_cwd(t) for a in list(args[:1]) + list(kws.values()) for t in a)}
    away = set(ch) - home
    con = q.replace(PKG, "")
    out = A.F.reach(normal_succ(A, away), stop_node=lambda s: s in home)
    bad = out & exits(A, None if q not in A.eid else q)
    R.obl(not bad, "directory", con, "the working directory is changed and not changed back%s" % ("" if not bad else " on a path which ends " + ("by an exception" if all(I.node(b).op == "excexit" for b in bad) else "normally")),
          A.loc(min(away)) if away else "", A.F.path(min(bad)) if bad else ())
    for s in home:
        n = I.node(s)
        regs = [r for r in n.a["args"] if isinstance(r, str)] + [r for _, r in n.a["kws"]]
        cid, pc, part = I.states[s]
        stale = [x for r in regs for x in read_at(flow, cid, pc, r) if set(flow.at.get(x, ())) & out]
        R.obl(not stale, "directory", con + " returns to", "the directory gone back to is read after it was changed", A.loc(s))
    return len(away)


# ---------------------------------------------------------------- temporary files
ABSENT = ("exists", "lexists", "isfile", "islink", "is_file", "is_symlink")


def leaks(R, A, made, ends, con, what, failing=True):
    """``made``: {term: states creating it}."""
    I = A.I
    effs = list(A.F.effects())
    for t, ss in made.items():
        gone = {e.sid for e in effs if (e.kind in ("remove", "rmtree") and any(x is t or starts(t, x) for x in e.path)) or (e.kind == "rename" and e.other and any(x is t for x in e.other))}
        target = {x for e in effs if e.kind == "symlink" and e.sid in ss and e.other for x in e.other}
        dangling = set()
        if target:
            rem = {e.sid for e in effs if e.kind == "remove" and any(x in target for x in e.path) and e.sid not in gone}
            dangling = A.F.reach(normal_succ(A, rem), stop_node=lambda s: s in gone) if rem else set()
        busy = {e.sid for e in effs if e.kind in ("remove", "rename", "test")}
        def absent(x, v):
            return not v and x.k == "call" and x.a[0].split(".")[-1] in ABSENT and len(x.a) > 1 and x.a[1] is t
        def absent_l(x, v):
            return absent(x, v) and x.a[0].split(".")[-1] in ("lexists", "islink", "is_symlink")
        h1, h2 = A.holds(absent), A.holds(absent_l)
        def stop(a, b, l):
            if l in ("exc", "excret") and (not failing or a in busy):
                return True
            return (h2 if a in dangling else h1)(a, b, l)
        loops = set()
        for s in range(len(I.states)):
            n = I.node(s)
            if n.op == "next" and any(x is t for x in I.elems(None, I.rv(s, n.a["it"]))):
                item = {b for b, l in I.succ[s] if l == "item"}
                again = A.F.reach(item - gone, stop, lambda x: x in gone)
                if s not in again:
                    loops.add(s)
        start = normal_succ(A, ss)
        hit = A.F.reach(start - gone, stop, lambda x: x in gone or x in loops) & ends
        R.obl(not hit, "temporary", con + ": " + what(t), "the file is left behind on a path which ends " + ("by an exception" if hit and all(I.node(b).op == "excexit" for b in hit) else "normally"),
              A.loc(min(ss)), A.F.path(min(hit)) if hit else ())


def transient(t):
    """Made by the tempfile module in a way which removes it."""
    return has(t, lambda x: x.k == "call" and x.a[0].split(".")[-1] in ("TemporaryDirectory", "NamedTemporaryFile", "TemporaryFile"))


def rooted(t, params):
    return has(t, lambda x: x.k == "sym") or has(t, lambda x: x.k == "attr")


HEAVY = (B + "hot_incremental_rebuild.hot_incremental_rebuild", B + "cold_incremental_rebuild.cold_incremental_rebuild")


def probe(R):
    p = R.p
    q = DETECT if DETECT in p.funcs else BUILD
    A = Ana(p, [(q, {}, None)], opaque=OPAQUE + HEAVY)
    R.uses(A)
    made = {}
    for e in A.F.effects():
        if e.kind in ("write", "symlink", "link", "copy", "touch", "mkdir"):
            for t in e.path:
                if not transient(t) and (q == DETECT or not rooted(t, ())):
                    made.setdefault(t, set()).add(e.sid)
    leaks(R, A, made, exits(A, q), q.replace(PKG, ""), show)


def download(R):
    from checks.ext_common import ENTRY, ext_key
    p = R.p
    q = ENTRY if ENTRY in p.funcs else B + "cold_incremental_rebuild.cold_incremental_rebuild"
    A = Ana(p, [(q, {}, None)], opaque=OPAQUE + (B + "hot_incremental_rebuild.hot_incremental_rebuild",))
    R.uses(A)
    tmp, other = set(), set()
    for e in A.F.effects():
        if e.kind in ("rename", "copy") and e.other:
            final = any((folder_of(t) or ()) and len(folder_of(t)) == 1 and ext_key(folder_of(t)[0]) is not None for t in e.path)
            (tmp if final else other).update(e.other)
    made = {}
    for e in A.F.effects():
        if e.kind in ("write", "symlink", "touch"):
            for t in e.path:
                if (t in tmp or (has(t, lambda x: x.k == "fresh") and t not in other)) and not transient(t):
                    made.setdefault(t, set()).add(e.sid)
    groups = {}
    for t, ss in made.items():
        for s in ss:
            groups.setdefault((A.loc(s), A.ancestors(s)[-1]), []).append((t, s))
    for (loc, root), l in sorted(groups.items(), key=str):
        ends = set(A.exits(root, True, True)) | set(A.exits(A.eid[q], True, True))
        for t, s in l:
            leaks(R, A, {t: {s}}, ends, q.replace(PKG, ""), lambda t: "temporary download")


def outline(R):
    from checks.out_common import manipulators, drive_manip
    p = R.p
    n = 0
    for c in manipulators(p):
        ini = p.find_method(c, "__init__")
        extra = [x for x in ini.params()[1:] if x not in ("context", "relpath", "mode")]
        if not extra:
            continue
        for mode in ("scan", "build"):
            A, q = drive_manip(p, c, mode, linked=True)[:2]
            R.uses(A)
            n += hand_over(R, A, c, mode)
    R.need("generated sources handed to another processor", n)


def hand_over(R, A, c, mode):
    I = A.I
    effs = list(A.F.effects())
    written = {t for e in effs if e.kind == "write" for t in e.path}
    n = 0
    con = c.name + " (" + mode + ")"
    done = {}
    for s, f, args, kws, e in A.F.calls():
        if f.k not in ("bound", "meth", "attr") or not str(f.a[1]).split(".")[-1] in ("scan_file", "build_file") or e:
            continue
        xs = {x for a in list(args[1:]) + list(kws.values()) for x in a}
        ps = {t for t in written for r in [folder_of(t)] if r is not None and any(cat(list(r)) is x for x in xs)}
        if ps:
            done.setdefault(s, set()).update(ps)
    for s, ps in done.items():
        n += 1
        # the end of the step: the method of the manipulator called from the driver
        chain = A.ancestors(s)
        top = chain[0 if len(chain) < 2 else -2]
        ends = {x for x in range(len(I.states)) if I.states[x][0] == top and I.node(x).op in ("ret", "exit")}
        gone = {e.sid for e in effs if e.kind in ("remove", "rename") and ps <= (e.path if e.kind == "remove" else e.other or frozenset())}
        def absent(x, v):
            return not v and x.k == "call" and x.a[0].split(".")[-1] in ABSENT and len(x.a) > 1 and x.a[1] in ps
        h = A.holds(absent)
        hit = A.F.reach(normal_succ(A, {s}) - gone, lambda a, b, l: l in ("exc", "excret") and a in gone or h(a, b, l), lambda x: x in gone) & ends
        R.obl(not hit, "temporary", con + ": generated source", "the source generated for an inline block is left behind after it was processed", A.loc(s), A.F.path(min(hit)) if hit else ())
    # what is written is what is handed over
    if done:
        all_ = set().union(*done.values())
        for e in effs:
            if e.kind == "write" and "src" in show(e.path):
                n += 1
                R.obl(e.path <= all_, "temporary", con + ": generated source written", "the file written is not the one processed and removed", A.loc(e.sid))
    return n


# ---------------------------------------------------------------- servers
def servers(R, A, q):
    I = A.I
    con = q.replace(PKG, "")
    started, joins, sets_, stops = {}, {}, {}, {}
    for s, f, args, kws, e in A.F.calls():
        if f.k not in ("meth", "attr") or not isinstance(f.a[0], T):
            continue
        o, m = f.a[0], f.a[1]
        if m == "start" and o.k == "call" and o.a[0].split(".")[-1] in ("Thread", "Observer", "Process"):
            started.setdefault(o, set()).add(s)
        elif m == "join" and (not args or args[0] == frozenset([NONE])) and all(v == frozenset([NONE]) for v in kws.values()):
            joins.setdefault(o, set()).add(s)
        elif m == "set" and not args:
            sets_.setdefault(o, set()).add(s)
        elif m == "stop":
            stops.setdefault(o, set()).add(s)
    watch = {o for o in started if o.a[0].split(".")[-1] == "Observer"}
    for o, ss in started.items():
        def dead(x, v, o=o):
            return not v and x.k == "call" and x.a[0].split(".")[-1] == "is_alive" and len(x.a) > 1 and x.a[1] is o
        dead = A.holds(dead)
        name = con + ": " + o.a[0].split(".")[-1].lower()
        target = kwarg(o, "target") if o not in watch else None
        server = target is not None and target.k == "attr"
        root = {A.ancestors(s)[-1] for s in ss}
        ends = {x for r in root for x in A.exits(r, True, server)}
        J = joins.get(o, set())
        hit = A.F.reach(normal_succ(A, ss), lambda a, b, l: dead(a, b, l) or (a in J and l not in ("exc", "excret")), None) & ends
        R.obl(not hit, "server", name + " joined", "the %s started is neither joined nor seen dead on a path which ends %s" % (o.a[0].split(".")[-1].lower(), "by an exception" if hit and all(I.node(b).op == "excexit" for b in hit) else "normally"),
              A.loc(min(ss)), A.F.path(min(hit)) if hit else ())
        if o in watch:
            S = stops.get(o, set())
            done = A.done(S)
            bad = A.F.guarded(ends, lambda a, b, l: done(a, b, l) or dead(a, b, l), None, normal_succ(A, ss))
            R.obl(not bad, "server", name + " stopped", "the observer is not stopped", A.loc(min(ss)))
        elif server:
            S = {s for s in A.F.node_states("setattr") if I.node(s).a["name"] in ("should_exit", "force_exit") and target.a[0] in I.rv(s, I.node(s).a["obj"]) and all(x is TRUE for x in I.rv(s, I.node(s).a["src"]))}
            done = A.done(S)
            bad = A.F.guarded(J | ends, lambda a, b, l: done(a, b, l) or dead(a, b, l), None, normal_succ(A, ss))
            R.obl(not bad, "server", name + " told", "the server is waited for without having been told to exit", A.loc(min(ss)))
        else:
            given = events(A, o)
            if not given:
                continue
            hs = handlers(A, given)
            R.obl(hs, "server", name + " interrupt", "an interrupt does not set the event the server waits for", A.loc(min(ss)))
            if watch:
                S = {x for ev in given for x in sets_.get(ev, ())}
                done = A.done(S)
                bad = A.F.guarded(ends, lambda a, b, l: done(a, b, l) or dead(a, b, l), None, normal_succ(A, ss))
                R.obl(not bad, "server", name + " told", "the command ends by itself without telling the server to stop", A.loc(min(ss)))


def kwarg(o, name):
    for x in o.a[1:]:
        if isinstance(x, T) and x.k == "kw" and x.a[0] == name:
            return x.a[1]
    return None


def events(A, o):
    """Events handed to a thread."""
    out = set()
    st = [x for x in (kwarg(o, "kwargs"), kwarg(o, "args"), kwarg(o, "target")) if x is not None]
    for d in st:
        vs = {d}
        if d.k in ("dict", "list", "set"):
            vs |= set(A.I.elems(None, frozenset([d]))) | set(A.V(d, "*v"))
            for (x, k), v in list(A.I.V.items()) if hasattr(A.I.V, "items") else []:
                if x is d:
                    vs |= set(v)
        for v in vs:
            out |= {x for x in subterms(v) if x.k == "call" and x.a[0].split(".")[-1] == "Event"}
    return out


def handlers(A, given):
    """Whether a signal handler registered sets one of the events."""
    I = A.I
    regs = callto(A, "signal.signal")
    for s, (args, kws) in regs.items():
        for h in args[1] if len(args) > 1 else kws.get("handler", ()):
            if h.k in ("bound", "meth", "attr") and str(h.a[1]).split(".")[-1] == "set":
                return True
            if h.k in ("closure", "func", "bound"):
                f = I.p.funcs.get(h.a[0] if h.k != "bound" else h.a[1])
                node = f.node if f is not None else None
                if node is None or sets(node, A, 0):
                    return True
    return not regs and False


def sets(node, A, depth):
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr == "set" and not x.args:
                return True
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if depth < 3 and nm:
                for q, f in A.p.funcs.items():
                    if f.name == nm and f.module.name.startswith(PKG + "runners") and sets(f.node, A, depth + 1):
                        return True
    return False
