"""C21: initialising a project never touches what is there."""
from engine.q import *
from engine.consts import explore

TECHNIQUE = "effect analysis of the init command: every write's path term must be guarded on all paths by a failed existence test of that same term; directory creation and reads must not depend on what is there"
RUN = "vanillaplusjs.runners.init."
CHANGES = ("write", "append", "save", "touch", "copy", "symlink", "link")
GONE = ("remove", "rmdir", "rmtree", "rename")
WANT = ("vanillaplusjs.json", "src/public/index.html")


def check(R):
    R.rule("absent", "a file is written only after a test of that same path found nothing there")
    R.rule("keeps", "nothing is removed, renamed or replaced, and the working directory stays")
    R.rule("inside", "only paths below the given folder are written")
    R.rule("anywhere", "folders are created without regard to whether they exist, before files are written into them, and nothing which may be absent is read")
    R.rule("creates", "the configuration and the starter page are created")
    A = Ana(R.p, [(RUN + "init", {}, None), (RUN + "main", {}, None)])
    R.uses(A)
    I, F = A.I, A.F
    for q in (RUN + "init", RUN + "main"):
        start = A.start(A.eid[q])
        live = explore(A, start)
        name = q.split(".")[-1]
        effs = [e for e in F.effects() if e.sid in live]
        dirs = {}
        for e in effs:
            if e.kind == "mkdir":
                for t in e.path:
                    dirs.setdefault(e.sid, set()).add(t)
        made = set()
        for e in effs:
            where = "%s in %s via %s" % (e.kind, I.func(e.sid).qual.split(".")[-1], name)
            if e.kind in GONE or e.kind == "chdir":
                R.bad("keeps", where, "changes what is there: " + ", ".join(show(norm(t))[:80] for t in e.path), A.loc(e.sid))
                continue
            if e.kind in CHANGES:
                if not e.path:
                    R.bad("inside", where, "a path which is not known", A.loc(e.sid))
                for t in e.path:
                    b = below(t, q)
                    R.obl(b is not None, "inside", where, "writes %s, which is not a fixed path below the folder" % show(norm(t))[:100], A.loc(e.sid))
                    if b is None:
                        continue
                    free = lambda s, u, l: any(not v and tested(x) is t for x, v in (F.edge_atoms(s, l) or ()))
                    bad = e.sid in explore(A, start, free) and not fresh(e)
                    R.obl(not bad, "absent", where + ": " + b, "%s can be written although it may exist" % b, A.loc(e.sid))
                    made.add(b)
                    # its folder
                    d = "/".join(b.split("/")[:-1])
                    mk_ = {s for s, ts in dirs.items() if any(below(x, q) is not None and (d == "" or below(x, q) == d or below(x, q).startswith(d + "/")) or d == "" and root(x, q) for x in ts)}
                    R.obl(e.sid not in explore(A, start, lambda s, u, l: s in mk_ and l not in ("exc", "call")), "anywhere", where + ": folder of " + b, "the folder of %s may not exist yet" % b, A.loc(e.sid))
                continue
            if e.kind == "mkdir":
                for t in e.path:
                    b = below(t, q) if not root(t, q) else "."
                    R.obl(b is not None, "inside", where, "creates %s, which is not a fixed path below the folder" % show(norm(t))[:100], A.loc(e.sid))
                    ok = tolerant(A, e) or e.sid not in explore(A, start, lambda s, u, l: any(not v and tested(x, True) is t for x, v in (F.edge_atoms(s, l) or ())))
                    R.obl(ok, "anywhere", where + " " + str(b), "fails when the folder %s exists (or when the one around it does not)" % b, A.loc(e.sid))
                continue
            if e.kind in ("read", "list", "stat"):
                for t in e.path:
                    if below(t, q) is None and not root(t, q):
                        continue
                    seen = lambda s, u, l: any(v and tested(x, True) is t for x, v in (F.edge_atoms(s, l) or ()))
                    R.obl(e.sid not in explore(A, start, seen) or caught(A, e.sid), "anywhere", where + " of " + str(below(t, q)), "needs %s to exist" % show(norm(t))[:80], A.loc(e.sid))
        for w in WANT:
            R.obl(w in made, "creates", "%s via %s" % (w, name), "%s is not created" % w)
        for sid, f, args, kws, e in F.calls():
            if sid in live and f.k == "ext" and (f.a[0] in ("os.system", "os.popen") or f.a[0].startswith("subprocess.")):
                R.bad("keeps", "command in " + I.func(sid).qual.split(".")[-1], "runs another program", A.loc(sid))


def root(t, q):
    while t.k == "call" and t.a[0] in ("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser") and len(t.a) > 1:
        t = t.a[1]
    if q.endswith(".init.init"):
        return t.k == "sym" and t.a[0] == "folder"
    return t.k == "attr" and t.a[1] == "folder" and "parse_args" in show(t.a[0])


def below(t, q):
    """The constant path of t below the given folder; None if t is not such a path."""
    ps = parts(t)
    if len(ps) < 2 or not root(ps[0], q) or not all(isstr(x) for x in ps[1:]):
        return None
    rest = "".join(cval(x) for x in ps[1:])
    out = [x for x in rest.split("/") if x not in ("", ".")]
    return "/".join(out) if rest.startswith("/") and ".." not in out else None


def tested(x, dirs=False):
    if x.k == "call" and x.a[0] in ("os.path.exists", "os.path.isfile", "os.path.lexists") + (("os.path.isdir",) if dirs else ()):
        return x.a[1]
    if x.k == "call" and len(x.a) == 2 and str(x.a[0]).split(".")[-1] in ("exists", "is_file") and isinstance(x.a[1], T):
        return x.a[1]
    return None


def fresh(e):
    """Opened for exclusive creation."""
    modes = [cval(t) for v in (e.args or ())[1:] for t in (v if isinstance(v, (set, frozenset)) else ()) if isstr(t)]
    return e.kind == "write" and bool(modes) and all(m in ("x", "xt", "tx", "xb", "bx") for m in modes)


def tolerant(A, e):
    return e.name.endswith("makedirs_safely") or e.name == "os.makedirs" and existok(A, e) or e.name.split(".")[-1] == "mkdir" and existok(A, e)


def existok(A, e):
    return any(any(t.k == "const" and cval(t) is True for t in kws.get("exist_ok", ())) for f, args, kws, r in A.I.calls[e.sid])


def caught(A, s):
    return all(A.I.node(t).op not in ("excexit",) for t, l in A.I.succ[s] if l == "exc")
