"""Every file access of scanning, building, watching and cleaning, and where its path starts."""
from engine.q import *
from engine.loops import Loops
from .out_common import manipulators, handlers, drive_handler, drive_manip
from .hot_common import COLDF, HOTF, BUILDF, SCANF

RUN = PKG + "runners."
RUNNERS = (RUN + "build.build", RUN + "clean.clean", RUN + "init.init", RUN + "dev.dev", RUN + "run.run_server")


def analyses(p, runners=True):
    """(name, kind, analysis): the steps for each kind of file, the rebuilds and the commands."""
    ms = manipulators(p)
    for m in handlers(p):
        for fn in ("scan_file", "build_file"):
            A, q, _ = drive_handler(p, m, fn, ms)
            yield m.split(".")[-1] + "." + fn, "step", A
    for c in ms:
        for mode in ("scan", "build"):
            A, q = drive_manip(p, c, mode, linked=True)
            yield c.name + " " + mode, "step", A
    yield "hot rebuild", "hot", Ana(p, [(HOTF, {}, None)], opaque=OPAQUE + (BUILDF, SCANF))
    yield "cold rebuild", "cold", Ana(p, [(COLDF, {}, None)], opaque=OPAQUE + (BUILDF, SCANF, HOTF))
    for q in RUNNERS if runners is True else runners:
        if q in p.funcs:
            yield q.split(".")[-1], "command", Ana(p, [(q, {}, None)], opaque=OPAQUE + (BUILDF, SCANF, HOTF, COLDF))


SAME = ("abspath", "realpath", "normpath", "fspath", "str", "strip", "rstrip", "replace", "Path", "PurePath", "resolve", "absolute", "expanduser", "as_posix", "decode", "fsdecode", "normcase")
FRONT = ("dirname", "splitext0", "slice", "splitext", "split", "rsplit", "rstrip", "removesuffix", "parent", "with_suffix", "with_name", "partition", "rpartition", "join")
ABS = ("abspath", "realpath", "resolve", "absolute")
LISTS = ("scandir", "walk", "glob", "iglob", "rglob", "iterdir", "fwalk")


def head(t):
    """(first operand of a path, whether it was made absolute)."""
    ab = False
    while True:
        if t.k == "cat":
            ps = [x for x in t.a if not (isstr(x) and cval(x) == "")]
            if not ps:
                return t, ab
            t = ps[0]
        elif t.k == "call" and isinstance(t.a[0], str):
            n = t.a[0].split(".")[-1]
            if n in ABS:
                ab = True
            if n in SAME or n in FRONT:
                if len(t.a) < 2 or not isinstance(t.a[1], T) or n == "slice" and len(t.a) > 2 and t.a[2] not in (NONE, const(0)):
                    return t, ab
                t = t.a[1]
            elif n in LISTS and len(t.a) > 1 and isinstance(t.a[1], T):
                t = t.a[1]
            else:
                return t, ab
        elif t.k == "fresh" and made_in(t) is not None:
            t = made_in(t)
        elif t.k == "slice":
            if t.a[1] not in (NONE, const(0)):
                return t, ab
            t = t.a[0]
        elif t.k in ("each", "elem") and listing(t.a[0]):
            t = t.a[0]
        elif t.k == "item" and len(t.a) > 1 and t.a[1] is const(0) and (listing(t.a[0]) or t.a[0].k == "call" and t.a[0].a[0].split(".")[-1] in ("split", "rsplit", "splitext", "partition", "rpartition")):
            t = t.a[0]
        elif t.k == "attr" and t.a[1] == "path" and listing(t.a[0]):
            t = t.a[0]
        elif t.k == "attr" and t.a[1] == "parent":
            t = t.a[0]
        else:
            return t, ab


def listing(t):
    return t.k in ("each", "elem") and listing(t.a[0]) or t.k == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1] in LISTS


def made_in(t):
    """Folder given for a temporary file or folder."""
    c = t.a[0]
    return c.a[1] if isinstance(c, T) and c.k == "call" and "tempfile" in str(c.a[0]) and len(c.a) > 1 and isinstance(c.a[1], T) else None


def fresh(t):
    return has(t, lambda x: x.k == "fresh" and "emp" in show(x) or x.k == "call" and isinstance(x.a[0], str) and ("tempfile" in x.a[0] or x.a[0].split(".")[-1] in ("mkdtemp", "mkstemp", "gettempdir", "TemporaryDirectory", "NamedTemporaryFile")))


def folder(t):
    """The project folder, however it is reached."""
    return t.k == "attr" and "folder" in t.a[1] or t.k == "sym" and "folder" in t.a[0] or t.k == "init" and "folder" in str(t.a)


def place(t):
    """'project' | 'absolute' | 'temp' | 'cwd' | 'unknown', and the first operand."""
    h, ab = head(t)
    if h.k == "any":
        return "unknown", h, ab
    if folder(h):
        return "project", h, ab
    if fresh(h):
        return "temp", h, ab
    if isstr(h) and cval(h).startswith("/"):
        return "absolute", h, ab
    if h.k == "attr" and h.a[1] in ("src_path", "dest_path"):
        return "absolute", h, True
    return "cwd", h, ab


def found_empty(A, sid):
    """What is removed at sid was found to be empty since its loop came to it."""
    contents = lambda x: has(x, lambda y: y.k == "call" and str(y.a[0]).split(".")[-1] in ("scandir", "listdir", "iterdir", "walk"))

    def empty(x, v):
        if x.k == "const":
            return True
        if x.k == "cmp" and x.a[0] in ("Eq", "Is", "IsNot", "NotEq") and NONE in x.a[1:] and contents(x):
            return v == (x.a[0] in ("Eq", "Is"))
        return not v and contents(x)
    L = Loops(A)
    heads = {h for lp in L.of(sid)[:1] for h in L.states(lp) if A.I.node(h).op == "next"}
    every = A.holds(empty)
    some = lambda s, t, l: every(s, t, l) and any(x.k != "const" for x, v in A.F.edge_atoms(s, l))
    return not A.F.guarded([sid], some, kill=lambda q: q in heads)
