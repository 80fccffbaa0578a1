"""C24: builds do not depend on the current working directory."""
from engine.q import *
from .fs_common import *
from .hot_common import bound

TECHNIQUE = "effect analysis: the path term of every file access reachable from scanning, building, watching, cleaning and the commands must start at the configured project folder; targets of created links must have been made absolute; no access or path computation behind a change of directory may start at a folder which was not made absolute before"


def check(R):
    p = R.p
    R.rule("located", "the path of every file access starts at the project folder (or at a temporary folder)")
    R.rule("absolute target", "the target of every link created for an output was made absolute")
    R.rule("after chdir", "once the directory was changed, files are only reached through a folder made absolute before")
    n = l = 0
    for name, kind, A in analyses(p):
        R.uses(A)
        n += located(R, A, name)
        l += links(R, A, name)
        if kind == "command":
            moved(R, A, name)
    R.need("file accesses", n)
    R.obl(l > 0, "absolute target", "links", "no link is created anywhere")


def located(R, A, name):
    n = 0
    for e in A.F.effects():
        if e.kind == "chdir":
            continue
        roles = [e.path]
        if e.kind in ("rename", "copy", "link"):
            roles.append(e.other or ())
        for ps in roles:
            for t in ps:
                w, h, ab = place(t)
                if t is NONE or serving(A, e, t):
                    continue
                n += 1
                R.obl(w != "cwd", "located", "%s: %s in %s" % (name, e.kind, A.I.func(e.sid).qual[len(PKG):]), "%s is looked for in the current directory" % show(t)[:150], A.loc(e.sid))
    return n


def serving(A, e, t):
    """The web server serves the directory it is started in."""
    return "http_server" in A.I.func(e.sid).qual


def links(R, A, name):
    n = 0
    for e in A.F.effects():
        if e.kind != "symlink":
            continue
        for t in e.other or ():
            w, h, ab = place(t)
            if w == "temp":
                continue
            n += 1
            R.obl(w in ("absolute", "unknown") or w == "project" and ab, "absolute target", "%s: link in %s" % (name, A.I.func(e.sid).qual[len(PKG):]), "the link leads to %s, which is resolved from the folder of the link when the project folder is relative" % show(t)[:120], A.loc(e.sid))
    return n


def moved(R, A, name):
    """States behind a change of directory into the project, up to the change back."""
    I = A.I
    ins, backs = set(), set()
    for e in A.F.effects():
        if e.kind == "chdir":
            (ins if any(place(t)[0] in ("project", "unknown") for t in e.path) else backs).add(e.sid)
    if not ins:
        return
    after = A.F.reach([t for s in ins for t, l in I.succ[s] if l != "exc"], None, lambda s: s in backs)
    # threads and callbacks started meanwhile
    more = True
    while more:
        more = False
        for (sid, q), cid in A.spawned.items():
            if sid in after and not set(A.start(cid)) <= after:
                after |= A.F.reach(A.start(cid), None, lambda s: s in backs)
                more = True
    for e in A.F.effects():
        if e.sid not in after or e.sid in backs or e.kind == "chdir" and e.sid in ins and not before(A, e.sid, ins, backs):
            continue
        for t in list(e.path) + list(e.other or ()):
            w, h, ab = place(t)
            if w == "project" and not serving(A, e, t):
                R.obl(ab, "after chdir", "%s: %s in %s" % (name, e.kind, A.I.func(e.sid).qual[len(PKG):]), "%s starts at a folder which may be relative, but the directory was changed" % show(t)[:120], A.loc(e.sid))
    for s, f, a, k, e in A.F.calls():
        if s not in after:
            continue
        n = A.F.name(f)
        if f.k == "ext" and n.split(".")[-1] in ABS and a:
            for t in a[0]:
                w, h, ab = place(t)
                R.obl(w != "project" or ab, "after chdir", "%s: %s in %s" % (name, n, A.I.func(s).qual[len(PKG):]), "%s is made absolute after the directory was changed" % show(t)[:100], A.loc(s))
        elif f.k in ("func", "bound") and n in (HOTF, COLDF):
            for cs in bound(A, n, a, k).values():
                for c in cs:
                    for t in I.getattr_(None, c, "folder") if c.k == "obj" else ():
                        w, h, ab = place(t)
                        R.obl(ab or w in ("absolute", "unknown"), "after chdir", "%s: folder of the rebuild" % name, "the rebuild is given the folder %s after the directory was changed" % show(t)[:100], A.loc(s))


def before(A, s, ins, backs):
    """Whether a change of directory comes behind another one."""
    return any(s in A.F.reach([t for t, l in A.I.succ[x] if l != "exc"], None, lambda y: y in backs) for x in ins if x != s)
