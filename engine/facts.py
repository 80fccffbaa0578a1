"""Facts about a supergraph: file-system effects, calls, path queries."""
from .terms import *
from .absint import Interp, pathmode, atom, neg, truth, combos, pick
from .project import Project, AnalysisBroken

WRITE_MODES = ("w", "a", "x", "+")


class Eff:
    __slots__ = ("sid", "kind", "path", "other", "name", "args")

    def __init__(self, sid, kind, path, other=None, name="", args=None):
        self.sid = sid; self.kind = kind; self.path = path or frozenset(); self.other = other; self.name = name; self.args = args

    def __repr__(self):
        return "%s %s%s" % (self.kind, show(self.path), " <- " + show(self.other) if self.other else "")


# library call -> (kind, index of path, index of other path)
FS = {
    "os.remove": ("remove", 0), "os.unlink": ("remove", 0),
    "os.rmdir": ("rmdir", 0), "os.removedirs": ("rmdir", 0),
    "os.rename": ("rename", 1, 0), "os.replace": ("rename", 1, 0), "os.renames": ("rename", 1, 0), "shutil.move": ("rename", 1, 0),
    "os.symlink": ("symlink", 1, 0), "os.link": ("link", 1, 0),
    "shutil.copy": ("copy", 1, 0), "shutil.copyfile": ("copy", 1, 0), "shutil.copy2": ("copy", 1, 0), "shutil.copytree": ("copy", 1, 0),
    "shutil.rmtree": ("rmtree", 0),
    "os.mkdir": ("mkdir", 0), "os.makedirs": ("mkdir", 0),
    "vanillaplusjs.build.ioutil.makedirs_safely": ("mkdir", 0),
    "os.chdir": ("chdir", 0),
    "os.scandir": ("list", 0), "os.listdir": ("list", 0), "os.walk": ("list", 0), "glob.glob": ("list", 0),
    "os.stat": ("stat", 0), "os.lstat": ("stat", 0), "os.path.getsize": ("stat", 0), "os.path.getmtime": ("stat", 0),
    "os.path.exists": ("test", 0), "os.path.lexists": ("test", 0), "os.path.isfile": ("test", 0), "os.path.isdir": ("test", 0), "os.path.islink": ("test", 0),
    "os.truncate": ("write", 0), "os.utime": ("touch", 0), "os.chmod": ("touch", 0), "os.readlink": ("stat", 0),
    "PIL.Image.open": ("read", 0),
    "filelock.FileLock": ("lockfile", 0), "fasteners.InterProcessLock": ("lockfile", 0),
}
METH = {"touch": "touch", "unlink": "remove", "write_text": "write", "write_bytes": "write", "read_text": "read", "read_bytes": "read",
        "mkdir": "mkdir", "rmdir": "rmdir", "symlink_to": "symlink", "rename": "rename", "replace": None}
MUTATING = {"write", "remove", "rmdir", "rename", "symlink", "link", "copy", "rmtree", "mkdir", "touch", "save"}


class Facts:
    def __init__(self, I):
        self.I = I
        self.p = I.p
        self._eff = None

    # ---- navigation
    def stack(self, sid):
        """Source positions from the entry to the state."""
        out = []
        I = self.I
        while sid is not None:
            out.append(I.where(sid))
            sid = I.ctxs[I.states[sid][0]].csid
        return list(reversed(out))

    def at(self, sid):
        return " > ".join(self.stack(sid)[-4:])

    def short(self, sid):
        return self.I.where(sid)

    def calls(self):
        for sid, rec in self.I.calls.items():
            for (f, args, kws, entered) in rec:
                yield sid, f, args, kws, entered

    def name(self, f):
        if f.k in ("ext", "func", "class", "closure"):
            return f.a[0]
        if f.k == "bound":
            return f.a[1]
        if f.k == "meth":
            return "." + f.a[1]
        return f.k

    def ext_calls(self, *names):
        for sid, f, args, kws, e in self.calls():
            if f.k == "ext" and f.a[0] in names:
                yield sid, f, args, kws

    def effects(self):
        if self._eff is not None:
            return self._eff
        out = []
        for sid, f, args, kws, entered in self.calls():
            if f.k in ("ext", "func") and not entered:
                nm = f.a[0]
                if nm in ("open", "io.open", "codecs.open"):
                    mode = args[1] if len(args) > 1 else kws.get("mode", frozenset([const("r")]))
                    path = args[0] if args else kws.get("file", frozenset())
                    w = any(not isstr(m) or any(c in cval(m) for c in WRITE_MODES) for m in mode)
                    out.append(Eff(sid, "write" if w else "read", path, None, nm, [path, mode]))
                    continue
                s = FS.get(nm)
                if s:
                    g = lambda i: args[i] if i < len(args) else (list(kws.values())[0] if kws and not args else frozenset([ANY]))
                    out.append(Eff(sid, s[0], g(s[1]), g(s[2]) if len(s) > 2 else None, nm, args))
            elif f.k == "meth":
                m = f.a[1]
                if m == "save" and args and f.a[0].k not in ("dict", "list"):
                    out.append(Eff(sid, "save", args[0], None, "." + m, args))
                elif METH.get(m) and f.a[0].k in ("cat", "attr", "sym", "elem", "key", "item", "const") or f.a[0] in self.I.pathed and (METH.get(m) or m == "replace" and len(args) == 1):
                    if m in ("rename", "replace"):
                        out.append(Eff(sid, "rename", args[0] if args else None, frozenset([f.a[0]]), "." + m, args))
                    else:
                        out.append(Eff(sid, METH[m], frozenset([f.a[0]]), None, "." + m, args))
                elif m == "open" and f.a[0].k in ("cat", "call", "attr", "sym", "elem", "key", "item", "each", "val") and pathmode(args, kws):
                    mode = pathmode(args, kws)
                    w = any(c in cval(x) for x in mode for c in WRITE_MODES)
                    out.append(Eff(sid, "write" if w else "read", frozenset([f.a[0]]), None, "open", [frozenset([f.a[0]]), frozenset(mode)]))
                elif m in ("exists", "is_file", "is_dir") and f.a[0].k in ("cat", "attr", "sym"):
                    out.append(Eff(sid, "test", frozenset([f.a[0]]), None, "." + m, args))
        self._eff = out
        return out

    # ---- exits
    def exits(self, normal=True, exceptional=False):
        out = []
        for cid, s0 in self.I.entries:
            ir = self.I.ctxs[cid].ir
            for sid, (c, pc, part) in enumerate(self.I.states):
                if c == cid and ((normal and pc == ir.exit) or (exceptional and pc == ir.excexit)):
                    out.append(sid)
        return out

    def starts(self):
        return [s for _, s in self.I.entries]

    # ---- reachability
    def reach(self, src, stop_edge=None, stop_node=None, back=False):
        """States reachable from ``src``; edges (s,t,label) and nodes may be cut. Nodes in src are never cut."""
        adj = self.I.pred if back else self.I.succ
        seen = set(src)
        st = list(src)
        par = {}
        while st:
            s = st.pop()
            for (t, l) in adj[s]:
                if t in seen:
                    continue
                if stop_edge is not None and stop_edge(*((t, s, l) if back else (s, t, l))):
                    continue
                if stop_node is not None and stop_node(t):
                    continue
                seen.add(t); par[t] = s
                st.append(t)
        self.par = par
        return seen

    def path(self, t, n=6):
        """Source lines of the last steps to t found by the last reach()."""
        out = []
        while t in self.par and len(out) < 400:
            w = self.I.where(t)
            if not out or out[-1] != w:
                out.append(w)
            t = self.par[t]
        return list(reversed(out[:n]))

    def conds(self, sid):
        """(term, truth) pairs a branch edge may stand for -- keyed by branch state."""
        n = self.I.node(sid)
        return self.I.rv(sid, n.a["c"])

    def is_branch(self, sid):
        return self.I.node(sid).op == "branch"

    def edge_atoms(self, s, label):
        """Normal-form conditions known to hold on leaving branch state s by label (all alternatives)."""
        if label not in ("T", "F") or not self.is_branch(s):
            return None
        return [atom(t, label == "T") for t in self.conds(s) if not (t.k == "const" and truth(t) != (label == "T"))]

    def node_states(self, op):
        for sid in range(len(self.I.states)):
            if self.I.node(sid).op == op:
                yield sid

    def guarded(self, targets, gen, kill=None, start=None):
        """Targets reachable without ``gen`` having held last: gen(s,t,label)->True sets the fact,
        kill(state)->True clears it. Returns the set of violating targets."""
        I = self.I
        targets = set(targets)
        bad = set()
        seen = set()
        st = [(s, False) for s in (start if start is not None else self.starts())]
        par = {}
        seen.update(st)
        while st:
            s, h = st.pop()
            if kill is not None and h and kill(s):
                h = False
            if s in targets and not h:
                bad.add(s)
            for (t, l) in I.succ[s]:
                nh = h or bool(gen(s, t, l))
                k = (t, nh)
                if k not in seen:
                    seen.add(k)
                    par[k] = (s, h)
                    st.append(k)
        self.gpar = par
        return bad

    def values(self, sid, var):
        return self.I.rv(sid, var)


def under(t, base):
    """Is path term t inside folder term base (strictly)?"""
    r = starts(t, base)
    return r is not None and r != []
