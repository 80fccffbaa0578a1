"""Context-inlining abstract interpreter: builds the supergraph of one or several entry points.

A state is (calling context, instruction, partition): the partition keeps the known truth of
flag variables and the exception in flight, so that ``ok = False ... if ok`` and helper
predicates stay path-sensitive.  Values are sets of symbolic terms; they grow monotonically
until nothing changes.  Nothing of the analysed program is executed.
"""
import itertools
import ast, builtins
from collections import deque
from .terms import *
from .terms import join as pjoin
from .ir import ir_of, IR
from .project import Func, AnalysisBroken

K = 64
KSTAR = 160

NORAISE = {
    "contextlib.suppress", "contextlib.ExitStack", "contextlib.nullcontext",
    "os.path.join", "os.path.exists", "os.path.lexists", "os.path.isfile", "os.path.isdir", "os.path.islink", "os.path.dirname",
    "os.path.basename", "os.path.splitext", "os.path.relpath", "os.path.abspath", "os.path.normpath", "os.path.split",
    "len", "str", "repr", "isinstance", "list", "tuple", "set", "dict", "frozenset", "sorted", "enumerate", "zip", "range",
    "print", "bool", "type", "id", "super", "hasattr", "callable", "reversed", "max", "min", "sum", "iter", "any", "all",
    "time.time", "time.perf_counter", "secrets.token_urlsafe", "secrets.token_hex", "hashlib.sha256", "typing.cast", "cast",
    "collections.deque", "dataclasses.field", "asyncio.Event", "threading.Event", "threading.Lock", "asyncio.Queue",
    "multiprocessing.Event", "multiprocessing.Process", "multiprocessing.Queue", "concurrent.futures.ProcessPoolExecutor", "asyncio.wrap_future", "bytes", "io.StringIO", "io.BytesIO",
    "itertools.chain", "itertools.count", "copy.copy", "copy.deepcopy", "os.getcwd", "ord", "chr",
    "dataclasses.asdict", "dataclasses.replace", "abs", "round", "divmod", "os.fspath", "object", "map", "filter", "getattr", "slice",
    "concurrent.futures.ThreadPoolExecutor", "os.getpid", "datetime.datetime.now", "asyncio.get_event_loop", "asyncio.get_running_loop",
    "threading.Thread", "asyncio.Queue", "asyncio.Lock", "functools.partial", "collections.defaultdict", "collections.OrderedDict",
}
NORAISE_M = {
    "append", "extend", "add", "discard", "clear", "items", "keys", "values", "get", "setdefault", "update", "copy", "insert",
    "startswith", "endswith", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "join", "replace", "lower", "upper", "format", "encode",
    "hexdigest", "digest", "isspace", "isdigit", "isalpha", "isalnum", "isidentifier", "union", "difference", "intersection", "count", "find", "rfind", "title", "partition", "rpartition",
    "removeprefix", "removesuffix", "difference_update", "intersection_update", "is_set", "set", "done", "popleft", "appendleft", "sort", "reverse",
    "isnumeric", "isdecimal", "casefold", "zfill", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "is_alive",
}
NORETURN = ("sys.exit", "os._exit", "os.abort", "exit", "quit")
LOGGERS = ("loguru.logger", "logging.")
OSERR = "OSError+"
ANYEXC = "Exception+"


def exc_sub(proj, name, handler):
    """yes / no / maybe: is an exception of static type ``name`` caught by ``handler``?"""
    inexact = name.endswith("+")
    base = name.rstrip("+")
    alias = {"os.error": "OSError", "IOError": "OSError", "EnvironmentError": "OSError"}
    base = alias.get(base, base); handler = alias.get(handler, handler)
    if handler == "BaseException":
        return "yes"
    mb, mh = exc_mro(proj, base), exc_mro(proj, handler)
    if handler in mb:
        return "yes"
    if inexact and base in mh:
        return "maybe"
    if mb == [base] and not _builtin(base) or mh == [handler] and not _builtin(handler):
        # a library exception of unknown ancestry
        return "yes" if handler == "Exception" else "maybe" if (inexact or base == "Exception") else ("maybe" if not _builtin(base) else "no")
    return "no"


def _builtin(n):
    return isinstance(getattr(builtins, n, None), type)


def exc_mro(proj, name):
    if _builtin(name):
        return [c.__name__ for c in getattr(builtins, name).__mro__]
    if name in proj.classes:
        out = []
        for c in proj.mro(proj.classes[name]):
            out.append(c.qual)
            for b in c.node.bases:
                if isinstance(b, ast.Name) and _builtin(b.id):
                    out += [k.__name__ for k in getattr(builtins, b.id).__mro__]
        return out
    return [name]


class Ctx:
    __slots__ = ("id", "csid", "func", "ir", "depth", "kind", "data", "defcid", "chain", "exits", "excs", "cont", "sig")


class Interp:
    distinct = False      # keep bool(x) apart from x

    def __init__(self, proj, opaque=(), inline=None, max_depth=14, cap=40, max_states=400000, stop_ctx=None, frozen=()):
        self.p = proj
        self.opaque = set(opaque)
        self.inline_pred = inline
        self.max_depth = max_depth
        self.cap = cap
        self.max_states = max_states
        self.ctxs = []
        self.ctxkey = {}
        self.sigs = {}
        self.states = []
        self.sidx = {}
        self.succ = []
        self.edgeset = set()
        self.V = {}
        self.pathed = set()   # terms which were made pathlib paths
        self.rd = {}
        self.work = deque()
        self.inwork = set()
        self.parts_at = {}
        self.calls = {}       # sid -> list of (callee term, args, kws, entered)
        self.forced = set()
        self.stuck = set()
        self.retinfo = {}     # cid -> {retsid: flag}
        self.frozen = frozen
        self.fixed = {}
        self.symtype = {}     # sym name -> Class
        self.symann = {}
        self.lams = {}
        self.entries = []
        self.widened = 0
        self.gmemo = {}
        self.truncated = set()
        self.classattr = {}

    # ------------------------------------------------------------------ setup
    def entry(self, func, bind=None, self_cls=None, prefix=""):
        """Adds an entry point; parameters are symbols unless bound to a term set."""
        bind = bind or {}
        cid = self.new_ctx(("entry", func.qual, len(self.entries)), None, func, 0, "entry", None)
        c = self.ctxs[cid]
        a = func.node.args
        first = (a.posonlyargs + a.args)[:1] if func.cls is not None and not func.is_static else []
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in bind:
                vs = bind[x.arg]
            elif x in first and func.is_classmethod:
                vs = frozenset([mk("class", (self_cls or func.cls).qual)])
            else:
                s = mk("sym", prefix + x.arg)
                cls = self.p.annotation_class(x.annotation, func.module)
                if x in first:
                    cls = self_cls or func.cls
                if cls is not None:
                    self.symtype[s] = cls
                if x.annotation is not None:
                    self.symann[s] = (x.annotation, func.module)
                vs = frozenset([s])
            self.V[(cid, "p:" + x.arg)] = frozenset(vs)
        if a.vararg: self.V[(cid, "p:" + a.vararg.arg)] = frozenset([mk("sym", prefix + a.vararg.arg)])
        if a.kwarg: self.V[(cid, "p:" + a.kwarg.arg)] = frozenset([mk("sym", prefix + a.kwarg.arg)])
        sid = self.state(cid, c.ir.entry, ())
        self.entries.append((cid, sid))
        self.push(sid)
        return cid

    def new_ctx(self, key, csid, func, depth, kind, data, chain=()):
        cid = self.ctxkey.get(key)
        if cid is not None:
            return cid
        c = Ctx()
        c.id = len(self.ctxs); c.csid = csid; c.func = func; c.ir = ir_of(func); c.depth = depth; c.kind = kind; c.data = data
        c.defcid = None; c.chain = chain + (func.qual,); c.exits = set(); c.excs = set(); c.cont = None
        # objects are named by the call string, shared by all ways to reach it
        if csid is None:
            sk = key
        else:
            pcid, ppc, _ = self.states[csid]
            sk = (self.ctxs[pcid].sig, ppc, func.qual, kind)
        c.sig = self.sigs.setdefault(sk, len(self.sigs))
        prep(c.ir)
        self.ctxs.append(c)
        self.ctxkey[key] = c.id
        return c.id

    # ------------------------------------------------------------------ states
    def state(self, cid, pc, part):
        k = (cid, pc, part)
        s = self.sidx.get(k)
        if s is None:
            s = len(self.states)
            if s > self.max_states:
                raise AnalysisBroken("state limit reached while analysing %s" % self.ctxs[self.entries[0][0]].func.qual)
            self.sidx[k] = s
            self.states.append(k)
            self.succ.append([])
        return s

    def push(self, sid):
        if sid not in self.inwork:
            self.inwork.add(sid)
            self.work.append(sid)

    def edge(self, sid, cid, pc, part, label):
        """part: dict of flags."""
        c = self.ctxs[cid]
        n = c.ir.nodes[pc]
        keep = c.ir.keep[pc]
        items = tuple(sorted((k, v) for k, v in part.items() if k[0] == "!" or k in keep))
        pk = (cid, pc)
        seen = self.parts_at.setdefault(pk, set())
        if items not in seen:
            if len(seen) >= self.cap:
                self.widened += 1
                items = tuple(x for x in items if x[0][0] == "!")
            seen.add(items)
        t = self.state(cid, pc, items)
        e = (sid, t, label)
        if e not in self.edgeset:
            self.edgeset.add(e)
            self.succ[sid].append((t, label))
            self.push(t)
        return t

    def run(self):
        while True:
            while self.work:
                sid = self.work.pop()
                self.inwork.discard(sid)
                self.stuck.discard(sid)
                self.step(sid)
            todo = [s for s in self.stuck if s not in self.forced]
            if not todo:
                break
            for s in todo:
                self.forced.add(s)
                self.push(s)
        self.pred = [[] for _ in self.states]
        for s, ss in enumerate(self.succ):
            for (t, l) in ss:
                self.pred[t].append((s, l))
        return self

    # ------------------------------------------------------------------ values
    def get(self, key, sid):
        self.rd.setdefault(key, set()).add(sid)
        return self.V.get(key, EMPTY)

    def add(self, key, vals, star=False):
        if not vals:
            return
        old = self.V.get(key, EMPTY)
        if vals <= old or (ANY in old and len(old) == 1):
            return
        new = old | vals
        lim = KSTAR if star else K
        if len(new) > lim:
            new = frozenset([ANY])
        if new == old:
            return
        self.V[key] = new
        for s in self.rd.get(key, ()):
            self.push(s)

    def rv(self, sid, var):
        """Values of a variable or temporary at a state."""
        cid, pc, part = self.states[sid]
        c = self.ctxs[cid]
        ir = c.ir
        out = EMPTY
        for d in rdefs(ir, pc, var):
            out |= self.get((cid, d), sid)
        if part and out:
            for k, f in part:
                if k == var:
                    out = filt(out, f)
                    break
        return out

    def flag(self, sid, var):
        for k, f in self.states[sid][2]:
            if k == var:
                return f
        return None

    def where(self, sid):
        cid, pc, _ = self.states[sid]
        c = self.ctxs[cid]
        return self.p.loc(c.func, c.ir.nodes[pc].line)

    def node(self, sid):
        cid, pc, _ = self.states[sid]
        return self.ctxs[cid].ir.nodes[pc]

    def func(self, sid):
        return self.ctxs[self.states[sid][0]].func

    # ------------------------------------------------------------------ stepping
    def step(self, sid):
        cid, pc, part = self.states[sid]
        c = self.ctxs[cid]
        n = c.ir.nodes[pc]
        getattr(self, "x_" + n.op, self.x_default)(sid, cid, c, n, dict(part))

    def flow(self, sid, cid, n, part, label="", exc=None):
        """Normal successors; ``exc`` is the exception class that may also leave this node."""
        for (t, l) in n.succ:
            if l == "exc":
                if exc:
                    for x in (exc if isinstance(exc, (list, set, tuple)) else [exc]):
                        q = dict(part0(self.states[sid][2])); q["!"] = x
                        self.edge(sid, cid, t, q, "exc")
            else:
                self.edge(sid, cid, t, part, label)

    def setdst(self, sid, cid, n, part, vals, flag=None):
        if n.dst:
            self.add((cid, n.id), vals)
            part = dict(part)
            if flag is None:
                part.pop(n.dst, None)
            else:
                part[n.dst] = flag
        return part

    def x_default(self, sid, cid, c, n, part):
        if n.dst:
            part = self.setdst(sid, cid, n, part, frozenset([ANY]))
        self.flow(sid, cid, n, part)

    def x_entry(self, sid, cid, c, n, part): self.flow(sid, cid, n, part)
    x_nop = x_entry
    x_loophead = x_entry
    x_landing = x_entry
    x_del = x_entry

    def x_const(self, sid, cid, c, n, part):
        v = n.a["v"]
        f = "N" if v is None else ("T" if v is True else "F" if v is False else None)
        part = self.setdst(sid, cid, n, part, frozenset([const(v)]), f)
        self.flow(sid, cid, n, part)

    def x_load(self, sid, cid, c, n, part):
        name = n.a["name"]
        vals, f = self.load(sid, cid, c, name)
        part = self.setdst(sid, cid, n, part, vals, f)
        self.flow(sid, cid, n, part)

    def load(self, sid, cid, c, name):
        ir = c.ir
        if name in ir.locals:
            if name in ir.shared and any(True for _ in ()):
                pass
            return self.rv(sid, name), self.flag(sid, name)
        d = c
        while d.defcid is not None:
            d = self.ctxs[d.defcid]
            if name in d.ir.locals:
                out = EMPTY
                for x in d.ir.alldefs.get(name, ()):
                    out |= self.get((d.id, x), sid)
                return out, None
        return self.glob(c.func.module, name), None

    def glob(self, m, name):
        key = (m.name, name)
        if key in self.gmemo:
            return self.gmemo[key]
        r = self.p.resolve_name(m, name)
        if r is None:
            v = frozenset([mk("ext", name)]) if hasattr(builtins, name) else frozenset([ANY])
            self.gmemo[key] = v
            return v
        v = self.resolved(r)
        self.gmemo[key] = v
        return v

    def resolved(self, r):
        if r[0] == "mod": return frozenset([mk("mod", r[1])])
        if r[0] == "ext": return frozenset([const("/") if r[1] in ("os.sep", "os.path.sep") else mk("ext", r[1])])
        if r[0] == "func": return frozenset([mk("func", r[1])])
        if r[0] == "class": return frozenset([mk("class", r[1])])
        if r[0] == "var":
            m = self.p.modules[r[1]]
            key = ("var", r[1], r[2])
            if key in self.gmemo:
                return self.gmemo[key]
            self.gmemo[key] = frozenset([mk("global", r[1] + "." + r[2])])
            v = self.ceval(m.names[r[2]][1], m, ("g:" + r[1], r[2]))
            self.gmemo[key] = v
            return v
        return frozenset([ANY])

    def ceval(self, e, m, ident):
        """Value of a module-level or default expression."""
        if isinstance(e, ast.Constant):
            return frozenset([const(e.value)])
        if isinstance(e, ast.Name):
            return self.glob(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.p.resolve_expr(e, m)
            if r:
                return self.resolved(r)
            b = self.ceval(e.value, m, ident)
            out = EMPTY
            for t in b:
                out |= self.getattr_(None, t, e.attr)
            return out or frozenset([ANY])
        if isinstance(e, (ast.List, ast.Set)):
            o = mk("list", ident[0], "%s@%d.%d" % (ident[1], e.lineno, e.col_offset))
            for i, x in enumerate(e.elts):
                self.add((o, "*"), self.ceval(x, m, ident), True)
            self.V.setdefault((o, "*"), EMPTY)
            return frozenset([o])
        if isinstance(e, ast.Tuple):
            return frozenset([mk("tup", tuple(self.ceval(x, m, ident) for x in e.elts))])
        if isinstance(e, ast.Dict):
            o = mk("dict", ident[0], "%s@%d.%d" % (ident[1], e.lineno, e.col_offset))
            for k, v in zip(e.keys, e.values):
                if k is None:
                    continue
                kv, vv = self.ceval(k, m, ident), self.ceval(v, m, ident)
                self.setitem(o, kv, vv)
            return frozenset([o])
        if isinstance(e, ast.BinOp):
            l, r = self.ceval(e.left, m, ident), self.ceval(e.right, m, ident)
            return self.binop(None, type(e.op).__name__, l, r, ident)
        if isinstance(e, ast.JoinedStr):
            ps = []
            for v in e.values:
                ps.append(self.ceval(v if isinstance(v, ast.Constant) else v.value, m, ident))
            return frozenset(cat(x) for x in combos(ps))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return frozenset([const(-e.operand.value)])
        if isinstance(e, ast.Call):
            fn = ast.unparse(e.func)
            if fn in ("frozenset", "set", "list", "tuple", "dict") and len(e.args) == 1:
                return self.ceval(e.args[0], m, ident)
            if fn.split(".")[-1] == "join" and fn.startswith("os.path"):
                return frozenset(_joinall(x) for x in combos([self.ceval(a, m, ident) for a in e.args]))
            f = self.ceval(e.func, m, ident)
            args = [self.ceval(a, m, ident) for a in e.args]
            kws = {k.arg: self.ceval(k.value, m, ident) for k in e.keywords if k.arg}
            for t in f:
                if t.k == "class":
                    cls = self.p.classes[t.a[0]]
                    if self.p.find_method(cls, "__init__") is None:
                        o = mk("obj", cls.qual, ident[0], "%s@%d.%d" % (ident[1], e.lineno, e.col_offset))
                        self.fill_fields(cls, o, args, kws, m)
                        return frozenset([o])
        return frozenset([mk("global", "%s.%s@%s" % (ident[0], ident[1], getattr(e, "lineno", 0)))])

    def x_store(self, sid, cid, c, n, part):
        src = n.a["src"]
        vals = self.rv(sid, src)
        ann = n.a.get("ann")
        if ann is not None:
            for t in vals:
                if t.k in ("call", "result", "item", "elem", "attr", "key", "val", "meth") and self.ann_of(t) is None:
                    self.symann.setdefault(t, (ann, c.func.module))
        f = self.flag(sid, src)
        part = self.setdst(sid, cid, n, part, vals, f)
        if n.dst in c.ir.shared:
            pass
        self.flow(sid, cid, n, part)

    def x_import(self, sid, cid, c, n, part):
        nm = n.a["mod"]
        t = mk("mod", nm) if nm.split(".")[0] == self.p.package else mk("ext", nm)
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset([t])))

    def x_importfrom(self, sid, cid, c, n, part):
        base = self.p.resolve_from(c.func.module, n.a["node"])
        r = self.p.resolve_attr(("mod", base), n.a["name"])
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, self.resolved(r) if r else frozenset([mk("ext", base + "." + n.a["name"])])))

    # -- attributes
    def typeof(self, t):
        if t.k in ("obj",):
            return self.p.classes.get(t.a[0])
        if t in self.symtype:
            return self.symtype[t]
        an = self.ann_of(t)
        if an:
            cls = self.p.annotation_class(an[0], an[1])
            if cls is not None:
                self.symtype[t] = cls
            return cls
        return None

    def ann_of(self, t, d=0):
        if d > 12:
            return None
        if t in self.symann:
            return self.symann[t]
        r = None
        if t.k == "attr":
            b = self.typeof(t.a[0])
            if b is not None:
                r = self.p.field_annotation(b, t.a[1])
        elif t.k in ("elem", "val", "item", "key"):
            b = self.ann_of(t.a[0], d + 1)
            if b:
                e = self.p.elem_annotation(b[0], b[1])
                if e:
                    x = e[1] if (t.k in ("val", "item")) else (e[0] if (t.k == "key" or e[0] is not None) else e[1])
                    if x is not None:
                        r = (x, b[1])
        elif t.k == "call" and t.a[0] in self.p.funcs:
            f = self.p.funcs[t.a[0]]
            if getattr(f.node, "returns", None) is not None:
                r = (f.node.returns, f.module)
        elif t.k == "result" and t.a[0].k == "future" and t.a[0].a[0].k == "func":
            f = self.p.funcs.get(t.a[0].a[0].a[0])
            if f is not None and f.node.returns is not None:
                r = (f.node.returns, f.module)
        if r is not None:
            self.symann[t] = r
        return r

    def getattr_(self, sid, t, name):
        """Values of attribute ``name`` of term ``t`` (no property inlining)."""
        k = t.k
        if t is NONE:
            return EMPTY
        if self.fixed and k in ("sym", "attr") and t in self.symtype and (self.symtype[t].name, name) in self.fixed:
            return self.fixed[(self.symtype[t].name, name)]
        if k == "mod":
            r = self.p.resolve_attr(("mod", t.a[0]), name)
            return self.resolved(r) if r else frozenset([ANY])
        if k == "ext":
            if name in ("sep", "altsep") and t.a[0] in ("os", "os.path"):
                return frozenset([const("/")])
            return frozenset([mk("ext", t.a[0] + "." + name)])
        if k == "class":
            cls = self.p.classes[t.a[0]]
            m = self.p.find_method(cls, name)
            if m is not None:
                return frozenset([mk("bound", t, m.qual) if m.is_classmethod else mk("func", m.qual)])
            for kk in self.p.mro(cls):
                if name in kk.consts:
                    if any("Enum" in ast.unparse(b) for x in self.p.mro(cls) for b in x.node.bases):
                        return frozenset([mk("enum", kk.qual, name)])
                    return self.ceval(kk.consts[name], kk.module, (kk.qual, name))
            return frozenset([mk("attr", t, name)])
        if k == "super":
            cls = self.p.classes[t.a[1]]
            for b in self.p.mro(cls)[1:]:
                if name in b.methods:
                    return frozenset([mk("bound", t.a[0], b.methods[name].qual)])
            return frozenset([mk("ext", "object." + name)])
        if k == "any":
            return frozenset([mk("attr", t, name)])
        cls = self.typeof(t)
        if cls is not None:
            m = self.p.find_method(cls, name)
            if m is not None and not (m.is_stub and k != "obj"):
                if m.is_static:
                    return frozenset([mk("func", m.qual)])
                if m.is_classmethod:
                    return frozenset([mk("bound", mk("class", cls.qual), m.qual)])
                return frozenset([mk("bound", t, m.qual)])
            for kk in self.p.mro(cls):
                if name in kk.consts:
                    return self.ceval(kk.consts[name], kk.module, (kk.qual, name))
        st = self.get((t, name), sid) if sid is not None else self.V.get((t, name), EMPTY)
        if k == "repl":
            return st or self.getattr_(sid, t.a[0], name)
        if k == "obj":
            return st
        if k == "enum" and name == "value":
            return frozenset([t])
        if k == "fileobj":
            return frozenset([mk("attr", t, name)])
        if t in self.pathed:
            if name == "parent":
                r = dirname(t); self.pathed.add(r)
                return frozenset([r])
            if name == "name":
                return frozenset([basename(t)])
            if name in ("suffix", "stem"):
                return frozenset([splitext(basename(t))[name == "suffix"]])
        return st | frozenset([mk("attr", t, name)])

    def x_attr(self, sid, cid, c, n, part):
        obj = self.rv(sid, n.a["obj"])
        name = n.a["name"]
        out = set()
        entered = False
        for t in obj:
            cls = self.typeof(t) if t.k in ("obj", "sym", "attr", "elem", "item", "key", "val", "call", "result", "fresh") else None
            if cls is not None:
                m = self.p.find_method(cls, name)
                if m is not None and m.is_property:
                    if self.can_inline(c, m):
                        self.enter(sid, cid, c, n, m, [("self", frozenset([t]))], part, "attr")
                        entered = True
                    else:
                        out.add(mk("call", m.qual, t))
                    continue
            out |= self.getattr_(sid, t, name)
        if out or not entered:
            part = self.setdst(sid, cid, n, part, frozenset(out))
            self.flow(sid, cid, n, part)

    def x_setattr(self, sid, cid, c, n, part):
        obj = self.rv(sid, n.a["obj"])
        src = self.rv(sid, n.a["src"])
        for t in obj:
            if self.frozen and self.isfrozen(t):
                continue
            self.add((t, n.a["name"]), src, True)
        self.flow(sid, cid, n, part)

    # -- containers
    def elems(self, sid, vals):
        out = set()
        for t in vals:
            k = t.k
            if k in ("list", "set"):
                out |= self.get((t, "*"), sid)
            elif k == "dict":
                out |= self.get((t, "*k"), sid)
            elif k == "tup":
                for s in t.a[0]:
                    out |= s
            elif isstr(t):
                out.add(mk("elem", t))
            elif k == "const":
                continue
            elif k == "any":
                out.add(ANY)
            else:
                st = self.get((t, "*"), sid)
                out |= st
                out.add(mk("elem", t))
        return frozenset(out)

    def isfrozen(self, t):
        while t.k in ("attr", "elem", "item", "key", "val", "call"):
            if t.k == "call":
                if len(t.a) < 2 or not isinstance(t.a[1], T):
                    return False
                t = t.a[1]
            else:
                t = t.a[0]
        return t.k == "sym" and t.a[0] in self.frozen

    def setitem(self, o, keys, vals):
        if self.frozen and self.isfrozen(o):
            return
        for kt in keys:
            if kt.k in ("const", "enum"):
                self.add((o, "[" + repr(kt.a[-1])), vals, True)
            else:
                self.add((o, "~"), vals, True)
        self.add((o, "*k"), keys, True)
        self.add((o, "*v"), vals, True)

    def getitem(self, sid, t, keys):
        k = t.k
        out = set()
        if k == "tup":
            for kt in keys:
                if isconst(kt, "int") and -len(t.a[0]) <= cval(kt) < len(t.a[0]):
                    out |= t.a[0][cval(kt)]
                else:
                    for s in t.a[0]:
                        out |= s
            return out
        if k in ("list", "set"):
            return set(self.get((t, "*"), sid))
        if k == "dict":
            for kt in keys:
                if kt.k in ("const", "enum"):
                    out |= self.get((t, "[" + repr(kt.a[-1])), sid) | self.get((t, "~"), sid)
                else:
                    out |= self.get((t, "*v"), sid)
            return out
        if k == "any":
            return {ANY}
        if isstr(t):
            return {mk("elem", t)}
        st = set(self.get((t, "*v"), sid)) | set(self.get((t, "*"), sid))
        for kt in keys:
            if kt.k in ("key",) and kt.a[0] is t:
                st.add(mk("val", t))
            else:
                st.add(mk("item", t, kt))
        return st

    def x_sub(self, sid, cid, c, n, part):
        obj = self.rv(sid, n.a["obj"]); idx = self.rv(sid, n.a["idx"])
        out = set()
        for t in obj:
            out |= self.getitem(sid, t, idx)
        part = self.setdst(sid, cid, n, part, frozenset(out))
        exc = None
        if not all(t.k in ("tup",) for t in obj) and self.catches(n, c.ir, ("KeyError", "IndexError", "LookupError")):
            exc = "LookupError+"
        self.flow(sid, cid, n, part, exc=exc)

    def catches(self, n, ir, names):
        """Subscript failures matter only where a handler waits for them."""
        for (t, l) in n.succ:
            if l == "exc":
                d = ir.nodes[t]
                if d.op == "dispatch":
                    for ty in d.a["types"]:
                        if ty is None:
                            return True
                        for x in ty:
                            if ast.unparse(x) in names + ("Exception", "BaseException", "ValueError", "TypeError"):
                                return True
        return False

    def x_setsub(self, sid, cid, c, n, part):
        obj = self.rv(sid, n.a["obj"]); idx = self.rv(sid, n.a["idx"]); src = self.rv(sid, n.a["src"])
        for t in obj:
            if t.k in ("list", "set"):
                self.add((t, "*"), src, True)
            else:
                self.setitem(t, idx, src)
        self.flow(sid, cid, n, part)

    def x_delsub(self, sid, cid, c, n, part):
        self.rv(sid, n.a["obj"]); self.rv(sid, n.a["idx"])
        exc = "LookupError+" if self.catches(n, c.ir, ("KeyError", "IndexError", "LookupError")) else None
        self.flow(sid, cid, n, part, exc=exc)

    def x_slice(self, sid, cid, c, n, part):
        obj = self.rv(sid, n.a["obj"])
        lo = self.rv(sid, n.a["lo"]) if n.a["lo"] else frozenset([NONE])
        hi = self.rv(sid, n.a["hi"]) if n.a["hi"] else frozenset([NONE])
        out = set()
        l0 = next(iter(lo)) if len(lo) == 1 else None
        h0 = next(iter(hi)) if len(hi) == 1 else None
        for t in obj:
            if t is NONE:
                continue
            if t.k == "list":
                whole = l0 is NONE and h0 is NONE and n.a["step"] is None
                o = mk("list", self.ctxs[cid].sig, ("c%d" if whole else "s%d") % n.id)
                self.add((o, "*"), self.get((t, "*"), sid), True)
                out.add(o)
                continue
            for (l, h) in combos([lo, hi]):
                if t.k == "tup" and l.k == "const" and h.k == "const" and all(cval(x) is None or isinstance(cval(x), int) for x in (l, h)):
                    out.add(mk("tup", t.a[0][cval(l):cval(h)]))
                elif isstr(t) and l.k == "const" and h.k == "const" and n.a["step"] is None:
                    out.add(const(cval(t)[cval(l):cval(h)]))
                elif l is NONE and h is NONE and n.a["step"] is None:
                    out.add(t)
                else:
                    out.add(slice_(t, l, h))
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out)))

    def x_unpack(self, sid, cid, c, n, part):
        src = self.rv(sid, n.a["src"])
        i, m = n.a["i"], n.a["n"]
        out = set()
        for t in src:
            if t.k == "tup":
                if i < len(t.a[0]):
                    out |= t.a[0][i]
            elif t.k in ("list", "set"):
                out |= self.get((t, "*"), sid)
            elif t.k == "any":
                out.add(ANY)
            elif t is NONE:
                continue
            else:
                out |= self.getitem(sid, t, frozenset([const(i)]))
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out)))

    def x_unpack_star(self, sid, cid, c, n, part):
        o = mk("list", self.ctxs[cid].sig, n.id)
        self.add((o, "*"), self.elems(sid, self.rv(sid, n.a["src"])), True)
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset([o])))

    def x_build(self, sid, cid, c, n, part):
        kind = n.a["kind"]
        if kind == "tuple" and not any(isinstance(p, tuple) for p in n.a["parts"]):
            t = mk("tup", tuple(self.rv(sid, p) for p in n.a["parts"]))
            if t.k == "tup" and n.a["parts"] and any(not s for s in t.a[0]):
                # wait for the parts
                self.flow(sid, cid, n, self.setdst(sid, cid, n, part, EMPTY))
                return
            self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset([t])))
            return
        o = mk("dict" if kind == "dict" else "set" if kind == "set" else "list", self.ctxs[cid].sig, n.id)
        for p in n.a["parts"]:
            if isinstance(p, tuple):
                self.add((o, "*"), self.elems(sid, self.rv(sid, p[1])), True)
            else:
                self.add((o, "*"), self.rv(sid, p), True)
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset([o])))

    def x_builddict(self, sid, cid, c, n, part):
        o = mk("dict", self.ctxs[cid].sig, n.id)
        for k, v in n.a["items"]:
            if k is None:
                self.merge(sid, o, self.rv(sid, v))
            else:
                self.setitem(o, self.rv(sid, k), self.rv(sid, v))
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset([o])))

    def merge(self, sid, o, vals):
        """dict.update"""
        for t in vals:
            if t.k == "dict":
                for key in [k for k in list(self.V) if k[0] is t and isinstance(k[1], str)]:
                    self.add((o, key[1]), self.get(key, sid), True)
                self.add((o, "*k"), self.get((t, "*k"), sid), True)
                self.add((o, "*v"), self.get((t, "*v"), sid), True)
                self.add((o, "~"), self.get((t, "~"), sid), True)
            else:
                self.add((o, "*k"), frozenset([mk("key", t)]), True)
                self.add((o, "*v"), frozenset([mk("val", t)]), True)
                self.add((o, "~"), frozenset([mk("val", t)]), True)

    def x_accadd(self, sid, cid, c, n, part):
        for o in self.rv(sid, n.a["obj"]):
            self.add((o, "*"), self.rv(sid, n.a["src"]), True)
        self.flow(sid, cid, n, part)

    def x_next(self, sid, cid, c, n, part):
        it = self.rv(sid, n.a["it"])
        el = self.elems(sid, it)
        ended = it and all(t.k in ("list", "set", "dict") or (t.k == "tup" and t.a[0] == ()) for t in it)
        for (t, l) in n.succ:
            if l == "exc":
                if any(x.k == "call" for x in it) and False:
                    pass
                continue
            if l == "item":
                if el or not ended:
                    if not el:
                        if sid not in self.forced:
                            self.stuck.add(sid)
                            continue
                        el = frozenset([ANY])
                    q = self.setdst(sid, cid, n, part, el)
                    self.edge(sid, cid, t, q, "item")
            else:
                # a literal, never emptied sequence is entered at least once only if the loop ran; keep both
                self.edge(sid, cid, t, part, "done")

    # -- operators
    def binop(self, sid, op, l, r, site):
        out = set()
        for a, b in combos([l, r]):
            if a is NONE or b is NONE:
                continue
            if op == "Add":
                if a.k in ("list", "set") or b.k in ("list", "set"):
                    o = mk("list", site[0], "b%s" % (site[1],))
                    self.add((o, "*"), self.elems(sid, frozenset([a, b])) if sid is not None else self.V.get((a, "*"), EMPTY) | self.V.get((b, "*"), EMPTY), True)
                    out.add(o)
                    continue
                if a.k == "tup" and b.k == "tup":
                    out.add(mk("tup", a.a[0] + b.a[0])); continue
                if a.k == "const" and b.k == "const":
                    try:
                        out.add(const(cval(a) + cval(b)))
                    except TypeError:
                        out.add(ANY)
                    continue
                if isstr(a) or isstr(b) or a.k == "cat" or b.k == "cat":
                    out.add(cat([a, b])); continue
                out.add(mk("bin", op, a, b)); continue
            if op == "Div" and (a.k in ("cat",) or isstr(a) or isstr(b) or a in self.pathed or b in self.pathed):
                t = pjoin(a, b)
                self.pathed.add(t)
                out.add(t); continue
            if op in ("Sub", "BitOr", "BitAnd", "BitXor") and (a.k in ("set", "dict", "list") or b.k in ("set", "dict", "list")):
                o = mk("set", site[0], "b%s" % (site[1],))
                src = self.elems(sid, frozenset([a])) if op in ("Sub", "BitAnd") else self.elems(sid, frozenset([a, b]))
                self.add((o, "*"), src, True)
                out.add(o); continue
            if a.k == "const" and b.k == "const":
                v = fold(op, cval(a), cval(b))
                if v is not None:
                    out.add(const(v)); continue
            if op == "Mod" and isstr(a):
                out.add(percent(a, b)); continue
            if op in ("Mult", "BitAnd", "BitOr") and b.k == "const" and a.k != "const" and op == "Mult":
                a, b = a, b
            out.add(mk("bin", op, a, b))
        return frozenset(out)

    def x_bin(self, sid, cid, c, n, part):
        v = self.binop(sid, n.a["op"], self.rv(sid, n.a["l"]), self.rv(sid, n.a["r"]), (cid, n.id))
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, v))

    def x_augop(self, sid, cid, c, n, part):
        l, r = self.rv(sid, n.a["l"]), self.rv(sid, n.a["r"])
        out = set()
        lists = frozenset(t for t in l if t.k in ("list", "set", "dict"))
        for t in lists:
            if n.a["op"] in ("Add", "BitOr"):
                if t.k == "dict":
                    self.merge(sid, t, r)
                else:
                    self.add((t, "*"), self.elems(sid, r), True)
            out.add(t)
        rest = l - lists
        if rest:
            rr = frozenset(t for t in r if t.k not in ("list",)) if lists else r
            symlists = set()
            for t in rest:
                if any(x.k in ("list", "set") for x in r) and n.a["op"] in ("Add", "BitOr"):
                    self.add((t, "*"), self.elems(sid, r), True)
                    symlists.add(t); out.add(t)
            rest = rest - symlists
            if rest:
                out |= self.binop(sid, n.a["op"], frozenset(rest), rr, (cid, n.id))
        if n.a["op"] in ("Add", "Sub") and any(t.k == "const" and isinstance(cval(t), (int, float)) for t in r):
            out = {t for t in out if not (t.k in ("bin", "count") or t.k == "const" and isinstance(cval(t), (int, float)))} | {mk("count", self.ctxs[cid].sig, n.id)}
        if len(out) > K or (any(t.k in ("cat", "bin") and t.sz > 24 for t in out)):
            out = {t for t in out if t.k in ("list", "set", "dict")} | {ANY}
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out)))

    def x_unop(self, sid, cid, c, n, part):
        v = self.rv(sid, n.a["v"])
        f = self.flag(sid, n.a["v"])
        if n.a["op"] == "Not":
            nf = {"T": "F", "F": "T", "N": "T", "Z": "T"}.get(f)
            out = set()
            for t in v:
                b = truth(t)
                out.add(const(not b) if b is not None else neg(t))
            if nf:
                out = {const(nf == "T")}
            self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out), nf))
            return
        out = set()
        for t in v:
            if t.k == "const" and n.a["op"] == "USub" and isinstance(cval(t), (int, float)):
                out.add(const(-cval(t)))
            else:
                out.add(mk("un", n.a["op"], t))
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out)))

    def x_cmp(self, sid, cid, c, n, part):
        op = n.a["op"]
        l, r = self.rv(sid, n.a["l"]), self.rv(sid, n.a["r"])
        out = set()
        f = None
        lf, rf = self.flag(sid, n.a["l"]), self.flag(sid, n.a["r"])
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            same = None
            if lf and rf and r and l:
                cr = list(r)
                if len(cr) == 1 and cr[0] is NONE:
                    same = {"N": True, "T": False, "F": False, "S": False}.get(lf)
                elif len(cr) == 1 and cr[0] is TRUE:
                    same = {"N": False, "F": False}.get(lf)
                    if lf == "T" and l == frozenset([TRUE]): same = True
                elif len(cr) == 1 and cr[0] is FALSE:
                    same = {"N": False, "T": False}.get(lf)
                    if lf == "F" and l <= {FALSE}: same = True
            if same is not None:
                f = "T" if same == (op in ("Is", "Eq")) else "F"
        for a, b in combos([l, r]):
            out.add(self.cmp_(sid, op, a, b))
        vals = frozenset(out)
        if f:
            vals = frozenset([const(f == "T")])
        elif vals == frozenset([TRUE]):
            pass
        part = self.setdst(sid, cid, n, part, vals, f)
        self.flow(sid, cid, n, part)

    def cmp_(self, sid, op, a, b):
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            same = None
            if a.k == "const" and b.k == "const":
                same = a is b or (op in ("Eq", "NotEq") and cval(a) == cval(b))
            elif a.k == "enum" and b.k == "enum":
                same = a is b
            elif (a is NONE and nonnull(b)) or (b is NONE and nonnull(a)):
                same = False
            elif a is b and a.k in ("func", "class", "mod"):
                same = True
            if same is not None:
                return const(same == (op in ("Is", "Eq")))
            return mk("cmp", op, a, b)
        if op in ("In", "NotIn"):
            if b.k == "tup":
                els = set()
                for s in b.a[0]:
                    els |= s
                if els and a.k in ("const", "enum") and all(x.k in ("const", "enum") for x in els):
                    return const((a in els) == (op == "In"))
            if b.k in ("list", "set") and isinstance(b.a[0], str):
                els = self.V.get((b, "*"), EMPTY)
                if els and a.k in ("const", "enum") and all(x.k in ("const", "enum") for x in els):
                    return const((a in els) == (op == "In"))
            if b.k == "dict" and isinstance(b.a[0], str) and b.a[0].startswith("g:") and a.k in ("const", "enum"):
                els = self.V.get((b, "*k"), EMPTY)
                if els and all(x.k in ("const", "enum") for x in els):
                    return const((a in els) == (op == "In"))
            if isstr(a) and isstr(b):
                return const((cval(a) in cval(b)) == (op == "In"))
            if b.k == "tup" and b.a[0] and all(len(s) == 1 for s in b.a[0]):
                return mk("cmp", op, a, b)
            return mk("cmp", op, a, b)
        if a.k == "const" and b.k == "const":
            try:
                x, y = cval(a), cval(b)
                return const({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
            except Exception:
                return mk("cmp", op, a, b)
        return mk("cmp", op, a, b)

    def x_concat(self, sid, cid, c, n, part):
        ps = [self.rv(sid, p) for p in n.a["parts"]]
        v = frozenset(cat(x) for x in combos(ps)) if all(ps) else EMPTY
        if not n.a["parts"]:
            v = frozenset([const("")])
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, v))

    def x_fmt(self, sid, cid, c, n, part):
        v = frozenset(mk("call", "format", t) for t in self.rv(sid, n.a["v"]))
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, v))

    def x_branch(self, sid, cid, c, n, part):
        t = n.a["c"]
        f = part.get(t)
        v = self.rv(sid, t)
        go = {"T": "T", "F": "F", "N": "F", "Z": "F"}.get(f)
        both = False
        if go is None:
            if not v:
                if sid not in self.forced:
                    self.stuck.add(sid)
                    return
                both = True
            else:
                bs = {truth(x) for x in v}
                if bs == {True}: go = "T"
                elif bs == {False}: go = "F"
                else: both = True
        for (tgt, l) in n.succ:
            if both or l == go:
                q = dict(part)
                self.refine(c.ir, q, t, l == "T", n.id)
                self.edge(sid, cid, tgt, q, l)

    def refine(self, ir, q, t, val, pc, depth=0):
        """Learn from temp t being truthy/falsy."""
        if depth > 6:
            return
        cur = q.get(t)
        if val:
            q[t] = "T"
        elif cur not in ("F", "N"):
            q[t] = "F" if cur == "S" else "Z"
        d = ir.single.get(t)
        if d is None:
            return
        dn = ir.nodes[d]
        if dn.op == "load":
            self.refine_var(ir, q, dn.a["name"], d, pc, val, depth)
        elif dn.op == "store":
            self.refine_var(ir, q, dn.a["src"], d, pc, val, depth)
        elif dn.op == "unop" and dn.a["op"] == "Not":
            self.refine(ir, q, dn.a["v"], not val, pc, depth + 1)
        elif dn.op == "cmp" and dn.a["op"] in ("Is", "IsNot", "Eq", "NotEq"):
            r = ir.single.get(dn.a["r"])
            if r is not None and ir.nodes[r].op == "const" and ir.nodes[r].a["v"] is None:
                isnone = val == (dn.a["op"] in ("Is", "Eq"))
                self.refine_none(ir, q, dn.a["l"], isnone, depth + 1, pc)

    def refine_var(self, ir, q, name, d, pc, val, depth):
        if name in ir.locals and not redefined(ir, d, pc, name):
            if name in mutated(ir) and not name.startswith("%"):
                if val and q.get(name) not in ("T", "F"):
                    q[name] = "S"
                return
            self.refine(ir, q, name, val, pc, depth + 1)

    def refine_none(self, ir, q, t, isnone, depth, pc):
        if depth > 6:
            return
        if isnone:
            q[t] = "N"
        else:
            cur = q.get(t)
            q[t] = {"Z": "F", "T": "T", "F": "F"}.get(cur, "S")
        d = ir.single.get(t)
        if d is not None:
            dn = ir.nodes[d]
            if dn.op == "load" and dn.a["name"] in ir.locals and not redefined(ir, d, pc, dn.a["name"]):
                self.refine_none(ir, q, dn.a["name"], isnone, depth + 1, pc)
            elif dn.op == "store" and dn.a["src"] in ir.single:
                self.refine_none(ir, q, dn.a["src"], isnone, depth + 1, pc)

    # -- exceptions
    def x_raise(self, sid, cid, c, n, part):
        names = set()
        if n.a.get("assert"):
            names.add("AssertionError")
        elif n.a["exc"] is None:
            names.add(part.get("!h", ANYEXC))
        else:
            for t in self.rv(sid, n.a["exc"]):
                if t.k == "obj": names.add(t.a[0])
                elif t.k == "class": names.add(t.a[0])
                elif t.k == "ext": names.add(t.a[0])
                elif t.k == "exc": names.add(t.a[0])
                elif t.k == "call": names.add(t.a[0] if (_builtin(t.a[0]) or "." in t.a[0]) else ANYEXC)
                else: names.add(ANYEXC)
        for (t, l) in n.succ:
            if l == "exc":
                for x in names:
                    q = dict(part); q["!"] = x
                    self.edge(sid, cid, t, q, "exc")

    def x_resume(self, sid, cid, c, n, part):
        for (t, l) in n.succ:
            q = dict(part)
            q.setdefault("!", ANYEXC)
            self.edge(sid, cid, t, q, "exc")

    def x_dispatch(self, sid, cid, c, n, part):
        exc = part.get("!", ANYEXC)
        done = False
        for i, types in enumerate(n.a["types"]):
            hit = "no"
            if types is None:
                hit = "yes"
            else:
                for ty in types:
                    nm = self.exc_name(ty, c.func.module)
                    h = exc_sub(self.p, exc, nm)
                    if h == "yes": hit = "yes"
                    elif h == "maybe" and hit == "no": hit = "maybe"
            if hit != "no":
                tgt = [t for (t, l) in n.succ if l == ("h", i)][0]
                q = dict(part)
                self.edge(sid, cid, tgt, q, "caught")
            if hit == "yes":
                done = True
                break
        if not done:
            for (t, l) in n.succ:
                if l == "exc":
                    self.edge(sid, cid, t, part, "exc")

    def exc_name(self, ty, m):
        r = self.p.resolve_expr(ty, m)
        if r and r[0] in ("class", "ext"):
            return r[1]
        return ast.unparse(ty)

    def x_handler(self, sid, cid, c, n, part):
        exc = part.pop("!", ANYEXC)
        if c.ir.bare_raise:
            part["!h"] = exc
        if n.dst:
            part = self.setdst(sid, cid, n, part, frozenset([mk("exc", exc)]), "T")
        self.flow(sid, cid, n, part)

    def x_excexit(self, sid, cid, c, n, part):
        exc = part.get("!", ANYEXC)
        if c.csid is None:
            return
        ccid, cpc, cpart = self.states[c.csid]
        cn = self.ctxs[ccid].ir.nodes[cpc]
        if c.kind in ("genbody",):
            pass
        for (t, l) in cn.succ:
            if l == "exc":
                q = dict(cpart); q["!"] = exc
                self.edge(sid, ccid, t, q, "excret")

    def x_exit(self, sid, cid, c, n, part):
        pass

    def x_ret(self, sid, cid, c, n, part):
        v = self.rv(sid, n.a["src"])
        f = self.flag(sid, n.a["src"])
        if c.func.is_gen:
            o = mk("list", self.ctxs[cid].sig, "gen")
            self.add((o, "return"), v)
            v = frozenset([o]); f = None
        rets = getattr(c.func.node, "returns", None)
        if rets is not None and not c.func.is_gen:
            for t in v:
                if t.k in ("attr", "call", "item", "elem", "fresh", "val", "result") and self.ann_of(t) is None:
                    self.symann[t] = (rets, c.func.module)
        self.add((cid, "ret"), v, True)
        if c.csid is None:
            self.flow(sid, cid, n, part)
            return
        ccid, cpc, cpart = self.states[c.csid]
        cc = self.ctxs[ccid]
        cn = cc.ir.nodes[cpc]
        q = dict(cpart)
        if c.kind == "ctor":
            v = frozenset([c.data]); f = None
        elif c.kind == "map":
            self.add((c.data, "*"), v, True)
            v = frozenset([c.data]); f = None
        if cn.op == "next":
            # handled specially (not used)
            pass
        if cn.dst:
            self.add((ccid, cn.id), v)
            q.pop(cn.dst, None)
            if f:
                q[cn.dst] = f
        for (t, l) in cn.succ:
            if l != "exc":
                self.edge(sid, ccid, t, q, "ret")

    # -- misc
    def x_closure(self, sid, cid, c, n, part):
        node = n.a["node"]
        if n.a["name"] == "<lambda>":
            q = "%s.<lambda>@%d.%d" % (c.func.qual, node.lineno, node.col_offset)
            if q not in self.lams:
                self.lams[q] = Func(q, node, c.func.module, c.func.cls, c.func)
        else:
            q = c.func.qual + ".<locals>." + n.a["name"]
            if q not in self.p.funcs:
                self.lams.setdefault(q, Func(q, node, c.func.module, c.func.cls, c.func))
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset([mk("closure", q, cid)])))

    def x_await(self, sid, cid, c, n, part):
        v = self.rv(sid, n.a["v"])
        out = set()
        exc = None
        f = self.flag(sid, n.a["v"])
        for t in v:
            if t.k in ("future", "task"):
                out.add(mk("result", t)); exc = ANYEXC
            elif t.k in ("call", "any", "meth"):
                out.add(t); exc = ANYEXC
            else:
                out.add(t)
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out), f), exc=exc)

    def x_yield(self, sid, cid, c, n, part):
        o = mk("list", self.ctxs[cid].sig, "gen")
        self.add((o, "*"), self.rv(sid, n.a["v"]), True)
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset([mk("sent", self.ctxs[cid].sig, n.id)])))

    def x_yieldfrom(self, sid, cid, c, n, part):
        o = mk("list", self.ctxs[cid].sig, "gen")
        v = self.rv(sid, n.a["v"])
        self.add((o, "*"), self.elems(sid, v), True)
        out = set()
        for t in v:
            if t.k == "list" and t.a[-1] == "gen":
                self.rd.setdefault((t, "return"), set()).add(sid)
                out |= self.V.get((t, "return"), EMPTY)
            else:
                out.add(ANY)
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out)))

    def x_with_enter(self, sid, cid, c, n, part):
        v = self.rv(sid, n.a["ctx"])
        out = set()
        for t in v:
            if t.k in ("file", "list", "obj", "any"):
                out.add(t)
            else:
                out.add(t)
        exc = None
        if any(t.k not in ("file",) for t in v):
            exc = None
        self.flow(sid, cid, n, self.setdst(sid, cid, n, part, frozenset(out)), exc=exc)

    def x_with_exit(self, sid, cid, c, n, part):
        self.rv(sid, n.a["ctx"])
        v = self.rv(sid, n.a["ctx"])
        if any(t.k == "call" and t.a[0] == "contextlib.suppress" for t in v) and "!" in part:
            pass
        self.flow(sid, cid, n, part)

    # ------------------------------------------------------------------ calls
    def can_inline(self, c, f):
        if f.is_stub:
            return False
        if f.qual in self.opaque or c.depth >= self.max_depth or f.qual in c.chain:
            if f.qual not in self.opaque:
                self.truncated.add(f.qual)
            return False
        if self.inline_pred is not None and not self.inline_pred(f):
            return False
        return True

    def enter(self, sid, cid, c, n, f, binds, part, kind="call", data=None, defcid=None, rest=None):
        ncid = self.new_ctx((sid, f.qual, kind), sid, f, c.depth + 1, kind, data, c.chain)
        nc = self.ctxs[ncid]
        nc.defcid = defcid
        a = f.node.args
        allp = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        given = {}
        extra = []
        pi = 0
        for nm, v in binds:
            if nm is None:
                if pi < len(allp):
                    given[allp[pi]] = v; pi += 1
                else:
                    extra.append(v)
            else:
                if nm in allp and pi < len(allp) and allp[pi] == nm:
                    pi += 1
                given[nm] = v
        newpart = {}
        defaults = {}
        for x, d in zip(reversed(allp), reversed(a.defaults)):
            defaults[x] = d
        for x, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[x] = d
        kwextra = {k: v for k, v in given.items() if k not in allp and k not in kwonly}
        for p in allp + kwonly:
            if p in given:
                vs = given[p]
            elif rest is not None:
                vs = rest
            elif p in defaults:
                vs = self.ceval(defaults[p], f.module, (f.qual, p))
                if any(t.k in ("list", "dict") for t in vs):
                    pass
            else:
                vs = frozenset([ANY])
            self.add((ncid, "p:" + p), vs)
            if p in nc.ir.keepvars and len(vs) == 1:
                t = next(iter(vs))
                if t is NONE: newpart[p] = "N"
                elif t is TRUE: newpart[p] = "T"
                elif t is FALSE: newpart[p] = "F"
        if a.vararg:
            if rest is None:
                o = mk("tup", tuple(extra))
            else:
                o = mk("list", self.ctxs[ncid].sig, "va")
                for v in extra:
                    self.add((o, "*"), v, True)
            self.add((ncid, "p:" + a.vararg.arg), frozenset([o]))
        if a.kwarg:
            o = mk("dict", self.ctxs[ncid].sig, "kw")
            for k, v in kwextra.items():
                self.setitem(o, frozenset([const(k)]), v)
            self.add((ncid, "p:" + a.kwarg.arg), frozenset([o]))
        self.edge(sid, ncid, nc.ir.entry, newpart, "call")

    def lookup(self, q):
        return self.p.funcs.get(q) or self.lams.get(q)

    def x_call(self, sid, cid, c, n, part):
        fv = self.rv(sid, n.a["f"])
        args, rest = [], None
        for x in n.a["args"]:
            if isinstance(x, tuple):
                vals = self.rv(sid, x[1])
                tl = [t for t in vals if t.k == "tup"]
                if tl and len(tl) == len(vals) and len({len(t.a[0]) for t in tl}) == 1:
                    args.extend(frozenset().union(*[t.a[0][i] for t in tl]) for i in range(len(tl[0].a[0])))
                else:
                    rest = self.elems(sid, vals) | (rest or EMPTY)
            else:
                args.append(self.rv(sid, x))
        kws = {}
        for k, v in n.a["kws"]:
            if k is None:
                vals = self.rv(sid, v)
                for t in vals:
                    if t.k == "dict":
                        for key in [kk for kk in list(self.V) if kk[0] is t and isinstance(kk[1], str) and kk[1].startswith("['")]:
                            kws[ast.literal_eval(key[1][1:])] = self.get(key, sid)
                    else:
                        rest = (rest or EMPTY) | frozenset([mk("val", t)])
            else:
                kws[k] = self.rv(sid, v)
        rec = []
        out = set()
        excs = set()
        normal = False
        for f in fv:
            r = self.call1(sid, cid, c, n, f, args, kws, rest, part, rec)
            if r is None:
                continue       # entered
            vals, exc = r
            normal = True
            out |= vals
            if exc:
                excs.add(exc)
        self.calls[sid] = rec
        if not fv and sid not in self.forced:
            self.stuck.add(sid)
            return
        if not fv:
            normal = True; out = {ANY}; excs = {ANYEXC}
        if fv and all(f.k == "ext" and f.a[0] in NORETURN for f in fv):
            for t, l in n.succ:
                if l == "exc":
                    q = dict(part0(self.states[sid][2])); q["!"] = ANYEXC
                    self.edge(sid, cid, t, q, "exc")
            return
        if normal:
            f = None
            vs = frozenset(out)
            part2 = self.setdst(sid, cid, n, part, vs, f)
            self.flow(sid, cid, n, part2, exc=excs)

    def call1(self, sid, cid, c, n, f, args, kws, rest, part, rec):
        k = f.k
        if k in ("func", "bound", "closure"):
            q = f.a[1] if k == "bound" else f.a[0]
            fn = self.lookup(q)
            binds = [(None, v) for v in args] + list(kws.items())
            if k == "bound":
                binds = [(None, frozenset([f.a[0]]))] + binds
            if fn is not None and self.can_inline(c, fn):
                rec.append((f, args, kws, True))
                self.enter(sid, cid, c, n, fn, binds, part, "call", None, f.a[1] if k == "closure" else None, rest)
                return None
            rec.append((f, args, kws, False))
            full = ([frozenset([f.a[0]])] if k == "bound" else []) + args
            if fn is not None and kws:
                names = fn.params()
                for nm, v in kws.items():
                    if nm in names:
                        i = names.index(nm)
                        while len(full) <= i:
                            full.append(frozenset([ANY]))
                        full[i] = v
            return self.mkcalls(q, full), ANYEXC
        if k == "class":
            rec.append((f, args, kws, True))
            return self.construct(sid, cid, c, n, f, args, kws, rest, part)
        if k == "ext":
            rec.append((f, args, kws, False))
            return self.ext(sid, cid, c, n, f.a[0], args, kws, part, rest)
        if k == "attr":
            rec.append((mk("meth", f.a[0], f.a[1]), args, kws, False))
            return self.meth(sid, cid, c, n, f.a[0], f.a[1], args, kws, part, rec, rest)
        rec.append((f, args, kws, False))
        if k == "getattr" and f.a[0].k == "ext" and f.a[0].a[0] == "hashlib":
            return {mk("hasher", "dyn", self.ctxs[cid].sig, n.id)}, ANYEXC
        return {mk("dyn", f, *[pick(a) for a in args])}, ANYEXC

    def mkcalls(self, name, args, site=None):
        if any(not a for a in args):
            return set()
        out = set()
        cs = combos(args)
        for x in cs:
            out.add(mk("call", name, *x) if site is None else mk("call", name, *(x + (const("@%s" % (site,)),))))
        return out

    def construct(self, sid, cid, c, n, f, args, kws, rest, part):
        q = f.a[0]
        cls = self.p.classes[q]
        bases = [ast.unparse(b) for k in self.p.mro(cls) for b in k.node.bases]
        if any(b.split(".")[-1] == "TypedDict" for b in bases):
            o = mk("dict", self.ctxs[cid].sig, n.id)
            for k, v in kws.items():
                self.setitem(o, frozenset([const(k)]), v)
            for a in args:
                self.merge(sid, o, a)
            return {o}, None
        if any(b.split(".")[-1] in ("Enum", "IntEnum") for b in bases):
            return {mk("call", q, *[pick(a) for a in args])}, "ValueError"
        o = mk("obj", q, self.ctxs[cid].sig, n.id)
        init = self.p.find_method(cls, "__init__")
        if init is not None:
            if self.can_inline(c, init):
                self.enter(sid, cid, c, n, init, [(None, frozenset([o]))] + [(None, v) for v in args] + list(kws.items()), part, "ctor", o, None, rest)
                return None
            return {o}, ANYEXC
        self.fill_fields(cls, o, args, kws, c.func.module, rest)
        post = self.p.find_method(cls, "__post_init__")
        if post is not None and self.can_inline(c, post):
            self.enter(sid, cid, c, n, post, [(None, frozenset([o]))], part, "ctor", o)
            return None
        return {o}, None

    def fill_fields(self, cls, o, args, kws, m, rest=None):
        fields = self.p.all_fields(cls)
        for i, v in enumerate(args):
            if i < len(fields):
                self.add((o, fields[i]), v, True)
        for k, v in kws.items():
            self.add((o, k), v, True)
        for i, fl in enumerate(fields):
            if i < len(args) or fl in kws:
                continue
            if rest is not None:
                self.add((o, fl), rest, True)
                continue
            d = self.p.field_default(cls, fl)
            if d is None:
                continue
            e, dm = d
            if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "field":
                for kw in e.keywords:
                    if kw.arg == "default":
                        self.add((o, fl), self.ceval(kw.value, dm, (cls.qual, fl)), True)
                    elif kw.arg == "default_factory":
                        nm = ast.unparse(kw.value)
                        kd = "dict" if nm in ("dict", "Dict", "OrderedDict") else "set" if nm == "set" else "list"
                        self.add((o, fl), frozenset([mk(kd, o, fl)]), True)
                continue
            self.add((o, fl), self.ceval(e, dm, (cls.qual, fl)), True)

    def newlist(self, sid, cid, n, src, kind="list", tag=""):
        o = mk(kind, self.ctxs[cid].sig, "%s%d" % (tag, n.id))
        if src:
            self.add((o, "*"), src, True)
        return o

    def ext(self, sid, cid, c, n, name, args, kws, part, rest):
        """Calls to library functions."""
        exc = None if name in NORAISE or name.startswith(LOGGERS) else ANYEXC
        a = args
        if name.startswith(LOGGERS):
            return {NONE}, None
        if rest is not None and not a:
            a = [rest]
        if name.startswith("os.path.") and a and NONE in a[0]:
            a = [a[0] - {NONE}] + list(a[1:])       # (a TypeError)
        if any(not x for x in a) and name not in ("sorted", "list", "set", "tuple", "frozenset", "dict", "enumerate", "zip", "reversed", "len", "isinstance"):
            return set(), exc      # wait for operands
        short = name.split(".")[-1]
        if name == "os.path.join":
            return {_joinall(x) for x in combos([x - {NONE} for x in a])}, None
        if name == "os.path.relpath" and len(a) == 2:
            out = set()
            for x, b in combos(a):
                r = relpath(x, b)
                out.add(r if r is not None else mk("call", name, x, b))
            return out, None
        if name in ("os.path.normpath", "os.fspath", "os.path.expanduser", "typing.cast", "cast") or name in ("pathlib.Path", "pathlib.PurePath"):
            if short == "cast":
                return set(a[1]) if len(a) > 1 else {ANY}, None
            if name == "os.path.normpath":
                return {x if isstr(x) is False else x for x in a[0]}, None
            r = set(a[0]) if a else {const(".")}
            if "Path" in short or "Path" in name:
                for y in a[1:]:
                    r = {pjoin(x, z) for x in r for z in y}
                self.pathed |= {x for x in r if x is not ANY}
            return r, None
        if name == "os.path.abspath" or name == "os.path.realpath":
            return {mk("call", "os.path.abspath", x) for x in a[0]}, None
        if name == "os.path.dirname":
            return {dirname(x) for x in a[0]}, None
        if name == "os.path.basename":
            return {basename(x) for x in a[0]}, None
        if name == "os.path.split":
            return {mk("tup", (frozenset([dirname(x)]), frozenset([basename(x)]))) for x in a[0]}, None
        if name == "os.path.splitext":
            out = set()
            for x in a[0]:
                r, e = splitext(x)
                out.add(mk("tup", (frozenset([r]), frozenset([e]))))
            return out, None
        if name in ("open", "io.open", "codecs.open"):
            mode = a[1] if len(a) > 1 else kws.get("mode", frozenset([const("r")]))
            out = set()
            for p_ in a[0] if a else kws.get("file", frozenset([ANY])):
                for m_ in mode:
                    out.add(mk("file", p_, m_, self.ctxs[cid].sig, n.id))
            return out, OSERR
        if name in ("list", "sorted", "tuple", "reversed", "iter", "collections.deque", "set", "frozenset", "itertools.chain"):
            kind = "set" if name in ("set", "frozenset") else "list"
            if name == "iter" and len(a) > 1:
                # iter(function, sentinel)
                o = mk("list", self.ctxs[cid].sig, "it%d" % n.id)
                for f in a[0]:
                    fn = self.lookup(f.a[0]) if f.k in ("func", "closure") else None
                    if fn is not None and self.can_inline(c, fn):
                        self.enter(sid, cid, c, n, fn, [], part, "map", o, f.a[1] if f.k == "closure" else None)
                        return None
                    if f.k == "partial" or f.k == "attr":
                        r = f.a[0] if f.k == "partial" else f
                        if r.k == "attr" and r.a[0].k == "file":
                            self.add((o, "*"), frozenset([mk("read", r.a[0].a[0], const("%s.%s" % (self.ctxs[cid].sig, n.id)))]), True)
                        else:
                            self.add((o, "*"), frozenset([mk("call", "iter", f)]), True)
                return {o}, None
            if name == "iter" and a:
                return set(a[0]), None
            src = EMPTY
            for x in a:
                src |= self.elems(sid, x)
            return {self.newlist(sid, cid, n, src, kind)}, None
        if name == "dict" or name in ("collections.OrderedDict", "collections.defaultdict"):
            o = mk("dict", self.ctxs[cid].sig, n.id)
            for x in a:
                for t in x:
                    if t.k in ("list", "set", "zip"):
                        for e in self.get((t, "*"), sid):
                            if e.k == "tup" and len(e.a[0]) == 2:
                                self.setitem(o, e.a[0][0], e.a[0][1])
                            else:
                                self.setitem(o, frozenset([mk("item", e, const(0))]), frozenset([mk("item", e, const(1))]))
                    elif t.k in ("ext", "class", "func"):
                        if t.k == "ext" and t.a[0] in ("list", "dict", "set"):
                            self.add((o, "~"), frozenset([mk(t.a[0], self.ctxs[cid].sig, "df%d" % n.id)]), True)
                            self.add((o, "*v"), frozenset([mk(t.a[0], self.ctxs[cid].sig, "df%d" % n.id)]), True)
                    else:
                        self.merge(sid, o, frozenset([t]))
            for k, v in kws.items():
                self.setitem(o, frozenset([const(k)]), v)
            return {o}, None
        if name == "enumerate":
            el = self.elems(sid, a[0])
            if not el:
                return {self.newlist(sid, cid, n, EMPTY)}, None
            return {self.newlist(sid, cid, n, frozenset([mk("tup", (frozenset([mk("elem", mk("ext", "index"))]), frozenset([e]))) for e in el]))}, None
        if name == "zip":
            els = [self.elems(sid, x) for x in a]
            if not all(els):
                return {self.newlist(sid, cid, n, EMPTY)}, None
            return {self.newlist(sid, cid, n, frozenset([mk("tup", tuple(els))]))}, None
        if name == "map" and a:
            o = self.newlist(sid, cid, n, EMPTY, "list", "map")
            el = [self.elems(sid, x) for x in a[1:]]
            for f in a[0]:
                fn = self.lookup(f.a[0]) if f.k in ("func", "closure") else None
                if fn is not None and self.can_inline(c, fn):
                    self.enter(sid, cid, c, n, fn, [(None, e) for e in el], part, "map", o, f.a[1] if f.k == "closure" else None)
                else:
                    self.add((o, "*"), frozenset(self.mkcalls("map", [frozenset([f])] + el)), True)
            return {o}, None
        if name == "filter":
            return {self.newlist(sid, cid, n, self.elems(sid, a[1]))}, None
        if name in ("str", "repr"):
            return ({const("")} if not a else {t if name == "str" else mk("call", "repr", t) for t in a[0]}), None
        if name in ("int", "float") and a:
            out = set()
            for t in a[0]:
                if t.k == "const":
                    try:
                        out.add(const(int(cval(t)) if name == "int" else float(cval(t)))); continue
                    except (ValueError, TypeError):
                        pass
                out.add(mk("call", name, t))
            return out, "ValueError"
        if name == "bool" and a:
            return {const(truth(t)) if truth(t) is not None else mk("call", "bool", t) if self.distinct else t for t in a[0]}, None
        if name == "len" and a:
            return {const(len(cval(t))) if isstr(t) else mk("call", "len", t) for t in a[0]}, None
        if name == "super":
            if a:
                return {mk("super", s, t.a[0]) for t in a[0] for s in a[1] if t.k == "class"}, None
            cls = c.func.cls
            sv = self.get((cid, "p:" + (c.func.params() or ["self"])[0]), sid)
            return {mk("super", s, cls.qual) for s in sv} if cls else {ANY}, None
        if name == "getattr" and len(a) >= 2:
            out = set()
            for t in a[0]:
                for nm in a[1]:
                    if isstr(nm):
                        out |= self.getattr_(sid, t, cval(nm))
                    else:
                        out.add(mk("getattr", t, nm))
            if len(a) > 2 and not all(isstr(nm) and cval(nm).startswith("st_") for nm in a[1]):
                out |= a[2]
            return out, None
        if name == "setattr":
            return {NONE}, None
        if name == "isinstance":
            out = set()
            for x, ty in combos(a):
                out.add(self.isinst(x, ty))
            return out, None
        if name == "type":
            out = set()
            for t in a[0]:
                cl = self.typeof(t)
                out.add(mk("class", cl.qual) if cl is not None else mk("call", "type", t))
            return out, None
        if name == "next" and a:
            out = set(self.elems(sid, a[0]))
            if len(a) > 1:
                out |= a[1]
                return out, None
            return out or {ANY}, "StopIteration"
        if name in ("min", "max", "sum") and len(a) == 1:
            return {mk("call", name, pick(a[0]))}, None
        if name == "functools.partial" and a:
            return {mk("partial", f, tuple(a[1:])) for f in a[0]}, None
        if name in ("concurrent.futures.as_completed", "asyncio.as_completed", "tqdm.tqdm") and a:
            return set(a[0]), None
        if name == "asyncio.wrap_future" or name in ("asyncio.ensure_future", "asyncio.create_task", "asyncio.shield"):
            return set(a[0]), None
        if name in ("asyncio.run", "asyncio.get_event_loop.run_until_complete"):
            return set(a[0]), ANYEXC
        if name == "asyncio.wait":
            return {mk("call", name, pick(a[0]))}, None
        if name == "asyncio.gather":
            src = EMPTY
            for x in a:
                src |= frozenset(mk("result", t) if t.k in ("future", "task") else t for t in x)
            if rest:
                src |= frozenset(mk("result", t) if t.k in ("future", "task") else t for t in rest)
            return {self.newlist(sid, cid, n, src)}, ANYEXC
        if name == "dataclasses.replace" and a:
            return {self.replaced(sid, cid, n, t, kws, rest) for t in a[0]}, None
        if name in ("threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore", "multiprocessing.Lock", "multiprocessing.RLock"):
            return {mk("fresh", name, self.ctxs[cid].sig, n.id)}, None
        if name == "copy.copy" or name == "copy.deepcopy":
            return set(a[0]), None
        if name.startswith("hashlib."):
            alg = a[{"new": 0, "file_digest": 1}[short]] if short in ("new", "file_digest") and len(a) > (short != "new") else ()
            alg = next(iter(alg)) if len(alg) == 1 else ANY
            alg = cval(alg).lower() if isstr(alg) else alg.a[0].split(".")[-1] if isinstance(alg, T) and alg.k == "ext" else short
            h = mk("hasher", alg, self.ctxs[cid].sig, n.id)
            if short == "file_digest" and a:
                for t in a[0]:
                    self.add((h, "fed"), frozenset([mk("readall", t.a[0] if t.k == "file" else t)]))
            elif a and short != "new":
                self.add((h, "fed"), a[0])
            return {h}, (ANYEXC if short in ("new", "file_digest") else None)
        if name in IMPURE or name.startswith(("random.", "uuid.", "tempfile.", "secrets.")):
            site = "%s.%s" % (self.ctxs[cid].sig, n.id)
            if name.startswith("tempfile."):        # keeps where it is made
                d = kws.get("dir") or (a[2] if len(a) > 2 else None)
                base = self.mkcalls(name, [d]) if d and NONE not in d else {mk("call", name)}
            else:
                base = self.mkcalls(name, a) if a else {mk("call", name)}
            return {mk("fresh", x, const(site)) for x in base}, (None if name.startswith(("secrets.", "time.")) else ANYEXC)
        if name in ("concurrent.futures.ProcessPoolExecutor", "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.process.ProcessPoolExecutor"):
            return {mk("executor", self.ctxs[cid].sig, n.id)}, None
        if name.startswith("os.") or name.startswith("shutil."):
            r = self.mkcalls(name, a) or {mk("call", name)}
            if exc: exc = OSERR
            return r, exc
        if short[:1].isupper() and _builtin(short) and issubclass(getattr(builtins, short), BaseException):
            return {mk("exc", short)}, None
        if name.startswith(("filelock.",)):
            return self.mkcalls(name, a) or {mk("call", name)}, None
        extra = []
        for k in sorted(kws):
            if kws[k]:
                extra.append(frozenset(mk("kw", k, t) for t in kws[k]))
        r = self.mkcalls(name, a + extra) or {mk("call", name)}
        return r, exc

    def replaced(self, sid, cid, n, t, kws, rest):
        cls = self.typeof(t)
        if cls is None:
            o = mk("repl", t, self.ctxs[cid].sig, n.id)
            for k, v in kws.items():
                self.add((o, k), v, True)
            return o
        o = mk("obj", cls.qual, self.ctxs[cid].sig, "r%d" % n.id)
        for fl in self.p.all_fields(cls):
            if fl in kws:
                self.add((o, fl), kws[fl], True)
            else:
                self.add((o, fl), self.getattr_(sid, t, fl) | (rest or EMPTY), True)
        return o

    def isinst(self, x, ty):
        names = []
        tys = [ty]
        if ty.k == "tup":
            tys = [t for s in ty.a[0] for t in s]
        res = []
        for t in tys:
            r = None
            if t.k == "class":
                cl = self.typeof(x) if x.k == "obj" else None
                if cl is not None:
                    r = any(k.qual == t.a[0] for k in self.p.mro(cl))
                elif x.k in ("const", "list", "dict", "tup", "cat"):
                    r = False
            elif t.k == "ext":
                b = t.a[0]
                ty_of = {"cat": "str", "list": "list", "dict": "dict", "tup": "tuple", "set": "set"}.get(x.k)
                if x.k == "const":
                    ty_of = x.a[0]
                if ty_of is not None and hasattr(builtins, b):
                    r = (ty_of == b) or (ty_of == "bool" and b == "int")
                elif x.k == "obj" and b in ("str", "int", "bytes", "list", "dict", "tuple", "float"):
                    r = False
            res.append(r)
        if any(r is True for r in res):
            return TRUE
        if all(r is False for r in res):
            return FALSE
        return mk("call", "isinstance", x, ty)

    def meth(self, sid, cid, c, n, recv, name, a, kws, part, rec, rest):
        """Methods of values which are not objects of the analysed package."""
        exc = None if name in NORAISE_M else ANYEXC
        k = recv.k
        if k in ("list", "set", "dict") or (k not in ("const", "cat", "file", "any") and name in ("append", "extend", "add", "update", "appendleft", "insert")):
            if name in ("append", "add", "appendleft") and a:
                self.add((recv, "*"), a[0], True); return {NONE}, None
            if name == "insert" and len(a) > 1:
                self.add((recv, "*"), a[1], True); return {NONE}, None
            if name in ("extend", "extendleft") and a:
                self.add((recv, "*"), self.elems(sid, a[0]), True); return {NONE}, None
            if name == "update":
                if k == "dict" or k not in ("list", "set"):
                    for x in a:
                        self.merge(sid, recv, x)
                    for kk, v in kws.items():
                        self.setitem(recv, frozenset([const(kk)]), v)
                if k != "dict":
                    for x in a:
                        self.add((recv, "*"), self.elems(sid, x), True)
                return {NONE}, None
            if k == "dict":
                if name == "items":
                    o = mk("list", recv, "items")
                    ks, vs = self.get((recv, "*k"), sid), self.get((recv, "*v"), sid)
                    if ks and vs:
                        if len(ks) * len(vs) <= 60:
                            for x in ks:
                                vv = (self.get((recv, "[" + repr(x.a[-1])), sid) | self.get((recv, "~"), sid)) if x.k in ("const", "enum") else vs
                                if vv:
                                    self.add((o, "*"), frozenset([mk("tup", (frozenset([x]), frozenset(vv)))]), True)
                        else:
                            self.add((o, "*"), frozenset([mk("tup", (ks, vs))]), True)
                    return {o}, None
                if name == "keys":
                    o = mk("list", recv, "keys"); self.add((o, "*"), self.get((recv, "*k"), sid), True); return {o}, None
                if name == "values":
                    o = mk("list", recv, "values"); self.add((o, "*"), self.get((recv, "*v"), sid), True); return {o}, None
                if name in ("get", "pop", "setdefault") and a:
                    out = set(self.getitem(sid, recv, a[0]))
                    if name == "setdefault" and len(a) > 1:
                        self.setitem(recv, a[0], a[1])
                    if not (name == "get" and isinstance(recv.a[0], str) and recv.a[0].startswith("g:") and a[0] and all(x.k in ("const", "enum") and self.get((recv, "[" + repr(x.a[-1])), sid) for x in a[0])):
                        out |= a[1] if len(a) > 1 else ({NONE} if name == "get" else set())
                    return out, (ANYEXC if name == "pop" and len(a) < 2 and self.catches(n, c.ir, ("KeyError", "LookupError")) else None)
                if name == "popitem":
                    return {mk("tup", (self.get((recv, "*k"), sid), self.get((recv, "*v"), sid)))}, None
                if name == "copy":
                    o = mk("dict", self.ctxs[cid].sig, n.id); self.merge(sid, o, frozenset([recv])); return {o}, None
            else:
                if name in ("pop", "popleft"):
                    return set(self.get((recv, "*"), sid)), None
                if name in ("copy",):
                    return {self.newlist(sid, cid, n, self.get((recv, "*"), sid), k)}, None
                if name in ("difference", "intersection"):
                    return {self.newlist(sid, cid, n, self.get((recv, "*"), sid), k)}, None
                if name == "union":
                    src = self.get((recv, "*"), sid)
                    for x in a:
                        src |= self.elems(sid, x)
                    return {self.newlist(sid, cid, n, src, k)}, None
            if name in ("remove", "discard", "clear", "sort", "reverse", "difference_update", "intersection_update"):
                return {NONE}, None
        # symbolic containers
        if name == "items" and not a:
            o = mk("list", recv, "items")
            ks, vs = frozenset([mk("key", recv)]) | self.get((recv, "*k"), sid), frozenset([mk("val", recv)]) | self.get((recv, "*v"), sid)
            self.add((o, "*"), frozenset([mk("tup", (ks, vs))]), True)
            return {o}, None
        if name == "keys" and not a:
            o = mk("list", recv, "keys"); self.add((o, "*"), frozenset([mk("key", recv)]) | self.get((recv, "*k"), sid), True); return {o}, None
        if name == "values" and not a:
            o = mk("list", recv, "values"); self.add((o, "*"), frozenset([mk("val", recv)]) | self.get((recv, "*v"), sid), True); return {o}, None
        if name in ("get", "setdefault") and a and k in ("sym", "attr", "item", "elem", "call", "result", "val", "key"):
            out = set()
            if name == "setdefault" and len(a) > 1:
                self.setitem(recv, a[0], a[1])
            for kt in a[0]:
                out |= self.getitem(sid, recv, frozenset([kt]))
            out |= a[1] if len(a) > 1 else {NONE}
            return out, None
        if name == "copy" and not a and k != "file":
            an = self.ann_of(recv)
            h = ast.unparse(an[0].value if isinstance(an[0], ast.Subscript) else an[0]).split(".")[-1] if an else ""
            if h in ("Set", "set", "List", "list", "FrozenSet", "Deque", "deque"):
                return {self.newlist(sid, cid, n, self.elems(sid, frozenset([recv])), "set" if "et" in h else "list")}, None
            if h in ("Dict", "dict", "Mapping", "MutableMapping", "OrderedDict"):
                o = mk("dict", self.ctxs[cid].sig, n.id); self.merge(sid, o, frozenset([recv])); return {o}, None
            return {recv}, None
        # strings
        if name == "join" and a and (isstr(recv) or k == "cat"):
            out = set()
            for x in a[0]:
                size = 1
                for y in x.a[0] if x.k == "tup" else ():
                    size *= len(y)
                if x.k == "tup" and 0 < size <= 8:
                    for ys in itertools.product(*[sorted(y, key=show) for y in x.a[0]]):
                        ps = []
                        for i, y in enumerate(ys):
                            if i: ps.append(recv)
                            ps.append(y)
                        out.add(cat(ps))
                else:
                    out.add(mk("call", "str.join", recv, x))
            return out, None
        if name == "replace" and len(a) == 2:
            out = set()
            for x, y in combos(a):
                if isstr(recv) and isstr(x) and isstr(y):
                    out.add(const(cval(recv).replace(cval(x), cval(y))))
                elif (isstr(x) and cval(x) in ("/", "\\")) and (isstr(y) and cval(y) in ("/", "\\")) :
                    out.add(recv)
                else:
                    out.add(mk("call", "str.replace", recv, x, y))
            return out, None
        if name == "format" and isstr(recv):
            return {fmt_(recv, [pick(x) for x in a], {kk: pick(v) for kk, v in kws.items()})}, None
        if name in ("startswith", "endswith") and a and isstr(recv):
            out = set()
            for x in a[0]:
                if isstr(x):
                    out.add(const(getattr(cval(recv), name)(cval(x))))
                else:
                    out.add(mk("call", "str." + name, recv, x))
            return out, None
        if name == "startswith" and a and k == "cat":
            out = set()
            for x in a[0]:
                h = recv.a[0]
                if isstr(x) and isstr(h) and (len(cval(h)) >= len(cval(x)) or not cval(x).startswith(cval(h))):
                    out.add(const(cval(h).startswith(cval(x))))
                else:
                    out.add(mk("call", "str.startswith", recv, x))
            return out, None
        if name == "endswith" and a and k == "cat":
            out = set()
            for x in a[0]:
                h = recv.a[-1]
                if isstr(x) and isstr(h) and (len(cval(h)) >= len(cval(x)) or not cval(x).endswith(cval(h))):
                    out.add(const(cval(h).endswith(cval(x))))
                else:
                    out.add(mk("call", "str.endswith", recv, x))
            return out, None
        if isstr(recv) and not a and name in ("lower", "upper", "strip", "title"):
            return {const(getattr(cval(recv), name)())}, None
        if name == "removeprefix" and a:
            out = set()
            for x in a[0]:
                h = parts(recv)[0]
                if isstr(h) and isstr(x) and cval(h).startswith(cval(x)):
                    out.add(cat([const(cval(h)[len(cval(x)):])] + parts(recv)[1:]))
                else:
                    out.add(slice_(recv, const(len(cval(x))) if isstr(x) else ANY, NONE))
            return out, None
        if name in ("encode", "decode") and k in ("cat", "const", "call", "fresh", "attr", "sym", "slice"):
            return {recv}, None
        if recv in self.pathed:
            if name in PATHTEST and not a:
                return {mk("call", PATHTEST[name], recv)}, OSERR
            if name == "joinpath":
                r = {recv}
                for y in a:
                    r = {pjoin(x, z) for x in r for z in y}
                self.pathed |= r
                return r, None
            if name in ("resolve", "absolute"):
                r = mk("call", "os.path.abspath", recv); self.pathed.add(r)
                return {r}, None
            if name == "as_posix":
                return {recv}, None
            if name in ("with_suffix", "with_name") and len(a) == 1:
                b = splitext(recv)[0] if name == "with_suffix" else dirname(recv)
                r = {cat([b, x]) if name == "with_suffix" else pjoin(b, x) for x in a[0]}
                self.pathed |= r
                return r, None
        if name == "open" and k in ("cat", "call", "attr", "sym", "elem", "key", "item", "each", "val") and pathmode(a, kws):
            return {mk("file", recv, m_, self.ctxs[cid].sig, n.id) for m_ in pathmode(a, kws)}, OSERR
        # files
        if k == "file":
            if name in ("read", "readline", "readlines"):
                return {mk("read", recv.a[0], const("%s.%s" % (self.ctxs[cid].sig, n.id)))}, OSERR
            return {NONE}, OSERR
        # executors
        if name == "submit" and a:
            out = set()
            for f in a[0]:
                out.add(mk("future", f, tuple(a[1:]), self.ctxs[cid].sig, n.id))
            return out, None
        if name == "run_in_executor" and len(a) >= 2:
            return {mk("future", f, tuple(a[2:]), self.ctxs[cid].sig, n.id) for f in a[1]}, None
        if name == "map" and k == "executor" and a:
            o = self.newlist(sid, cid, n, frozenset(mk("result", mk("future", f, tuple(self.elems(sid, x) for x in a[1:]), self.ctxs[cid].sig, n.id)) for f in a[0]))
            return {o}, ANYEXC
        if k in ("future",) and name == "result":
            return {mk("result", recv)}, ANYEXC
        if k in ("future",) and name in ("done", "cancel", "exception"):
            return {mk("call", "future." + name, recv)}, None
        if k == "hasher":
            return {mk("call", "hasher." + name, recv)}, None
        if name == "run_until_complete" and a:
            return set(a[0]), ANYEXC
        # a method of the package called on a value of unknown type: unique name
        if k in ("any", "call", "elem", "item", "val", "attr", "sym", "result", "dyn", "global") and name not in COMMON:
            hits = self.by_name(name)
            if len(hits) == 1:
                fn = hits[0]
                if self.can_inline(c, fn):
                    rec[-1] = (mk("bound", recv, fn.qual), a, kws, True)
                    self.enter(sid, cid, c, n, fn, [(None, frozenset([recv]))] + [(None, v) for v in a] + list(kws.items()), part, "call", None, None, rest)
                    return None
                rec[-1] = (mk("bound", recv, fn.qual), a, kws, False)
                return self.mkcalls(fn.qual, [frozenset([recv])] + a), ANYEXC
        if any(not x for x in a):
            return set(), exc
        nm = "." + name
        r = set()
        for x in combos(a):
            r.add(mk("call", nm, recv, *x))
        if not a:
            r = {mk("call", nm, recv)}
        if name in ("read", "readline", "pop", "get", "recv", "send", "fileno", "popleft"):
            r = {mk("fresh", x, const("%s.%s" % (self.ctxs[cid].sig, n.id))) for x in r}
        return r, exc

    def by_name(self, name):
        if not hasattr(self, "_byname"):
            self._byname = {}
            for cl in self.p.classes.values():
                for m, f in cl.methods.items():
                    self._byname.setdefault(m, []).append(f)
        return self._byname.get(name, [])


PATHTEST = {"exists": "os.path.exists", "is_file": "os.path.isfile", "is_dir": "os.path.isdir", "is_symlink": "os.path.islink"}


def pathmode(a, kws):
    """Modes of the open() of a path, empty if the arguments are none of it."""
    m = a[0] if a else kws.get("mode", frozenset([const("r")]))
    return m if len(a) <= 1 and all(isstr(x) and cval(x) and not set(cval(x)) - set("rwaxbt+") for x in m) else ()


COMMON = {"read", "write", "get", "set", "add", "remove", "close", "open", "copy", "items", "keys", "values", "update", "append", "start",
          "stop", "run", "join", "split", "load", "store", "save", "send", "put", "pop", "clear", "exists", "check", "encode", "decode", "wait"}
IMPURE = {"time.time", "time.perf_counter", "time.monotonic", "os.getpid", "os.urandom", "datetime.datetime.now", "uuid.uuid4", "id", "object"}


def _joinall(x):
    r = x[0]
    for y in x[1:]:
        r = pjoin(r, y)
    return r


def part0(part):
    return part


def pick(s):
    if not s:
        return ANY
    if len(s) == 1:
        return next(iter(s))
    return mk("alt", s)


def combos(sets, limit=30):
    out = [()]
    for s in sets:
        if not s:
            return []
        if len(out) * len(s) > limit:
            s = frozenset([ANY]) if len(s) > 1 else s
        out = [o + (x,) for o in out for x in s]
        if len(out) > limit:
            out = out[:limit]
    return out


def nonnull(t):
    if t.k == "const":
        return t is not NONE
    return t.k in ("obj", "list", "dict", "set", "tup", "cat", "file", "func", "bound", "class", "closure", "enum", "exc", "bin", "cmp",
                   "not", "future", "hasher", "mod", "executor")


def truth(t):
    k = t.k
    if k == "const":
        return bool(cval(t))
    if k == "cat":
        return True if any(isstr(p) for p in t.a) else None
    if k == "tup":
        return len(t.a[0]) > 0
    if k in ("func", "bound", "class", "closure", "file", "mod", "obj", "exc", "hasher", "future", "executor"):
        return True
    if k == "enum":
        return True
    return None


NEGOP = {"Eq": "NotEq", "NotEq": "Eq", "Is": "IsNot", "IsNot": "Is", "In": "NotIn", "NotIn": "In", "Lt": "GtE", "GtE": "Lt", "Gt": "LtE", "LtE": "Gt"}


def neg(t):
    if t.k == "not":
        return t.a[0]
    if t.k == "cmp" and t.a[0] in ("NotEq", "IsNot", "NotIn"):
        return mk("cmp", NEGOP[t.a[0]], t.a[1], t.a[2])
    return mk("not", t)


def atom(t, val):
    """Normal form of a condition: (positive term, truth)."""
    while True:
        if t.k == "not":
            t = t.a[0]; val = not val
            continue
        if t.k == "call" and t.a[0] == "bool" and len(t.a) == 2:
            t = t.a[1]
            continue
        if t.k == "cmp" and t.a[0] in ("NotEq", "IsNot", "NotIn"):
            t = mk("cmp", NEGOP[t.a[0]], t.a[1], t.a[2]); val = not val
            continue
        if t.k == "cmp" and t.a[0] == "Is":
            t = mk("cmp", "Eq", t.a[1], t.a[2])
            continue
        return t, val


def filt(vals, f):
    if f == "N":
        r = frozenset(t for t in vals if not nonnull(t))
        return frozenset([NONE]) if r else r
    if f == "S":
        return frozenset(t for t in vals if t is not NONE)
    if f == "T":
        return frozenset(t for t in vals if truth(t) is not False)
    if f == "F":
        return frozenset(t for t in vals if t is not NONE and truth(t) is not True)
    if f == "Z":
        return frozenset(t for t in vals if truth(t) is not True)
    return vals


def fold(op, x, y):
    try:
        if op == "Sub": return x - y
        if op == "Mult" and not (isinstance(x, str) or isinstance(y, str)): return x * y
        if op == "FloorDiv": return x // y
        if op == "Mod" and not isinstance(x, str): return x % y
    except Exception:
        return None
    return None


def slice_(t, lo, hi):
    """String slices: prefixes of known text are cut away."""
    ps = parts(t)
    if isconst(lo, "int") and hi is NONE and isstr(ps[0]) and 0 <= cval(lo) <= len(cval(ps[0])):
        return cat([const(cval(ps[0])[cval(lo):])] + ps[1:])
    if isconst(hi, "int") and cval(hi) < 0 and lo is NONE and isstr(ps[-1]) and -cval(hi) <= len(cval(ps[-1])):
        return cat(ps[:-1] + [const(cval(ps[-1])[:cval(hi)])])
    return mk("slice", t, lo, hi)


def percent(a, b):
    args = [pick(s) for s in b.a[0]] if b.k == "tup" else [b]
    bits = cval(a).split("%s")
    if len(bits) != len(args) + 1:
        return ANY
    ps = [const(bits[0])]
    for x, s in zip(args, bits[1:]):
        ps += [x, const(s)]
    return cat(ps)


def fmt_(s, args, kws):
    import string
    ps = []
    i = 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(cval(s)):
            ps.append(const(lit))
            if fld is None:
                continue
            if fld == "":
                x = args[i]; i += 1
            elif fld.isdigit():
                x = args[int(fld)]
            elif fld in kws:
                x = kws[fld]
            else:
                x = ANY
            ps.append(mk("call", "format", x, const(spec)) if spec and x is not ANY else x)
    except (ValueError, IndexError):
        return ANY
    return cat(ps)


# ---------------------------------------------------------------- per-IR preparation

def prep(ir):
    if hasattr(ir, "keep"):
        return
    defs = {}
    for n in ir.nodes:
        if n.dst:
            defs.setdefault(n.dst, []).append(n.id)
    ir.defs = defs
    params = set(ir._all_params())
    ir.alldefs = {v: list(d) for v, d in defs.items()}
    for p in params:
        ir.alldefs.setdefault(p, []).append("p:" + p)
    ir.single = {v: d[0] for v, d in defs.items() if len(d) == 1 and v not in params}
    ir.params = params
    ir.rdmemo = {}
    ir.shared = ir.captured & ir.locals
    ir.bare_raise = any(n.op == "raise" and n.a["exc"] is None and not n.a.get("assert") for n in ir.nodes)
    # variables whose truth is worth remembering
    rel = set()
    tested = {}
    for n in ir.nodes:
        if n.op == "branch":
            rel.add(n.a["c"])
        elif n.op == "ret":
            rel.add(n.a["src"])
        elif n.op == "cmp" and n.a["op"] in ("Is", "IsNot", "Eq", "NotEq"):
            r = ir.single.get(n.a["r"])
            if r is not None and ir.nodes[r].op == "const" and (ir.nodes[r].a["v"] is None or isinstance(ir.nodes[r].a["v"], bool)):
                rel.add(n.a["l"]); rel.add(n.a["r"])
    changed = True
    while changed:
        changed = False
        for n in ir.nodes:
            if n.dst in rel:
                add = None
                if n.op == "load": add = n.a["name"]
                elif n.op == "store": add = n.a["src"]
                elif n.op == "unop": add = n.a["v"]
                elif n.op == "await": add = n.a["v"]
                if add and add not in rel:
                    rel.add(add); changed = True
    # a plain variable is kept only if assigned a flag or call result somewhere, or tested more than once
    counts = {}
    for n in ir.nodes:
        if n.op == "load" and n.dst in rel:
            counts[n.a["name"]] = counts.get(n.a["name"], 0) + 1
    keepvars = set()
    for v in rel:
        if v.startswith("%"):
            keepvars.add(v)
        elif v in ir.flags or counts.get(v, 0) >= 1:
            keepvars.add(v)
    ir.keepvars = keepvars
    ir.keep = [frozenset(n.live & keepvars) for n in ir.nodes]


CHANGES = {"append", "add", "remove", "discard", "pop", "popitem", "popleft", "appendleft", "clear", "extend", "update", "insert", "difference_update",
           "intersection_update", "symmetric_difference_update", "setdefault", "extendleft"}
READS = {"len", "sorted", "list", "set", "frozenset", "tuple", "dict", "any", "all", "bool", "str", "repr", "enumerate", "zip", "iter", "isinstance", "max", "min", "sum", "print", "reversed"}


def mutated(ir):
    """Variables whose value may be a container which this function changes or lets others change in place."""
    m = ir.rdmemo.get("!mutated")
    if m is not None:
        return m
    m = set(ir.captured)
    src = lambda r: ir.nodes[ir.single[r]].a.get("name") if isinstance(r, str) and r in ir.single and ir.nodes[ir.single[r]].op == "load" else None
    for n in ir.nodes:
        if n.op in ("setsub", "delsub"):
            m.add(src(n.a["obj"]))
        elif n.op == "augop":
            m.add(src(n.a["l"]))
        elif n.op == "call":
            f = ir.nodes[ir.single[n.a["f"]]] if n.a["f"] in ir.single else None
            if f is not None and f.op == "attr" and f.a["name"] in CHANGES:
                m.add(src(f.a["obj"]))
            if f is not None and f.op == "load" and f.a["name"] in READS:
                continue
            if f is not None and f.op == "attr" and f.a["name"] in ("debug", "info", "warning", "error", "exception", "format", "join", "wait"):
                continue
            for r in list(n.a["args"]) + [r for _, r in n.a["kws"]]:
                m.add(src(r))
    m.discard(None)
    ir.rdmemo["!mutated"] = m
    return m


def redefined(ir, d, pc, var):
    """Can the variable be assigned between node d (its last execution) and node pc?"""
    m = ir.rdmemo.setdefault("!between", {})
    k = (d, pc, var)
    if k in m:
        return m[k]
    defs = set(ir.defs.get(var, ()))
    out = False
    if defs:
        fw = set(); st = [t for t, l in ir.nodes[d].succ]
        while st:
            x = st.pop()
            if x in fw or x == d:
                continue
            fw.add(x)
            if x != pc:
                st.extend(t for t, l in ir.nodes[x].succ)
        for x in (defs & fw) - {pc}:
            seen = set(); st = [x]
            while st:
                y = st.pop()
                if y in seen or y == d:
                    continue
                seen.add(y)
                if y == pc:
                    out = True
                    break
                st.extend(t for t, l in ir.nodes[y].succ)
            if out:
                break
    m[k] = out
    return out


def rdefs(ir, pc, var):
    d = ir.single.get(var)
    if d is not None and var not in ir.params:
        return (d,)
    m = ir.rdmemo.get(var)
    if m is None:
        m = {}
        srcs = [(("p:" + var), ir.entry)] if var in ir.params else []
        for d in ir.defs.get(var, ()):
            srcs.append((d, d))
        dset = set(ir.defs.get(var, ()))
        for key, start in srcs:
            st = []
            if key == start:
                st = [t for t, l in ir.nodes[start].succ if l != "exc"]
                # next defines on the item edge only
                if ir.nodes[start].op == "next":
                    st = [t for t, l in ir.nodes[start].succ if l == "item"]
            else:
                st = [start]
            seen = set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                m.setdefault(x, set()).add(key)
                for t, l in ir.nodes[x].succ:
                    if x in dset and l != "exc" and not (ir.nodes[x].op == "next" and l == "done"):
                        continue
                    st.append(t)
        m = {k: tuple(v) for k, v in m.items()}
        ir.rdmemo[var] = m
    return m.get(pc, ())
