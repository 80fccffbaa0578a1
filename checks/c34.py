"""C34: what is written into the outputs is the same on every run."""
import ast
from engine.q import *
from engine.flow import Flow, WRAP
from engine.loops import natural
from .hot_common import BUILDF

TECHNIQUE = "backward slices from every write of the build step (data, containers, and the branches that steer them) to clocks, random numbers, identities and hashes, and to places where the order of an unordered collection becomes the order of a sequence"

ORDER = ("list", "tuple", "enumerate", "zip", "reversed", "iter", "map", "filter", "itertools.chain", "itertools.islice", "dict.fromkeys", "collections.deque", "dict", "copy.copy", "copy.deepcopy",
         "itertools.chain.from_iterable", "collections.OrderedDict", "itertools.groupby", "itertools.accumulate", "itertools.product", "itertools.cycle", "functools.reduce")
CLEAN = ("sorted", "min", "max", "len", "sum", "any", "all", "set", "frozenset", "isinstance", "bool", "collections.Counter", "math.prod", "type")
LISTING = ("os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk", "os.fwalk", "concurrent.futures.as_completed", "asyncio.as_completed", "concurrent.futures.wait")
LISTM = ("iterdir", "rglob", "glob", "imap_unordered", "scandir", "listdir")
SAYS = ("str", "repr", "json.dumps", "json.dump", "pprint.pformat", "ascii", "format", "urllib.parse.urlencode", "pickle.dumps", "json.JSONEncoder", "textwrap.dedent")
VOLATILE = ("time.", "random.", "secrets.", "uuid.", "tempfile.", "datetime.", "numpy.random", "threading.get_", "_thread.", "locale.time", "calendar.timegm", "resource.")
PARTS = ("os.getpid", "os.getppid", "os.urandom", "id", "hash", "os.times", "os.path.getmtime", "os.path.getatime", "os.path.getctime", "os.getlogin", "socket.gethostname", "platform.node", "threading.current_thread",
         "multiprocessing.current_process", "time", "perf_counter", "monotonic", "getpid", "uuid4", "uuid1", "random", "shuffle", "object.__hash__", "os.getrandom", "psutil.Process", "sys.getrefcount")
HARMLESS = ("time.sleep", "datetime.timedelta", "datetime.timezone", "time.struct_time", "random.seed")
NOWM = ("now", "utcnow", "today", "__hash__")
STAT = ("st_mtime", "st_mtime_ns", "st_ctime", "st_ctime_ns", "st_atime", "st_atime_ns", "st_ino")
MOVES = ("shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.move", "os.rename", "os.replace", "os.symlink", "os.link")
ANY = "any order"
WRITES = ("write", "writelines", "save", "write_text", "write_bytes")


def check(R):
    R.rule("order", "the order in which an unordered collection (a set, a directory listing, results as they complete) is gone through never becomes the order of what is written, nor picks what is written")
    R.rule("volatile", "no clock, random number, process identity, address or randomised hash is part of what is written or decides what is written")
    A = Ana(R.p, [(BUILDF, {}, None)])
    R.uses(A)
    O = Orders(A)
    n = 0
    for cid, pc in sorted(O.fl.at):
        w = O.writes(cid, pc)
        if w is None:
            continue
        n += 1
        O.sink(cid, pc, w)
    R.need("places where something is written", n)
    give(R, O)
    # the parts which turn text into tokens and tokens into text, function by function
    fs = [q for q, f in sorted(R.p.funcs.items()) if q.startswith(B) and not std_inline(f) and f.parent is None]
    A = Ana(R.p, [(q, {}, None) for q in fs], inline=lambda f: False)
    R.uses(A)
    O = Orders(A)
    for cid, pc in sorted(O.fl.at):
        m = O.fl.node(cid, pc)
        if m.op in ("ret", "yield", "yieldfrom"):
            O.sink(cid, pc, [m.a["src" if m.op == "ret" else "v"]])
        else:
            w = O.writes(cid, pc)
            if w is not None:
                O.sink(cid, pc, w)
    give(R, O)


def give(R, O):
    for who, (rule, msg, loc, tr) in sorted(O.bad.items()):
        R.bad(rule, who, msg, loc, tr)
    for who in sorted(O.seen_sinks):
        for rule in ("order", "volatile"):
            R.ok(rule, who)
    R.count("instructions in the slices", len(O.places))
    R.count("unordered collections gone through", len(O.unord))


class Orders:
    def __init__(self, A):
        self.A = A; self.I = A.I
        self.fl = Flow(A)
        self.born = {}
        for cid, pc in self.fl.at:
            for t in self.fl.made(cid, pc):
                self.born.setdefault(t, set()).add((cid, pc))
        self.objs = {}
        for cid, pc in self.fl.at:
            if any(f.k == "class" for f, args, kws in self.calls(cid, pc)):
                for t in self.I.V.get((cid, pc), ()):
                    self.objs.setdefault(t, set()).add((cid, pc))
        self.memo = {}
        self.bad = {}
        self.seen_sinks = set()
        self.places = set()
        self.unord = set()
        self.tidy = set()
        for cid, pc in self.fl.at:
            for f, args, kws in self.calls(cid, pc):
                if f.k in ("meth", "attr") and f.a[1] == "sort":
                    self.tidy.add(f.a[0])
        self.loopmemo = {}
        self.volmemo = {}

    def calls(self, cid, pc):
        if self.fl.node(cid, pc).op != "call":
            return
        for s in self.fl.at.get((cid, pc), ()):
            for f, args, kws, e in self.I.calls.get(s, ()):
                yield f, args, kws

    def names(self, cid, pc):
        return {self.A.F.name(f) or "" for f, a, k in self.calls(cid, pc)}

    def loc(self, cid, pc):
        return self.A.loc(self.fl.at[(cid, pc)][0])

    # ---- what is unordered ----------------------------------------------------------------------------------------
    def unordered(self, t, seen=()):
        if t in self.memo:
            return self.memo[t]
        if t in seen:
            return False
        seen = seen + (t,)
        r = self._unordered(t, seen)
        if len(seen) == 1 or r:
            self.memo[t] = r
        return r

    def _unordered(self, t, seen):
        if t.k == "set":
            return True
        if t.k in ("call", "fresh") and isinstance(t.a[0], str):
            if t.a[0] in LISTING:
                return True
            if t.a[0] in ORDER or t.a[0].split(".")[-1] == "fromkeys":
                return any(self.unordered(y, seen) for x in t.a[1:] for y in subs(x))
            return False
        if t.k == "call" and isinstance(t.a[0], T):
            return self.unordered(t.a[0], seen)
        if t.k in ("meth",) and t.a[1] in LISTM:
            return True
        if t.k in ("list", "dict"):
            if t in self.tidy:
                return False
            if isinstance(t.a[0], T):
                return self.unordered(t.a[0], seen)
            for cid, pc in self.born.get(t, ()):
                n = self.fl.node(cid, pc)
                V = lambda r: self.fl.vals(cid, pc, r)
                rs = []
                if n.op == "call":
                    ns = self.names(cid, pc)
                    if ns & set(CLEAN):
                        return False
                    if ns & set(ORDER):
                        rs = [r if isinstance(r, str) else r[1] for r in n.a["args"]]
                elif n.op in ("bin", "augop"):
                    rs = [n.a["l"], n.a["r"]]
                elif n.op == "build":
                    rs = [p[1] for p in n.a["parts"] if not isinstance(p, str)]
                elif n.op == "builddict":
                    rs = [v for k, v in n.a["items"] if k is None]
                elif n.op == "slice":
                    rs = [n.a["obj"]]
                if any(self.unordered(x, seen) for r in rs for x in V(r)):
                    return True
            for f in self.fl.fills.get(t, ()):
                if any(self.unordered(x, seen) for r in f[4] for x in self.fl.vals(f[0], f[1], r)):
                    return True
                if t.k == "dict" and self.keyed(f, t):
                    pass
                for l in self.loops(f[0], f[1], seen):
                    if not self.inside(t, l):
                        return True
        return False

    def keyed(self, f, t):
        return False

    def loops(self, cid, pc, seen=()):
        if seen:
            return self._loops(cid, pc, seen)
        if (cid, pc) not in self.loopmemo:
            self.loopmemo[(cid, pc)] = self._loops(cid, pc, ())
        return self.loopmemo[(cid, pc)]

    def _loops(self, cid, pc, seen=()):
        """Headers of the loops around an instruction, also in callers, which go through something unordered."""
        out = []
        while True:
            for h, body in natural(self.I.ctxs[cid].ir).items():
                if pc in body and self.fl.node(cid, h).op == "next" and (cid, h) in self.fl.at:
                    it = self.fl.node(cid, h).a["it"]
                    if any(self.unordered(t, seen) for t in self.fl.vals(cid, h, it)) or self.listed(cid, h, it):
                        out.append((cid, h))
            c = self.I.ctxs[cid]
            if c.csid is None:
                return out
            cid, pc = self.I.states[c.csid][:2]

    def inside(self, t, l):
        """Is the container made anew in every round of the loop?"""
        for cid, pc in self.born.get(t, ()):
            while True:
                if cid == l[0]:
                    if pc in natural(self.I.ctxs[cid].ir)[l[1]]:
                        return True
                    break
                c = self.I.ctxs[cid]
                if c.csid is None:
                    break
                cid, pc = self.I.states[c.csid][:2]
        return False

    # ---- what is volatile -----------------------------------------------------------------------------------------
    def volatile(self, cid, pc):
        n = self.fl.node(cid, pc)
        if n.op == "attr" and n.a["name"] in STAT:
            return "a file's " + n.a["name"]
        if n.op != "call":
            return None
        for f, args, kws in self.calls(cid, pc):
            nm = self.A.F.name(f) or ""
            if f.k == "ext" and nm not in HARMLESS and (nm in PARTS or nm.startswith(VOLATILE)):
                if nm.startswith("datetime.") and nm.rsplit(".", 1)[-1] not in NOWM:
                    continue
                return nm + "()"
            if f.k in ("meth", "attr") and (f.a[1] in NOWM[:3] and "datetime" in show(f.a[0]) or f.a[1] == "__hash__"):
                return f.a[1] + "()"
            if f.k in ("meth", "attr") and any(x in show(f.a[0]) for x in ("Random(", "SystemRandom", "default_rng")):
                return f.a[1] + "()"
        return None

    # ---- slices ---------------------------------------------------------------------------------------------------
    def writes(self, cid, pc):
        """Registers of what a call writes to a file."""
        n = self.fl.node(cid, pc)
        if n.op != "call":
            return None
        for f, args, kws in self.calls(cid, pc):
            nm = self.A.F.name(f) or ""
            regs = [r if isinstance(r, str) else r[1] for r in n.a["args"]]
            if f.k in ("meth", "attr") and f.a[1] in WRITES and isinstance(f.a[0], T) and f.a[0].k != "obj":
                if f.a[1] == "save":
                    return regs[1:] + [r for k, r in n.a["kws"]]
                return regs[:1]
            if nm in MOVES:
                return ("moved", regs[:1])
            if nm in ("json.dump", "pickle.dump", "os.write"):
                return regs[1:] if nm == "os.write" else regs[:1]
        return None

    def say(self, sink, rule, msg, cid, pc, chain):
        who = "%s <- %s" % (self.loc(*sink), self.loc(cid, pc))
        self.bad.setdefault(who, (rule, msg, self.loc(cid, pc), chain))

    def sink(self, cid, pc, regs):
        self.seen_sinks.add(self.loc(cid, pc))
        moved = isinstance(regs, tuple)
        if moved:
            regs = regs[1]
        sink = (cid, pc)
        for l in self.loops(cid, pc):
            if not moved and not self.opened(cid, pc, l):
                self.unord.add(l)
                self.say(sink, "order", "something is written for each item of an unordered collection, in its order", l[0], l[1], [self.loc(cid, pc)])
        fl = self.fl
        seen = {}
        st = [(("r", cid, pc, r), frozenset(), None) for r in regs]
        while st:
            x, ex, up = st.pop()
            k = (x, ex)
            if k in seen:
                continue
            seen[k] = up
            if x[0] == "c":
                if x[1].k == "list" and ANY not in ex and not moved and self.unordered(x[1]):
                    b = min(self.born.get(x[1]) or [sink])
                    self.say(sink, "order", "a list which has the order of an unordered collection is written as it is", b[0], b[1], self.chain(seen, k))
                    continue
                for f in fl.fills.get(x[1], ()):
                    ls = frozenset(self.loops(f[0], f[1]))
                    e2 = ex | ls if x[2:] == ("keyed",) or x[1].k == "set" else ex
                    for r in (f[2] if x[2:] != ("keyed",) else []) + f[3] + f[4]:
                        st.append((("r", f[0], f[1], r), e2, k))
                continue
            _, c, p, reg = x
            for d in fl.defs(c, p, reg):
                if d[0] == "p":
                    st += [(y, ex, k) for y in fl.params(d[1], d[2])]
                    continue
                c2, p2 = d[1], d[2]
                if (c2, p2) not in fl.at:
                    continue
                self.places.add((c2, p2))
                n = fl.node(c2, p2)
                v = self.volatile(c2, p2)
                if v and moved:
                    continue
                if v:
                    self.say(sink, "volatile", "%s is part of what is written" % v, c2, p2, self.chain(seen, k))
                    continue
                for b, v in self.steering(c2, p2):
                    self.say(sink, "volatile", "%s decides what is written" % v, b[0], b[1], self.chain(seen, k))
                m = self.order(c2, p2, n, ex)
                if m:
                    self.say(sink, "order", m, c2, p2, self.chain(seen, k))
                    continue
                st += [(y, e, k) for y, e in self.behind(c2, p2, n, ex)]

    def chain(self, seen, k):
        out = []
        while k is not None:
            x = k[0]
            if x[0] == "r" and (x[1], x[2]) in self.fl.at:
                l = self.loc(x[1], x[2])
                if not out or out[-1] != l:
                    out.append(l)
            k = seen.get(k)
        return out[:14]

    def opened(self, cid, pc, l):
        """Is the file written to opened within the loop?"""
        n = self.fl.node(cid, pc)
        for f, args, kws in self.calls(cid, pc):
            for t in [f.a[0]] if f.k in ("meth", "attr") and isinstance(f.a[0], T) else [y for x in args for y in x]:
                if t.k == "file":
                    for c, p in self.fl.at:
                        m = self.fl.node(c, p)
                        if m.op == "call" and m.dst is not None and t in self.I.V.get((c, p), ()) and (self.A.F.name(next(iter(self.calls(c, p)), (t,))[0]) or "").endswith("open"):
                            while True:
                                if c == l[0]:
                                    if p in natural(self.I.ctxs[c].ir)[l[1]]:
                                        return True
                                    break
                                x = self.I.ctxs[c]
                                if x.csid is None:
                                    break
                                c, p = self.I.states[x.csid][:2]
                    return False
        return True

    def listed(self, cid, pc, reg):
        return any(d[0] == "n" and (d[1], d[2]) in self.fl.at and self.names(d[1], d[2]) & set(LISTING) for d in self.fl.defs(cid, pc, reg))

    def un(self, cid, pc, reg):
        return self.listed(cid, pc, reg) or any(self.unordered(t) for t in self.fl.vals(cid, pc, reg))

    def order(self, cid, pc, n, ex):
        if n.op == "call" and ANY not in ex and any(t.k in ("call", "fresh") and t.a[0] in ("os.listdir", "glob.glob") for t in self.I.V.get((cid, pc), ())):
            return "something which comes in no particular order is written as it is"
        if n.op == "next" and (cid, pc) not in ex and self.un(cid, pc, n.a["it"]):
            self.unord.add((cid, pc))
            if not self.search(cid, pc):
                return "what is written depends on the order of an unordered collection which is gone through here"
        if n.op == "fmt" and any(t.k == "set" for t in self.fl.vals(cid, pc, n.a["v"])):
            return "an unordered collection is put into text as it is"
        if n.op == "call":
            ns = self.names(cid, pc)
            regs = [r if isinstance(r, str) else r[1] for r in n.a["args"]]
            for f, args, kws in self.calls(cid, pc):
                if f.k in ("meth", "attr") and isinstance(f.a[0], T):
                    if f.a[1] == "join" and any(self.un(cid, pc, r) for r in regs) and f.a[0].k not in ("set", "list"):
                        return "the items of an unordered collection are joined in its order"
                    if f.a[1] in ("pop", "popitem") and f.a[0].k == "set" and not self.worklist(cid, pc, f.a[0]):
                        return "an arbitrary item of an unordered collection is taken"
                    if f.a[1] in ("pop", "popleft") and f.a[0].k in ("list", "call", "fresh") and self.unordered(f.a[0]):
                        return "an item is taken by its position in something which has the order of an unordered collection"
            if ns & {"next", "builtins.next"} and regs and self.un(cid, pc, regs[0]):
                self.unord.add((cid, pc))
                if not self.search(cid, pc) and not any(self.worklist(cid, pc, t) for t in self.roots(cid, pc, regs[0])):
                    return "an arbitrary item of an unordered collection is taken"
            if ns & set(SAYS) and regs and any(t.k == "set" for t in self.fl.vals(cid, pc, regs[0])):
                return "an unordered collection is put into text as it is"
        if n.op in ("sub", "slice", "unpack", "unpack_star"):
            r = n.a["obj"] if n.op in ("sub", "slice") else n.a["src"]
            if any(t.k in ("list", "call", "set") and self.unordered(t) for t in self.fl.vals(cid, pc, r)):
                return "an item is taken by its position in something which has the order of an unordered collection"
        return None

    def roots(self, cid, pc, reg):
        """The sets behind an iterator."""
        out = set()
        st = list(self.fl.vals(cid, pc, reg))
        while st:
            t = st.pop()
            if t in out:
                continue
            out.add(t)
            for c, p in self.born.get(t, ()):
                n = self.fl.node(c, p)
                if n.op == "call":
                    for r in n.a["args"]:
                        if isinstance(r, str):
                            st += self.fl.vals(c, p, r)
            if t.k in ("call", "fresh", "list"):
                st += [y for x in t.a for y in subs(x)]
        return {t for t in out if t.k == "set"}

    def worklist(self, cid, pc, t):
        """A loop goes on until the set is empty: each of its items is taken sooner or later."""
        while True:
            ir = self.I.ctxs[cid].ir
            for h, body in natural(ir).items():
                if pc in body and ir.nodes[h].op == "loophead":
                    for b in body:
                        m = ir.nodes[b]
                        if m.op == "branch" and (cid, b) in self.fl.at and any(x not in body for x, l in m.succ if l in ("T", "F")):
                            if self.mentions(cid, b, m.a["c"], t):
                                return True
            c = self.I.ctxs[cid]
            if c.csid is None:
                return False
            cid, pc = self.I.states[c.csid][:2]

    def mentions(self, cid, pc, reg, t):
        st, seen = [(cid, pc, reg)], set()
        while st:
            x = st.pop()
            if x in seen or len(seen) > 40:
                continue
            seen.add(x)
            if t in self.fl.vals(*x):
                return True
            for d in self.fl.defs(*x):
                if d[0] == "n":
                    n = self.fl.node(d[1], d[2])
                    rs = [n.a.get(k) for k in ("l", "r", "v", "src", "obj", "name")] + (list(n.a["args"]) if n.op == "call" else [])
                    st += [(d[1], d[2], r) for r in rs if isinstance(r, str)]
        return False

    def search(self, cid, pc):
        """The first item which equals something is looked for: which one comes first makes no difference when one fits."""
        ir = self.I.ctxs[cid].ir
        for h, body in natural(ir).items():
            if pc in body:
                leaves = [x for b in body if b != h for x, l in ir.nodes[b].succ if x not in body and l not in ("exc", "excret")]
                if leaves and any(ir.nodes[b].op == "cmp" and ir.nodes[b].a["op"] in ("Eq", "NotEq") for b in body):
                    return True
        return False

    def behind(self, cid, pc, n, ex):
        fl = self.fl
        R = lambda r: ("r", cid, pc, r)
        if n.op == "call":
            ns = self.names(cid, pc)
            if ns & {"open", "io.open", "builtins.open", "codecs.open"}:
                return []
            if ns & set(CLEAN):
                ls = ex | frozenset((c, p) for c, p in self.gone(cid, pc, n)) | {ANY}
                return [(R(r if isinstance(r, str) else r[1]), ls) for r in n.a["args"]]
            for f, args, kws in self.calls(cid, pc):
                if f.k in ("meth", "attr") and isinstance(f.a[0], T) and f.a[1] in ("get", "pop", "setdefault", "__getitem__") and f.a[0].k == "dict":
                    out = [(("c", f.a[0], "keyed"), ex)] + [(R(r), ex | {ANY}) for r in n.a["args"] if isinstance(r, str)]
                    return out + [(R(n.a["f"]), ex)]
        if n.op == "next":
            ex = ex | {ANY}
        if n.op == "cmp":
            ex = ex | {ANY}
        if n.op == "attr":
            out = self.field(cid, pc, n)
            if out is not None:
                return [(y, ex) for y in out]
        if n.op == "sub":
            ts = fl.vals(cid, pc, n.a["obj"])
            if ts and all(t.k == "dict" for t in ts):
                return [(("c", t, "keyed"), ex) for t in ts] + [(y, ex | self.filled(ts)) for y in [R(n.a["obj"])]] + [(R(n.a["idx"]), ex | {ANY})]
        return [(y, ex) for y in fl.behind(cid, pc, n)]

    def field(self, cid, pc, n):
        """What an attribute of objects made here was set to, or given to the constructor as."""
        fl, nm = self.fl, n.a["name"]
        objs = fl.vals(cid, pc, n.a["obj"])
        out = []
        for o in objs:
            at = self.objs.get(o)
            if o.k != "obj" and not at or fl.called.get((cid, pc)):
                return None
            hit = False
            for c, p in at or ():
                m = fl.node(c, p)
                for f, args, kws in self.calls(c, p):
                    k = self.A.p.classes.get(f.a[0]) if f.k == "class" else None
                    if k is None:
                        return None
                    if self.A.p.find_method(k, "__init__") is None:
                        names = [x.target.id for b in reversed(self.A.p.mro(k)) for x in b.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                        if any(not isinstance(r, str) for r in m.a["args"]) or any(k2 is None for k2, r in m.a["kws"]):
                            return None
                        got = dict(zip(names, m.a["args"]))
                        got.update(dict(m.a["kws"]))
                        hit = nm in names
                        if nm in got:
                            out.append(("r", c, p, got[nm]))
            for c, p, r, src in fl.sets.get(nm, ()):
                if o in fl.vals(c, p, r):
                    out.append(("r", c, p, src))
                    hit = True
            if not hit:
                return None
        return out if objs else None

    def filled(self, ts):
        out = set()
        for t in ts:
            for f in self.fl.fills.get(t, ()):
                out |= set(self.loops(f[0], f[1]))
        return frozenset(out)

    def gone(self, cid, pc, n):
        """Loops whose order a sorting, counting or collecting call does away with."""
        out = set()
        st = [t for r in n.a["args"] for t in self.fl.vals(cid, pc, r if isinstance(r, str) else r[1])]
        seen = set()
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            out |= self.filled([t])
            for c, p in self.born.get(t, ()):
                m = self.fl.node(c, p)
                if m.op == "call":
                    st += [x for r in m.a["args"] if isinstance(r, str) for x in self.fl.vals(c, p, r)]
            if t.k == "list" and isinstance(t.a[0], T):
                st.append(t.a[0])
        return out

    # ---- branches -------------------------------------------------------------------------------------------------
    def branches(self, cid):
        """Branches of a function whose condition is made of something volatile: [(pc, what)]."""
        if cid not in self.volmemo:
            out = []
            ir = self.I.ctxs[cid].ir
            if cid in self.hot():
                for n in ir.nodes:
                    if n.op == "branch" and (cid, n.id) in self.fl.at:
                        vs = {self.volatile(*x) for x in self.fl.slice(cid, n.id, n.a["c"], stop=lambda c, p, m: self.volatile(c, p) is not None or m.op == "call" and bool(self.names(c, p) & {"open"}))}
                        vs.discard(None)
                        if vs:
                            out.append((n.id, sorted(vs)[0]))
            self.volmemo[cid] = out
        return self.volmemo[cid]

    def hot(self):
        """Contexts which a volatile value can reach: those with such a call, and their callers and callees."""
        if "hot" not in self.volmemo:
            ctx = set()
            for cid, pc in self.fl.at:
                if self.volatile(cid, pc):
                    c = cid
                    while c is not None:
                        ctx.add(c)
                        x = self.I.ctxs[c]
                        c = self.I.states[x.csid][0] if x.csid is not None else None
            self.volmemo["hot"] = ctx
        return self.volmemo["hot"]

    def steering(self, cid, pc):
        k = ("st", cid, pc)
        if k not in self.volmemo:
            self.volmemo[k] = self._steering(cid, pc)
        return self.volmemo[k]

    def _steering(self, cid, pc):
        out = []
        while True:
            bs = self.branches(cid) if cid in self.hot() else ()
            for b, v in bs:
                if self.decides(cid, b, pc):
                    out.append(((cid, b), v))
            c = self.I.ctxs[cid]
            if c.csid is None or not self.hot():
                return out
            cid, pc = self.I.states[c.csid][:2]

    def decides(self, cid, b, pc):
        """One way out of the branch leads past the instruction."""
        ir = self.I.ctxs[cid].ir
        hit = []
        for t, l in ir.nodes[b].succ:
            if l not in ("T", "F"):
                continue
            seen, st = set(), [t]
            while st:
                x = st.pop()
                if x in seen or x == b:
                    continue
                seen.add(x)
                if x == pc:
                    continue
                st += [y for y, m in ir.nodes[x].succ if m not in ("exc", "excret")]
            hit.append((pc in seen, any(ir.nodes[x].op in ("ret", "exit") for x in seen)))
        return len(hit) == 2 and any(h[0] for h in hit) and any(h[1] and not h[0] or h[1] and h[0] and False for h in hit) or len(hit) == 2 and hit[0][0] != hit[1][0]


def subs(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list, frozenset, set)):
        for y in x:
            yield from subs(y)
