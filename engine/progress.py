"""Does every round of a reading loop consume input?

An abstract interpretation of the instruction graph, path by path, from a loop's head. The upcoming characters of the
input are sets of characters per position; a comparison or a character class narrows the set of the position it looks
at. What a variable held before the loop is not known. A read which takes something ends a path, so what is left are
the ways around which take nothing: a cycle among those is a loop which can hang.

  values: ("k", constant)  ("s", i, j) the characters i..j-1 of what is to come  ("m", value, name) a method
          ("nn",) something which is not None and is true  ("seq", constants) ("?",) not known
"""
import ast, string
from .flow import Flow
from .loops import natural

POS = 10
SAMPLE = frozenset(map(chr, range(128))) | frozenset("\u00a0\u00b2\u00e9\u0660\u1680\u200c\u200d\u2028\u2029\u3000\u4e2d\ufeff\ufffd\U0001f600")
EOF = None
ALL = SAMPLE | {EOF}
UNK = ("?",); NN = ("nn",)
LIMIT = 60000


class TooBig(Exception):
    pass


class Raises(Exception):
    pass


class Split(Exception):
    """The next characters have to be told apart first."""

    def __init__(self, pos, sets):
        self.pos = pos; self.sets = sets


def K(v):
    return ("k", v)


def narrow(S, i, s):
    """What is to come when position i is in s; None: impossible."""
    s = S[i] & s
    if not s:
        return None
    out = list(S)
    out[i] = s
    if s == {EOF}:
        for j in range(i + 1, len(S)):
            if EOF not in S[j]:
                return None
            out[j] = frozenset([EOF])
    elif EOF not in s:
        for j in range(i):
            out[j] = out[j] - {EOF}
            if not out[j]:
                return None
    return tuple(out)


class Progress:
    def __init__(self, A, reader, fl=None, given=None):
        """reader(term) -> 'peek' / 'read' when a called term is one of the input's methods.
        given: method name -> the value its calls have (instead of following them)."""
        self.A = A; self.I = A.I; self.F = fl or Flow(A); self.reader = reader
        self.given = given or {}
        self.memo = {}
        self.states = 0

    # ---- characters -----------------------------------------------------------------------------------------------
    def length(self, S, v):
        """Length of a piece of what is to come; None when nothing is there."""
        _, i, j = v
        n = 0
        for p in range(i, j):
            if p >= POS:
                return "?"
            if S[p] == {EOF}:
                break
            if EOF in S[p]:
                raise Split(p, [frozenset([EOF]), S[p] - {EOF}])
            n += 1
        return n

    def only(self, S, p, f):
        """The value of f on the character at p, telling characters apart where it differs."""
        groups = {}
        for c in S[p]:
            try:
                r = ("v", f(c))
            except (TypeError, ValueError, AttributeError, IndexError):
                r = ("x",)
            groups.setdefault(r, set()).add(c)
        if len(groups) > 1:
            raise Split(p, [frozenset(g) for k, g in sorted(groups.items(), key=lambda x: repr(x[0]))])
        r = next(iter(groups))
        if r[0] == "x":
            raise Raises()
        return r[1]

    def known(self, S, v):
        """The text of a piece, once its characters are told apart."""
        n = self.length(S, v)
        if n == "?":
            return None
        out = ""
        for p in range(v[1], v[1] + n):
            if len(S[p]) != 1:
                return None
            out += next(iter(S[p]))
        return out

    # ---- operations -----------------------------------------------------------------------------------------------
    def truth(self, S, v):
        if v[0] == "rest":
            return True
        if v[0] == "k":
            return bool(v[1])
        if v[0] == "seq":
            return bool(v[1])
        if v[0] == "s":
            n = self.length(S, v)
            return None if n == "?" else n > 0
        if v[0] in ("nn", "m"):
            return True
        return None

    def none(self, v):
        """Is it None?"""
        if v[0] == "k":
            return v[1] is None
        return None if v[0] == "?" else False

    def compare(self, S, op, l, r):
        if op in ("Is", "IsNot"):
            for a, b in ((l, r), (r, l)):
                if b == K(None) and self.none(a) is not None:
                    return self.none(a) == (op == "Is")
            if l[0] == r[0] == "k" and all(x is None or isinstance(x, bool) for x in (l[1], r[1])):
                return (l[1] is r[1]) == (op == "Is")
            return None
        if op in ("Eq", "NotEq"):
            e = self.equal(S, l, r)
            return e if e is None or op == "Eq" else not e
        if op in ("In", "NotIn"):
            e = self.isin(S, l, r)
            return e if e is None or op == "In" else not e
        l, r = self.flat(S, l), self.flat(S, r)
        if l[0] == "restlen" and l == r:
            return op in ("LtE", "GtE")
        if l[0] == "ord" or r[0] == "ord":
            x, y = (l, r) if l[0] == "ord" else (r, l)
            if y[0] != "k":
                return None
            f = {"Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}[op]
            if x is l:
                return self.only(S, x[1], lambda c: f(ord(c), y[1]))
            return self.only(S, x[1], lambda c: f(y[1], ord(c)))
        for a in (l, r):
            if a == K(None):
                raise Raises()
        for a, b, flip in ((l, r, False), (r, l, True)):
            if a[0] == "s" and b[0] == "k" and isinstance(b[1], str) and self.length(S, a) == 1:
                f = {"Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}[op]
                return self.only(S, a[1], (lambda c: f(b[1], c)) if flip else (lambda c: f(c, b[1])))
        if l[0] == r[0] == "k":
            try:
                return {"Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}[op](l[1], r[1])
            except TypeError:
                raise Raises()
        return None

    def flat(self, S, v):
        if v[0] == "s":
            t = self.known(S, v)
            if t is not None:
                return K(t)
        return v

    def equal(self, S, l, r):
        if l[0] in ("rest", "restlen"):
            return True if l == r else None
        if l[0] == "k" and r[0] == "s":
            l, r = r, l
        if l[0] == "ord" or r[0] == "ord":
            x, y = (l, r) if l[0] == "ord" else (r, l)
            return self.only(S, x[1], lambda c: ord(c) == y[1]) if y[0] == "k" else None
        if l[0] == "s" and r[0] == "k":
            if not isinstance(r[1], str):
                return False
            t = r[1]
            for q, ch in enumerate(t):
                p = l[1] + q
                if p >= l[2]:
                    return False
                if p >= POS:
                    return None
                if not self.only(S, p, lambda c: c == ch):
                    return False
            n = self.length(S, l)
            return None if n == "?" else n == len(t)
        if l[0] == r[0] == "s":
            if l == r:
                return True
            a, b = self.flat(S, l), self.flat(S, r)
            return a[1] == b[1] if a[0] == b[0] == "k" else None
        if l[0] == r[0] == "k":
            return l[1] == r[1]
        for a, b in ((l, r), (r, l)):
            if a == K(None) and b[0] in ("nn", "m", "seq"):
                return False
        return None

    def isin(self, S, l, r):
        if r == K(None):
            raise Raises()
        if r[0] == "k" and isinstance(r[1], str):
            if l == K(None):
                raise Raises()
            if l[0] == "s":
                n = self.length(S, l)
                if n == "?":
                    return None
                if n == 1:
                    return self.only(S, l[1], lambda c: c in r[1])
                if n == 0:
                    return True
                for k in range(n):                  # all of them have to occur
                    if not self.only(S, l[1] + k, lambda c: c in r[1]):
                        return False
                f = self.flat(S, l)
                return f[1] in r[1] if f[0] == "k" else None
            if l[0] == "k":
                return l[1] in r[1] if isinstance(l[1], str) else None
            return None
        if r[0] == "seq":
            if l[0] == "s":
                ones = [x for x in r[1] if isinstance(x, str)]
                n = self.length(S, l)
                if n == "?":
                    return None
                if n == 1:
                    return self.only(S, l[1], lambda c: c in ones)
                for x in ones:
                    if self.equal(S, l, K(x)):
                        return True
                return False
            if l[0] == "k":
                try:
                    return l[1] in r[1]
                except TypeError:
                    raise Raises()
            return None
        if r[0] == "s":
            a, b = self.flat(S, l), self.flat(S, r)
            if a == K(None):
                raise Raises()
            return a[1] in b[1] if a[0] == b[0] == "k" else None
        return None

    METHODS = ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "isidentifier", "isupper", "islower", "isascii", "isprintable")
    TEXTM = ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "replace")

    def method(self, S, o, m, args):
        if m == "sub" and args and args[-1] == K(""):
            return K("")
        if o == K(None):
            raise Raises()
        if m in self.METHODS:
            if o[0] == "s":
                n = self.length(S, o)
                if n == "?":
                    return UNK
                if n == 0:
                    return K(m in ("isascii", "isprintable"))
                if n == 1:
                    return K(self.only(S, o[1], lambda c: getattr(c, m)()))
                if m in ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "isascii", "isprintable"):
                    return K(all(self.only(S, o[1] + k, lambda c: getattr(c, m)()) for k in range(n)))
                return UNK
            if o[0] == "k" and isinstance(o[1], str):
                return K(getattr(o[1], m)())
        if m in ("startswith", "endswith") and len(args) == 1 and o[0] == "s" and args[0][0] == "seq" and all(isinstance(x, str) for x in args[0][1]):
            rs = [self.method(S, o, m, [K(x)]) for x in args[0][1]]
            if any(x == K(True) for x in rs):
                return K(True)
            return K(False) if all(x == K(False) for x in rs) else UNK
        if m in ("startswith", "endswith") and len(args) == 1 and o[0] == "s" and args[0][0] == "k" and isinstance(args[0][1], str):
            n = self.length(S, o)
            t = args[0][1]
            if n == "?":
                return UNK
            if n < len(t):
                return K(False)
            at = o[1] if m == "startswith" else o[1] + n - len(t)
            return K(self.equal(S, ("s", at, at + len(t)), args[0]))
        if m in ("lower", "upper", "casefold") and o[0] == "s":
            f = self.flat(S, o)
            return K(getattr(f[1], m)()) if f[0] == "k" else UNK
        if o[0] == "k" and isinstance(o[1], str) and m in self.TEXTM + ("startswith", "endswith", "find", "count", "index") and all(a[0] == "k" for a in args):
            try:
                return K(getattr(o[1], m)(*[a[1] for a in args]))
            except (TypeError, ValueError):
                raise Raises()
        return UNK

    def index(self, S, o, i):
        if o == K(None):
            raise Raises()
        if o[0] == "s" and i[0] == "k" and isinstance(i[1], int):
            n = self.length(S, o)
            if n == "?":
                return UNK
            k = i[1] if i[1] >= 0 else n + i[1]
            if not 0 <= k < n:
                raise Raises()
            return ("s", o[1] + k, o[1] + k + 1)
        if o[0] == "k" and i[0] == "k":
            try:
                return K(o[1][i[1]])
            except (TypeError, IndexError, KeyError):
                raise Raises()
        if o[0] == "s" and i == K(None):
            raise Raises()
        return UNK

    def cut(self, S, o, lo, hi):
        if o == K(None):
            raise Raises()
        if o[0] == "s" and all(x is None or x == K(None) or (x[0] == "k" and isinstance(x[1], int) and x[1] >= 0) for x in (lo, hi)):
            a = o[1] + (lo[1] if lo and lo[1] else 0)
            b = o[2] if hi is None or hi == K(None) else min(o[2], o[1] + hi[1])
            return ("s", a, b) if a < b else K("")
        f = self.flat(S, o)
        if f[0] == "k" and all(x is None or x[0] == "k" for x in (lo, hi)):
            try:
                return K(f[1][slice(lo and lo[1], hi and hi[1])])
            except TypeError:
                raise Raises()
        return UNK

    def add(self, S, op, l, r):
        for a, b in ((l, r), (r, l)):
            if a == K(None):
                raise Raises()
        if l[0] == r[0] == "k":
            try:
                v = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b}[op](l[1], r[1])
            except (TypeError, KeyError):
                return UNK
            if isinstance(v, int) and abs(v) > 12 or isinstance(v, str) and len(v) > 12:
                return UNK
            return K(v)
        if op == "Add" and l[0] == r[0] == "s" and l[2] == r[1]:
            n = self.length(S, l)
            if n == l[2] - l[1]:
                return ("s", l[1], r[2])
        if op == "Add":
            for a, b in ((l, r), (r, l)):
                if a[0] == "s" and self.truth(S, a):
                    return ("nn",)
                if a[0] == "k" and isinstance(a[1], str) and a[1]:
                    return ("nn",)
                if a[0] == "nn":
                    return NN
        return UNK

    # ---- module level constants -----------------------------------------------------------------------------------
    def constant(self, mod, name):
        k = (mod.name, name)
        if k not in self.memo:
            self.memo[k] = UNK
            for st in mod.tree.body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    self.memo[k] = self.literal(mod, st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name and st.value is not None:
                    self.memo[k] = self.literal(mod, st.value)
                elif isinstance(st, ast.ImportFrom) and any((a.asname or a.name) == name for a in st.names):
                    orig = next(a.name for a in st.names if (a.asname or a.name) == name)
                    if st.module == "string" and not st.level:
                        v = getattr(string, orig, None)
                        self.memo[k] = K(v) if isinstance(v, str) else UNK
                    else:
                        base = mod.name.split(".")
                        if st.level:
                            m = ".".join(base[:len(base) - st.level] + ([st.module] if st.module else []))
                        else:
                            m = st.module
                        m2 = self.A.p.modules.get(m)
                        if m2 is not None:
                            self.memo[k] = self.constant(m2, orig)
        return self.memo[k]

    def literal(self, mod, e):
        try:
            v = ast.literal_eval(e)
        except (ValueError, TypeError, SyntaxError):
            v = self
        if v is not self:
            if isinstance(v, (tuple, list, set)):
                return ("seq", tuple(v))
            if isinstance(v, dict):
                return ("seq", tuple(v))
            return K(v)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple", "list", "sorted") and len(e.args) == 1:
            v = self.literal(mod, e.args[0])
            if v[0] == "seq":
                return v
            if v[0] == "k" and isinstance(v[1], str):
                return ("seq", tuple(v[1]))
            return UNK
        if isinstance(e, ast.Name):
            return self.constant(mod, e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "string":
            v = getattr(string, e.attr, None)
            return K(v) if isinstance(v, str) else UNK
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
            l, r = self.literal(mod, e.left), self.literal(mod, e.right)
            if l[0] == r[0] == "k":
                try:
                    return K(l[1] + r[1])
                except TypeError:
                    return UNK
            if l[0] == r[0] == "seq":
                return ("seq", l[1] + r[1])
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            xs = [self.literal(mod, x) for x in e.elts]
            if all(x[0] == "k" for x in xs):
                return ("seq", tuple(x[1] for x in xs))
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            xs = [self.literal(mod, x) for x in e.keys]
            if all(x[0] == "k" for x in xs):
                return ("seq", tuple(x[1] for x in xs))
        return UNK

    # ---- interpretation -------------------------------------------------------------------------------------------
    def val(self, cid, pc, env, r):
        if r is None:
            return UNK
        v = env.get((cid, r))
        if v is not None:
            return v
        ir = self.I.ctxs[cid].ir
        if (cid, r) in env:
            return UNK
        vs = self.F.vals(cid, pc, r)
        if len(vs) == 1:
            t = next(iter(vs))
            if t.k == "const":
                return K(t.a[0] if isinstance(t.a, tuple) else t.a)
            if t.k in ("tuple", "list", "set") and len(t.a) and all(getattr(x, "k", None) == "const" for x in t.a):
                return ("seq", tuple(x.a[0] for x in t.a))
        return UNK

    def heads(self):
        """Loops which are not over a collection: (context, head)."""
        out = []
        for cid, ctx in enumerate(self.I.ctxs):
            for h, body in natural(ctx.ir).items():
                if ctx.ir.nodes[h].op == "loophead" and (cid, h) in self.F.at:
                    out.append((cid, h))
        return out

    def hangs(self, head, ended):
        """A way around a loop which takes nothing: a list of (context, node), or None."""
        cid, h = head
        S = tuple([frozenset([EOF])] * POS if ended else [SAMPLE] + [ALL] * (POS - 1))
        start = (cid, h, frozenset(), S)
        body = natural(self.I.ctxs[cid].ir)[h]
        up = set()
        c = self.I.ctxs[cid]
        while c.csid is not None:
            k = self.I.states[c.csid][0]
            if k in up:
                break
            up.add(k)
            c = self.I.ctxs[k]
        within = lambda y: y[0] not in up and (y[0] != cid or y[1] in body)
        succ = {}
        st = [start]
        while st:
            x = st.pop()
            if x in succ:
                continue
            if len(succ) > LIMIT:
                raise TooBig()
            succ[x] = out = [y for y in self.step(x, ended, head) if within(y)]
            for y in out:
                if y not in succ:
                    st.append(y)
        self.states += len(succ)
        kept = {x: ys for x, ys in succ.items() if x[1] not in self.counts(x[0])}
        return cycle(kept)

    def counts(self, cid):
        """Instructions of a function which move a variable that a loop's condition compares with something."""
        ir = self.I.ctxs[cid].ir
        m = ir.rdmemo.get("!counts")
        if m is None:
            m = set()
            moves = {}
            for i, n in enumerate(ir.nodes):
                if n.op in ("augop", "bin") and n.a.get("op") in ("Add", "Sub", "FloorDiv", "RShift"):
                    moves[n.dst] = i
            for i, n in enumerate(ir.nodes):
                if n.op == "store" and n.a["src"] in moves:
                    moves.setdefault(n.dst, moves[n.a["src"]])
            loaded = {n.dst: n.a["name"] for n in ir.nodes if n.op == "load" and n.a["name"] in moves}
            for n in ir.nodes:
                if n.op == "cmp" and n.a["op"] in ("Lt", "LtE", "Gt", "GtE"):
                    for r in (n.a["l"], n.a["r"]):
                        v = loaded.get(r, r)
                        if v in moves:
                            m.add(moves[v])
            ir.rdmemo["!counts"] = m
        return m

    def live(self, cid, pc):
        ir = self.I.ctxs[cid].ir
        return ir.nodes[pc].live

    def prune(self, env, stack):
        """Drop what is not used any more. stack: contexts still to be finished, with where they are."""
        out = []
        for (c, r), v in env.items():
            if isinstance(c, str):
                out.append(((c, r), v))
                continue
            pc = stack.get(c)
            if pc is None:
                continue
            if r.startswith("@") or r in self.live(c, pc) or r in self.I.ctxs[c].ir.captured:
                out.append(((c, r), v))
        return frozenset(out)

    def where(self, cid, pc):
        """The contexts which wait for this one, and where."""
        out = {cid: pc}
        c = self.I.ctxs[cid]
        while c.csid is not None:
            k = self.I.states[c.csid][:2]
            if k[0] in out:
                break
            # what they use afterwards
            nxt = [t for t, l in self.I.ctxs[k[0]].ir.nodes[k[1]].succ if l != "exc"]
            out[k[0]] = nxt[0] if nxt else k[1]
            c = self.I.ctxs[k[0]]
        return out

    def results(self, cid, env=()):
        """What a function returns (with what is given): (values, a cycle or None)."""
        ir = self.I.ctxs[cid].ir
        ev = next(i for i, x in enumerate(ir.nodes) if x.op == "entry")
        S = tuple([frozenset([EOF])] * POS)
        start = (cid, ev, frozenset((k if isinstance(k, tuple) else (cid, k), v) for k, v in dict(env).items()), S)
        succ = {}
        st = [start]
        out = {}
        while st:
            x = st.pop()
            if x in succ:
                continue
            if len(succ) > LIMIT:
                raise TooBig()
            n = self.I.ctxs[x[0]].ir.nodes[x[1]]
            if x[0] == cid and n.op == "ret":
                out.setdefault(self.val(cid, x[1], dict(x[2]), n.a["src"]), x)
            elif x[0] == cid and n.op == "exit":
                out.setdefault(K(None), x)
            succ[x] = [y for y in self.step(x, True, None) if n.op not in ("ret", "exit") or x[0] != cid]
            st += succ[x]
        self.states += len(succ)
        return out, cycle({x: ys for x, ys in succ.items() if x[1] not in self.counts(x[0])})

    def step(self, x, ended, head):
        cid, pc, fe, S = x
        env = dict(fe)
        n = self.I.ctxs[cid].ir.nodes[pc]
        try:
            res = self.exec(cid, pc, n, env, S, ended, head)
        except Raises:
            return self.throw(cid, n, env, S)
        except Split as e:
            out = []
            for s in e.sets:
                S2 = narrow(S, e.pos, s)
                if S2 is not None:
                    out.append((cid, pc, fe, S2))
            return out
        out = []
        for c2, p2, env2 in res:
            out.append((c2, p2, self.prune(env2, self.where(c2, p2)), S))
        return out

    def throw(self, cid, n, env, S):
        while True:
            ts = [t for t, l in n.succ if l == "exc"]
            ir = self.I.ctxs[cid].ir
            ts = [t for t in ts if ir.nodes[t].op != "excexit"]
            if ts:
                return [(cid, t, self.prune(env, self.where(cid, t)), S) for t in ts]
            c = self.I.ctxs[cid]
            if c.csid is None:
                return []
            k = self.I.states[c.csid][:2]
            cid = k[0]
            n = self.I.ctxs[cid].ir.nodes[k[1]]

    def exec(self, cid, pc, n, env, S, ended, head):
        V = lambda r: self.val(cid, pc, env, r)
        op, a = n.op, n.a
        go = [t for t, l in n.succ if l not in ("exc", "excret")]

        def put(v, keep=env):
            e = keep
            if n.dst is not None:
                e = dict(e)
                e[(cid, n.dst)] = v
                e.pop((cid, "@" + n.dst), None)
            return [(cid, t, e) for t in go]

        if op == "const":
            return put(K(a["v"]) if isinstance(a["v"], (str, int, float, bool, type(None))) else UNK)
        if op == "load":
            name = a["name"]
            if (cid, name) in env:
                return put(env[(cid, name)])
            f = self.I.ctxs[cid].func
            if name not in locals_of(self.I.ctxs[cid].ir) and name not in f.params():
                c = self.constant(f.module, name)
                if c != UNK:
                    return put(c)
            return put(self.val(cid, pc, env, name))
        if op == "store":
            return put(V(a["src"]))
        if op == "attr":
            o = V(a["obj"])
            if ("field", a["name"]) in env:
                return put(env[("field", a["name"])])
            if o == K(None):
                raise Raises()
            if o[0] in ("s", "k", "nn"):
                return put(("m", o, a["name"]))
            return put(UNK)
        if op == "cmp":
            r = self.compare(S, a["op"], V(a["l"]), V(a["r"]))
            return put(UNK if r is None else K(r))
        if op == "unop":
            if a["op"] == "Not":
                r = self.truth(S, V(a["v"]))
                return put(UNK if r is None else K(not r))
            v = V(a["v"])
            if a["op"] == "USub" and v[0] == "k" and isinstance(v[1], (int, float)):
                return put(K(-v[1]))
            return put(UNK)
        if op in ("bin", "augop"):
            return put(self.add(S, a["op"], V(a["l"]), V(a["r"])))
        if op == "concat":
            vs = [V(p) if isinstance(p, str) else UNK for p in a["parts"]]
            v = vs[0] if vs else K("")
            for w in vs[1:]:
                v = self.add(S, "Add", v, w)
            return put(v)
        if op == "fmt":
            return put(UNK)
        if op == "sub":
            return put(self.index(S, V(a["obj"]), V(a["idx"])))
        if op == "slice":
            return put(self.cut(S, V(a["obj"]), *[V(a[k]) if a.get(k) is not None else None for k in ("lo", "hi")]))
        if op == "build":
            vs = [V(p) if isinstance(p, str) else UNK for p in a["parts"]]
            if vs and all(v[0] == "k" for v in vs):
                return put(("seq", tuple(v[1] for v in vs)))
            return put(NN if vs else UNK)
        if op == "builddict":
            return put(NN if a["items"] else UNK)
        if op == "branch":
            t = self.truth(S, V(a["c"]))
            return [(cid, k, env) for k, l in n.succ if l not in ("T", "F") or t is None or (l == "T") == t]
        if op == "next":
            return self.iterate(cid, pc, n, env, S, V)
        if op == "call":
            return self.call(cid, pc, n, env, S, ended, V, put)
        if op == "ret":
            return self.back(cid, V(a["src"]), env)
        if op == "exit":
            return self.back(cid, K(None), env)
        if op in ("excexit",):
            return []
        if op == "raise":
            raise Raises()
        if op == "loophead":
            return [(cid, t, env) for t in go]
        if op == "setattr" and ("field", a["name"]) in env:
            e = dict(env)
            e[("field", a["name"])] = V(a["src"])
            return [(cid, t, e) for t in go]
        if op in ("setattr", "setsub", "delsub"):
            return [(cid, t, env) for t in go]
        if op == "unpack":
            o = V(a["src"])
            if o == K(None):
                raise Raises()
            if o[0] == "seq" and isinstance(a.get("i"), int) and a["i"] < len(o[1]):
                return put(K(o[1][a["i"]]))
            return put(UNK)
        if n.dst is not None:
            return put(UNK)
        return [(cid, t, env) for t in go]

    def iterate(self, cid, pc, n, env, S, V):
        it = n.a["it"]
        item = [t for t, l in n.succ if l == "item"]
        done = [t for t, l in n.succ if l == "done"]
        v = V(it)
        if v == K(None):
            raise Raises()
        key = (cid, "@" + it)
        i = env.get(key, 0)
        if v[0] == "s" or (v[0] == "k" and isinstance(v[1], str)) or v[0] == "seq":
            ln = self.length(S, v) if v[0] == "s" else len(v[1])
            if ln != "?" and ln <= 64:
                if i < ln:
                    e = dict(env)
                    e[key] = i + 1
                    e[(cid, n.dst)] = ("s", v[1] + i, v[1] + i + 1) if v[0] == "s" else K(v[1][i])
                    return [(cid, t, e) for t in item]
                e = dict(env)
                e.pop(key, None)
                return [(cid, t, e) for t in done]
        # a collection ends some time: rounds of it are not followed
        e = dict(env)
        e[(cid, n.dst)] = UNK
        if i:
            return [(cid, t, {k: w for k, w in env.items() if k != key}) for t in done]
        e[key] = 1
        return [(cid, t, e) for t in item] + [(cid, t, dict(env)) for t in done]

    def call(self, cid, pc, n, env, S, ended, V, put):
        fs = self.F.vals(cid, pc, n.a["f"])
        args = [V(r) for r in n.a["args"] if isinstance(r, str)]
        star = len(args) != len(n.a["args"])
        kws = {k: V(r) for k, r in n.a["kws"]}
        fv = V(n.a["f"])
        gv = {self.given.get(method_name(f)) for f in fs}
        if len(gv) == 1 and None not in gv:
            return put(next(iter(gv)))
        kinds = {self.reader(f) for f in fs}
        if kinds and kinds <= {"peek", "read"} and len(kinds) == 1:
            kind = next(iter(kinds))
            cnt = args[0] if args else kws.get("n", K(1 if kind == "peek" else -1))
            if cnt == K(None):
                raise Raises()
            empty = S[0] == {EOF}
            if not empty and EOF in S[0]:
                raise Split(0, [frozenset([EOF]), S[0] - {EOF}])
            if cnt[0] == "k" and cnt[1] == 0:
                return put(UNK)
            if kind == "read":
                if not empty and cnt[0] == "?":
                    return put(UNK)         # may have taken nothing
                return put(K(None)) if empty else []
            if empty:
                return put(K(None))
            if cnt[0] == "k" and isinstance(cnt[1], int):
                return put(("s", 0, POS + 5 if cnt[1] < 0 else min(cnt[1], POS + 5)))
            return put(NN)
        if fv[0] != "m" and args and args[-1] == K("") and {method_name(f) for f in fs} == {"sub"}:
            return put(K(""))           # nothing to replace
        if fv[0] == "m":
            return put(self.method(S, fv[1], fv[2], args))
        ent = self.F.called.get((cid, pc), ())
        if ent:
            out = []
            seen = set()
            for c in sorted(ent):
                f = self.I.ctxs[c].func
                if f.qual in seen:
                    continue
                seen.add(f.qual)
                if f.qual.rsplit(".", 1)[-1] == "__init__" or f.is_gen:
                    return put(NN)
                ps = f.params()
                off = 1 if any(t.k in ("bound", "class") and True for t in fs) else 0
                e = {k: v for k, v in env.items() if k[0] != c}
                for p in ps:
                    e[(c, p)] = UNK
                for p, d in defaults(f).items():
                    e[(c, p)] = d
                if not star:
                    for p, v in zip(ps[off:], args):
                        e[(c, p)] = v
                for p, v in kws.items():
                    if p in ps:
                        e[(c, p)] = v
                ir = self.I.ctxs[c].ir
                ev = next(i for i, x in enumerate(ir.nodes) if x.op == "entry")
                out.append((c, ev, e))
            return out
        names = {self.A.F.name(f) for f in fs}
        if len(names) == 1:
            nm = next(iter(names))
            if nm in ("len", "ord", "bool", "str", "int", "float", "chr") and len(args) == 1 and not kws:
                v = args[0]
                if v == K(None) and nm not in ("bool", "str"):
                    raise Raises()
                if nm == "len":
                    if v[0] == "rest":
                        return put(("restlen",))
                    if v[0] == "s":
                        k = self.length(S, v)
                        return put(UNK if k == "?" else K(k))
                    if v[0] in ("k", "seq"):
                        try:
                            return put(K(len(v[1])))
                        except TypeError:
                            raise Raises()
                    return put(UNK)
                if nm == "ord":
                    if v[0] == "s":
                        k = self.length(S, v)
                        if k == "?":
                            return put(UNK)
                        if k != 1:
                            raise Raises()
                        return put(("ord", v[1]))
                    return put(UNK)
                if nm == "bool":
                    t = self.truth(S, v)
                    return put(UNK if t is None else K(t))
                if nm == "str" and v[0] == "s":
                    return put(v)
        if any(f.k == "class" for f in fs):
            return put(NN)
        return put(UNK)

    def back(self, cid, v, env):
        c = self.I.ctxs[cid]
        if c.csid is None:
            return []
        k = self.I.states[c.csid][:2]
        n = self.I.ctxs[k[0]].ir.nodes[k[1]]
        e = {x: y for x, y in env.items() if x[0] != cid}
        if n.dst is not None:
            e[(k[0], n.dst)] = v
            e.pop((k[0], "@" + n.dst), None)
        return [(k[0], t, e) for t, l in n.succ if l != "exc"]


def method_name(f):
    if f.k in ("meth", "attr", "bound"):
        return f.a[1].rsplit(".", 1)[-1] if isinstance(f.a[1], str) else None
    return None


def defaults(f):
    a = getattr(f.node, "args", None)
    out = {}
    if a is None:
        return out
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        out[p.arg] = K(d.value) if isinstance(d, ast.Constant) else UNK
    return out


def locals_of(ir):
    m = ir.rdmemo.get("!locals")
    if m is None:
        m = ir.rdmemo["!locals"] = {n.dst for n in ir.nodes if n.dst is not None}
    return m


def cycle(succ):
    """A cycle in a finite graph."""
    idx, low, onst, stack, n = {}, {}, set(), [], 0
    for root in succ:
        if root in idx:
            continue
        work = [(root, iter(succ[root]))]
        idx[root] = low[root] = n; n += 1
        stack.append(root); onst.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in succ:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n; n += 1
                    stack.append(w); onst.add(w)
                    work.append((w, iter(succ[w])))
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = stack.pop(); onst.discard(w); comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in succ[v]:
                        return comp[::-1]
    return None
