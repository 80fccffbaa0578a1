"""C38: including a template opens one scope and closes it again; scopes have to balance."""
import ast, json, re
from engine.q import *
from engine.seqs import *
from engine.seqs import MARK
from checks.c36 import Ledger, funs, give
from checks.out_common import synth, manipulators

TECHNIQUE = "abstract interpretation of the template step over every sequence of scope commands, with a typestate per scope: which dictionary holds its variables, opened by push, closed by pop"
DEPTH = 3
KEYS = ("k", "e0", "e1")


def sym(n):
    return ("sym", "str", n)


def check(R):
    R.rule("own", "a variable is defined in and looked up from the innermost open scope only, and a new scope starts without variables")
    R.rule("include", "what a template is replaced with opens one scope, defines exactly the given variables, holds the template's content and closes the scope")
    R.rule("left", "no scope command stays in the page")
    R.rule("balance", "a page which leaves a scope open, or closes one that is not open, fails")
    n = 0
    for c in manipulators(R.p):
        src = "".join(ast.unparse(m.node) for k in R.p.mro(c) for m in k.methods.values())
        if "template" not in c.name.lower() or "start_mark" not in c.methods and "continue_mark" not in c.methods:
            continue
        n += 1
        for mode in ("build", "scan"):
            one(R, c, mode)
    R.need("template steps", n)


DRIVE = """from %s import %s as M_
def drive(%s, any_, token_, plain_, given_, end_, built_):
    m = M_(%s)
    while any_():
        t = token_()
        if m.start_mark(t):
            given_(m.continue_mark(t))
        else:
            plain_(t)
    end_()
    m.%s_result()
    built_()
"""


def one(R, c, mode):
    ps = R.p.find_method(c, "__init__").params()[1:]
    name = "vpscope_%s_%s" % (mode, c.qual.replace(".", "_"))
    synth(R.p, name, DRIVE % (c.module.name, c.name, ", ".join(ps), ", ".join(ps), mode))
    q = name + ".drive"
    own = {k.module.name for k in R.p.mro(c)} | {name}
    A = Ana(R.p, [(q, {}, None)], inline=lambda f: f.module.name in own)
    R.uses(A)
    s = Scopes(A)
    s.mods = own
    s.depth = DEPTH if mode == "build" else 2
    cid = A.eid[q]
    env = {(cid, k): ("fn", k) for k in ("any_", "token_", "plain_", "given_", "end_", "built_")}
    env.update({(cid, "mode"): K(mode), ("led", "SC"): (K(None),), ("led", "P"): (), ("led", "W"): (), ("led", "CMD"): "", ("led", "did"): "", ("led", "E"): False})
    if "relpath" in ps:
        env[(cid, "relpath")] = sym("path")
    s.run(cid, env)
    give(R, s, "%s (%s)" % (c.qual.replace("vanillaplusjs.", ""), mode), ("own", "include", "left", "balance"))


PLAIN = ("tok", K("Characters"), K("text"))
CONTENT = ("tok", K("Characters"), K("content"))


def command(kind, *items):
    return ("tok", K("Comment"), ("text", (K("[%s: " % kind), ("json", items), K("]"))))


PUSH = command("STACK", K("push"), sym("path"))
POP = command("STACK", K("pop"))
DEFINE = command("STACK", K("define"), sym("k"), sym("v"))
RETRIEVE = command("STACK", K("retrieve"), sym("k"))
GIVEN = {"t": (), "u": ((sym("e0"), sym("v0")),), "w": ((sym("e0"), sym("v0")), (sym("e1"), ("dspec", ((K("type"), K("variable")), (K("name"), sym("k"))))))}
TEMPLATES = [command("TEMPLATE", sym("t"))] + [command("TEMPLATE", sym(k), ("dspec", v)) for k, v in sorted(GIVEN.items()) if v]


def sample(v):
    """The text which stands for an unknown one."""
    if v[0] == "k":
        return v[1]
    if v[0] == "sym":
        return "s" + v[2]
    if v[0] == "dspec":
        return {sample(a): sample(b) for a, b in v[1]}
    if v[0] == "json":
        return json.dumps([sample(x) for x in v[1]])
    if v[0] == "text":
        return "".join(sample(x) for x in v[1])
    raise GiveUp("a text which is not known: %s" % (v,))


def what(t):
    """The command which a comment stands for."""
    if t[1] == K("Comment") and t[2][0] == "text":
        js = [x for x in t[2][1] if x[0] == "json"]
        if len(js) == 1 and js[0][1]:
            x = js[0][1][0]
            if "TEMPLATE" in sample(t[2]):
                return "template"
            return x[1] if x[0] == "k" else None
    return None


class Scopes(Ledger):
    strict = True
    MAX = 200000
    MOST = 12

    def enter(self, f):
        return f.module.name in self.mods

    def change(self, env, v):
        pass

    def report(self, rule, msg):
        if rule != "assert":
            super().report(rule, msg)

    # ---- scopes ---------------------------------------------------------------------------------------------------
    def entries(self, env, d):
        p = env[("list", d[1])][1:]
        return [(p[i][1] if p[i][0] == "v" else p[i], p[i + 1][1] if p[i + 1][0] == "v" else p[i + 1]) for i in range(0, len(p), 2)]

    def dictof(self, env, items, tag=MARK):
        return ("D", self.new(env, (tag,) + tuple(self.elem(x) for kv in items for x in kv))[1])

    def bind(self, env, d, reading):
        """The dictionary d is taken to hold the variables of the innermost scope; env or None."""
        SC = self.led("SC")
        if SC[-1] == d:
            return env
        if SC[-1] != K(None):
            self.report("own", "a variable is %s another scope than the innermost one" % ("looked up in" if reading else "defined in"))
            return None
        if d in SC:
            self.report("own", "two scopes share their variables")
            return None
        if self.entries(env, d):
            self.report("own", "a new scope already has variables")
            return None
        return self.with_(env, SC=SC[:-1] + (d,))

    def access(self, env, d, key, reading):
        if key[0] != "sym" or key[2] not in KEYS or env[("list", d[1])][0] != MARK:
            return env
        if not reading and self.led("CMD") not in ("define",):
            if self.led("CMD") in ("push", "pop", "retrieve"):
                self.report("own", "a variable is set although nothing is defined")
                return None
            raise GiveUp("a variable is set elsewhere")
        if reading and self.led("CMD") == "define":
            return env
        env = self.bind(env, d, reading)
        if env is not None and not reading:
            env = self.with_(env, did="define")
        return env

    # ---- hooks ----------------------------------------------------------------------------------------------------
    def hook(self, cid, pc, n, env, fs, fv, args, put):
        nm = self.name(fs, fv)
        if fv[0] == "fn":
            return self.asked(cid, n, env, nm, args, put)
        kws = {k: self.val(cid, pc, env, r) for k, r in n.a["kws"]}
        allv = args + list(kws.values())
        if fv[0] == "m" and fv[1][0] == "match" and nm == "group":
            return put(fv[1][1])
        if nm == "loads" and args and args[0][0] == "json":
            e = dict(env)
            v = self.made(e, args[0])
            return self.to(cid, n, e, v)
        if nm == "dumps" and args:
            if args[0][0] == "L":
                return put(("json", tuple(self.spec(env, self.item(p)) for p in env[("list", args[0][1])])))
            raise GiveUp("dumps of something")
        if nm == "str" and len(args) == 1:
            return put(args[0])
        if nm in ("match", "fullmatch", "search") and args and args[0][0] in ("text", "k", "sym"):
            return self.matched(n, env, fs, nm, args[0], put)
        if fv[0] == "m" and fv[1][0] == "tok" and nm == "get" and args:
            i = {"type": 1, "data": 2}.get(args[0][1] if args[0][0] == "k" else None)
            return put(fv[1][i] if i else UNK)
        if fv[0] == "m" and fv[1][0] == "sym":
            return put(sym("path") if nm in ("replace", "strip", "lstrip", "rstrip", "lower", "removeprefix", "format", "join") else UNK)
        if nm in ("join", "normpath", "relpath", "abspath", "dirname"):
            return put(sym("path"))
        if fv[0] == "m" and fv[1][0] == "D":
            return self.dictop(cid, n, env, fv[1], nm, args, put)
        if nm == "tokenize":
            e, e2 = dict(env), self.with_(env, E=True)
            return self.to(cid, n, e, self.new(e, (("v", CONTENT),))) + self.to(cid, n, e2, self.new(e2, ()))
        if nm == "isinstance" and len(args) == 2:
            return put(self.isa(n, args[0]))
        if nm == "len" and len(args) == 1 and args[0][0] == "L":
            return put(K(len(env[("list", args[0][1])])))
        if nm == "len" and len(args) == 1 and args[0][0] == "D":
            return put(K(len(self.entries(env, args[0]))))
        if nm == "dict" and len(args) <= 1 and not kws:
            e = dict(env)
            if args and args[0][0] != "D":
                raise GiveUp("dict of something")
            return self.to(cid, n, e, self.dictof(e, self.entries(env, args[0]) if args else ()))
        if nm in ("list", "tuple", "iter", "sorted", "set") and len(args) == 1 and args[0][0] == "D":
            e = dict(env)
            return self.to(cid, n, e, self.new(e, [self.elem(k) for k, v in self.entries(env, args[0])]))
        if nm in ("ChainMap", "copy", "deepcopy"):
            raise GiveUp(nm)
        if nm and nm.endswith("Token"):
            if "type" in kws:
                if kws["type"] == K("Comment") and kws.get("data", UNK)[0] not in ("text", "k"):
                    raise GiveUp("a comment whose text is not known")
                return put(("tok", kws["type"], kws.get("data", UNK)))
        for f in fs:
            c = self.A.p.classes.get(f.a[0]) if f.k == "class" else None
            if c is not None and not self.A.p.find_method(c, "__init__") and len(fs) == 1 and c.module.name in self.mods:
                return self.object(cid, n, env, c, args, kws)
        return None

    def object(self, cid, n, env, c, args, kws):
        names = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        got = dict(zip(names, args))
        got.update(kws)
        e = dict(env)
        for x in c.node.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id not in got and x.value is not None:
                u = ast.unparse(x.value).replace(" ", "")
                if "default_factory=dict" in u or "default_factory=lambda:{}" in u:
                    got[x.target.id] = self.dictof(e, ())
                elif isinstance(x.value, ast.Constant):
                    got[x.target.id] = K(x.value.value)
                else:
                    raise GiveUp("default value")
        return self.to(cid, n, e, ("O", self.new(e, (MARK,) + tuple(self.elem(v) for k in sorted(got) for v in (K(k), got[k])))[1]))

    def asked(self, cid, n, env, nm, args, put):
        was = self.led("did")
        P, SC, W = self.led("P"), self.led("SC"), self.led("W")
        if nm == "any_":
            return put(UNK)
        if nm == "token_":
            env = self.with_(env, did="")
            if P:
                t = P[0]
                ts = [(t, P[1:])]
                if t == CONTENT:
                    ok = self.inside(env)
                    if not ok:
                        return []
                    ts += [(RETRIEVE, P[1:])]
            else:
                if W:
                    if len(SC) != W[0]:
                        self.report("include", "the scopes after a template are not those before it")
                        return []
                    env = self.with_(env, W=())
                ts = [(x, ()) for x in (PLAIN, POP, DEFINE, RETRIEVE)]
                if len(SC) < self.depth:
                    ts += [(x, ()) for x in [PUSH] + TEMPLATES]
            out = []
            for t, rest in ts:
                e = self.with_(env, P=rest, CMD=what(t) or "")
                if what(t) == "template":
                    js = [x for x in t[2][1] if x[0] == "json"][0][1]
                    e[("led", "W")] = (len(SC), js[1][1] if len(js) > 1 else (), "no")
                out += self.to(cid, n, e, t)
            return out
        cmd = self.led("CMD")
        if nm in ("plain_", "given_"):
            env = self.env = self.with_(env, CMD="", did="")
        if nm == "plain_":
            if cmd:
                self.report("left", "the command %s stays in the page and is not carried out" % cmd)
                return []
            return self.to(cid, n, env, K(None))
        if nm == "given_":
            v = args[0]
            if v[0] == "k" and v[1] is None:
                raise GiveUp("the step takes more than one token")
            ps = env[("list", v[1])] if v[0] == "L" else None
            if ps is None or any(p[0] != "v" for p in ps):
                raise GiveUp("the replacement is not known")
            if any(p[1] == UNK or p[1][0] != "tok" for p in ps):
                raise GiveUp("a token of the replacement is not known")
            e = dict(env)
            if cmd == "push":
                e[("led", "SC")] = SC + (K(None),)
            elif cmd == "pop":
                if len(SC) < 2:
                    self.report("balance", "a scope is closed although none is open")
                    return []
                e[("led", "SC")] = SC[:-1]
            elif cmd == "define" and was != "define":
                self.report("own", "a variable is not defined where the page says so")
                return []
            elif cmd == "template":
                toks = [p[1] for p in ps]
                if CONTENT not in toks and not self.led("E"):
                    self.report("include", "the template's content is not placed")
                    return []
                e[("led", "P")] = tuple(toks) + P
                e[("led", "E")] = False
                return self.to(cid, n, e, K(None))
            new = tuple(p[1] for p in ps if what(p[1]))
            e[("led", "P")] = new + P
            return self.to(cid, n, e, K(None))
        if nm == "end_":
            return [] if P or W and len(SC) != W[0] else put(K(None))
        if nm == "built_":
            if len(SC) > 1:
                self.report("balance", "a page which leaves a scope open is accepted")
                return []
            return put(K(None))
        return put(UNK)

    def inside(self, env):
        W, SC = self.led("W"), self.led("SC")
        if not W:
            raise GiveUp("content")
        if len(SC) != W[0] + 1:
            self.report("include", "the template's content is inside %d scopes of its own" % (len(SC) - W[0]))
            return False
        want = [k for k, v in W[1]]
        if SC[-1] == K(None):
            if want:
                self.report("include", "the template's content does not see the given variables")
                return False
            return True
        have = [k for k, v in self.entries(env, SC[-1])]
        if sorted(have, key=repr) != sorted(want, key=repr):
            self.report("include", "the scope of the template's content does not hold exactly the given variables")
            return False
        for k, v in self.entries(env, SC[-1]):
            w = dict(W[1])[k]
            if w[0] != "dspec" and v[0] == "sym" and v != w:
                self.report("include", "a given variable has another value in the template's content")
                return False
        return True

    # ---- values ---------------------------------------------------------------------------------------------------
    def made(self, env, v):
        if v[0] == "json":
            return self.new(env, [self.elem(self.made(env, x)) for x in v[1]])
        if v[0] == "dspec":
            return self.dictof(env, [(a, self.made(env, b)) for a, b in v[1]], ("v", ("k", "%heap", "given")))
        return v

    def spec(self, env, v):
        if v[0] == "D":
            return ("dspec", tuple((a, self.spec(env, b)) for a, b in self.entries(env, v)))
        return v

    def matched(self, n, env, fs, how, text, put):
        src = None
        for f in fs:
            m = re.search(r"global\(g:([\w.]+)\.(\w+)@\d+\)", show(f))
            if m is None or m.group(1) not in self.A.p.modules:
                raise GiveUp("pattern")
            for x in self.A.p.modules[m.group(1)].tree.body:
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == m.group(2) for t in x.targets) or isinstance(x, ast.AnnAssign) and getattr(x.target, "id", None) == m.group(2):
                    src = x.value
        if not (isinstance(src, ast.Call) and ast.unparse(src.func) in ("re.compile", "compile") and src.args and isinstance(src.args[0], ast.Constant) and isinstance(src.args[0].value, str)):
            raise GiveUp("pattern")
        flags = 0
        for y in src.args[1:] + [k.value for k in src.keywords]:
            for z in re.findall(r"[A-Z]+", ast.unparse(y)):
                flags |= getattr(re, z, 0)
        t = sample(text)
        m = getattr(re.compile(src.args[0].value, flags), how)(t)
        if m is None:
            return put(K(None))
        js = [x for x in text[1] if x[0] == "json"] if text[0] == "text" else []
        if len(js) != 1 or sample(js[0]) not in {(g or "").strip() for g in m.groups()}:
            return put(UNK)
        return put(("match", js[0]))

    def isa(self, n, v):
        node = n.a.get("node")
        if node is None or len(node.args) < 2:
            return UNK
        x = node.args[1]
        names = {y.id if isinstance(y, ast.Name) else getattr(y, "attr", "") for y in (x.elts if isinstance(x, ast.Tuple) else [x])}
        k = {"sym": "str", "L": "list", "D": "dict"}.get(v[0])
        if v[0] == "k":
            k = type(v[1]).__name__
        return K(k in names) if k else UNK

    def truth(self, S, v):
        if v[0] in ("tok", "match", "O", "json"):
            return True
        if v[0] == "D":
            return bool(self.entries(self.env, v))
        if v[0] == "sym":
            return None
        return super().truth(S, v)

    def exec(self, cid, pc, n, env, S, ended, head):
        self.env = env
        op, a = n.op, n.a
        V = lambda r: self.val(cid, pc, env, r)
        put = lambda v: self.to(cid, n, env, v)
        if op == "concat" and a.get("kind") is None:
            ps = []
            for r in a["parts"]:
                v = V(r)
                if v[0] == "text":
                    ps += v[1]
                elif v[0] in ("json", "sym") or v[0] == "k" and isinstance(v[1], str):
                    ps.append(v)
                else:
                    return put(UNK)
            return put(("text", tuple(ps)))
        if op == "bin" and a["op"] == "Add":
            l, r = V(a["l"]), V(a["r"])
            if {l[0], r[0]} & {"text", "json", "sym"}:
                ps = []
                for v in (l, r):
                    if v[0] not in ("text", "json", "sym", "k"):
                        return put(UNK)
                    ps += v[1] if v[0] == "text" else [v]
                return put(("text", tuple(ps)))
        if op == "builddict":
            e = dict(env)
            items = []
            for k, v in a["items"]:
                if k is None:
                    d = V(v)
                    if d[0] != "D":
                        raise GiveUp("dict of something")
                    items += self.entries(env, d)
                else:
                    items.append((V(k), V(v)))
            items = list(dict(items).items())
            if any(k == K("type") for k, v in items):
                return put(("tok", dict(items)[K("type")], dict(items).get(K("data"), UNK)))
            return self.to(cid, n, e, self.dictof(e, items))
        if op == "attr":
            o = V(a["obj"])
            if o[0] == "O":
                for k, v in self.entries(env, o):
                    if k == K(a["name"]):
                        return put(v)
                raise GiveUp("attribute of an object")
            if o[0] in ("D", "match", "tok", "sym", "text", "json"):
                return put(("m", o, a["name"]))
        if op == "setattr":
            o = V(a["obj"])
            if o[0] == "O":
                items = dict(self.entries(env, o))
                items[K(a["name"])] = V(a["src"])
                e = dict(env)
                e[("list", o[1])] = (MARK,) + tuple(self.elem(x) for kv in sorted(items.items()) for x in kv)
                return [(cid, t, e) for t, l in n.succ if l not in ("exc", "excret")]
        if op == "sub":
            o, i = V(a["obj"]), V(a["idx"])
            if o[0] == "tok":
                return put({K("type"): o[1], K("data"): o[2]}.get(i, UNK))
            if o[0] == "match":
                return put(o[1])
            if o[0] == "D":
                e = self.access(env, o, i, True)
                if e is None:
                    return []
                for k, v in self.entries(e, o):
                    if k == i:
                        return self.to(cid, n, e, v)
                raise Thrown("KeyError")
            if o[0] == "L" and i[0] == "k" and type(i[1]) is int:
                p = env[("list", o[1])]
                if all(x[0] != "all" for x in p):
                    if -len(p) <= i[1] < len(p):
                        return put(self.item(p[i[1]]))
                    raise Thrown("IndexError")
        if op in ("setsub", "delsub"):
            o, i = V(a["obj"]), V(a["idx"])
            if o[0] == "D":
                if op == "delsub":
                    raise GiveUp("a variable is deleted")
                e = self.access(env, o, i, False)
                if e is None:
                    return []
                self.setitem(e, o, i, V(a["src"])) if e is not env else None
                if e is env:
                    e = dict(env)
                    self.setitem(e, o, i, V(a["src"]))
                return [(cid, t, e) for t, l in n.succ if l not in ("exc", "excret")]
        if op == "cmp":
            l, r = V(a["l"]), V(a["r"])
            if a["op"] in ("In", "NotIn") and r[0] == "D":
                e = self.access(env, r, l, True)
                if e is None:
                    return []
                hit = any(k == l for k, v in self.entries(e, r))
                return self.to(cid, n, e, K(hit == (a["op"] == "In")))
            if a["op"] in ("Is", "IsNot", "Eq", "NotEq") and (l == K(None) or r == K(None)):
                x = r if l == K(None) else l
                if x[0] in ("tok", "match", "D", "O", "L", "sym", "text", "json"):
                    return put(K(a["op"] in ("IsNot", "NotEq")))
            if l[0] == r[0] == "k" and a["op"] in ("Eq", "NotEq"):
                return put(K((l[1] == r[1]) == (a["op"] == "Eq")))
            if l[0] == r[0] == "k" and a["op"] in ("Lt", "LtE", "Gt", "GtE") and type(l[1]) is int and type(r[1]) is int:
                return put(K({"Lt": l[1] < r[1], "LtE": l[1] <= r[1], "Gt": l[1] > r[1], "GtE": l[1] >= r[1]}[a["op"]]))
            if a["op"] in ("In", "NotIn") and r[0] in ("seq", "k") and l[0] == "k":
                return put(K((l[1] in r[1]) == (a["op"] == "In")))
        return super().exec(cid, pc, n, env, S, ended, head)

    def setitem(self, e, o, i, v):
        items = dict(self.entries(e, o))
        items[i] = v
        self.replace(e, o, items)

    def replace(self, e, o, items):
        tag = e[("list", o[1])][0]
        e[("list", o[1])] = (tag,) + tuple(self.elem(x) for kv in sorted(items.items(), key=repr) for x in kv)

    def dictop(self, cid, n, env, d, nm, args, put):
        es = self.entries(env, d)
        e = dict(env)
        if nm in ("get", "pop", "setdefault") and args:
            e = self.access(env, d, args[0], nm == "get")
            if e is None:
                return []
            v = dict(es).get(args[0], args[1] if len(args) > 1 else None)
            if v is None and nm == "pop":
                raise Raises()
            v = K(None) if v is None else v
            if nm != "get":
                e = dict(e)
                left = dict(es)
                left.pop(args[0], None) if nm == "pop" else left.setdefault(args[0], v)
                self.replace(e, d, left)
            return self.to(cid, n, e, v)
        if nm == "keys":
            return self.to(cid, n, e, self.new(e, [self.elem(k) for k, v in es]))
        if nm == "values":
            return self.to(cid, n, e, self.new(e, [self.elem(v) for k, v in es]))
        if nm == "items":
            ps = []
            for k, v in es:
                ps.append(("v", self.new(e, (self.elem(k), self.elem(v)))))
            return self.to(cid, n, e, self.new(e, ps))
        if nm == "copy":
            return self.to(cid, n, e, self.dictof(e, es))
        if nm == "update" and len(args) == 1 and args[0][0] == "D":
            for k, v in self.entries(env, args[0]):
                e2 = self.access(e, d, k, False)
                if e2 is None:
                    return []
                e = dict(e2)
                self.setitem(e, d, k, v)
            return self.to(cid, n, e, K(None))
        raise GiveUp("dict operation %s" % nm)
