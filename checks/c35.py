"""C35: inline scripts and styles are moved into files of their own."""
import ast, posixpath
from engine.q import *
from engine.seqs import *
from engine.seqs import MARK
from checks.c36 import give
from checks.c38 import Scopes
from checks.out_common import synth, manipulators, drive_handler, handlers

TECHNIQUE = "abstract interpretation of the outlining step over every sequence of inline and other blocks, with paths as constants, a typestate per generated file (opened, written, closed, built) and its hash as a symbol; must-analysis for the step being part of every page's rewriting"
RELPATHS = ("src/public/blog/post.html", "src/public/post.html")
ROOT = "R00T"


def check(R):
    R.rule("left", "every inline script and style block is taken by the step, and what it is replaced with holds no inline block")
    R.rule("content", "the generated file holds exactly the block's content and is closed when it is built, as a script or a stylesheet")
    R.rule("own", "no two blocks of a page are written to the same file")
    R.rule("reference", "the block is replaced by a reference to its generated file, with the hash of that file")
    R.rule("attributes", "the reference keeps the element's other attributes")
    R.rule("applied", "the step is part of the rewriting of every page that is published")
    n = 0
    good = []
    for c in manipulators(R.p):
        src = "".join(ast.unparse(m.node) for k in R.p.mro(c) for m in k.methods.values())
        if ".html." not in c.module.name or ".build_file(" not in src:
            continue
        n += 1
        good.append(c)
        used = [one(R, c, relpath) for relpath in RELPATHS]
        R.obl(not used[0] & used[1], "own", c.qual + ":pages", "blocks of different pages are written to the same file: %s" % sorted(used[0] & used[1]), "%s:%d" % (c.module.path if hasattr(c.module, "path") else c.module.name, c.node.lineno), ())
    R.need("outlining steps", n)
    applied(R, good)


def others(p, c):
    """Blocks with an attribute, and a value of it, which the step's module looks for."""
    names, values = set(), set()
    for m in ast.walk(c.module.tree if hasattr(c.module, "tree") else c.node):
        if isinstance(m, ast.Tuple) and len(m.elts) == 2 and isinstance(m.elts[0], ast.Constant) and m.elts[0].value is None and isinstance(m.elts[1], ast.Constant):
            names.add(m.elts[1].value)
        if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ("get", "pop", "setdefault") and m.args and isinstance(m.args[0], ast.Constant):
            names.add(m.args[0].value)
        if isinstance(m, ast.Compare):
            for x in [m.left] + m.comparators:
                for y in [x] + (x.elts if isinstance(x, (ast.Tuple, ast.List, ast.Set)) else []):
                    if isinstance(y, ast.Constant):
                        values.add(y.value)
        if isinstance(m, ast.Subscript) and isinstance(m.slice, ast.Constant):
            names.add(m.slice.value)
        if isinstance(m, ast.Assign) and isinstance(m.value, ast.Constant):
            names.add(m.value.value)
        if isinstance(m, ast.IfExp):
            names |= {y.value for y in (m.body, m.orelse) if isinstance(y, ast.Constant)}
    text = lambda x: isinstance(x, str) and 0 < len(x) < 30 and x == x.strip() and "\n" not in x
    names = sorted(x for x in names if text(x) and x not in ("type", "name", "data", "script", "style") and "/" not in x) + ["type"]
    values = sorted(x for x in values if text(x) and x not in ("scan", "build", "StartTag", "EndTag", "Characters", "SpaceCharacters", "EmptyTag", "script", "style", "src"))
    out = []
    for kind in ("script", "style"):
        for nm in names[:12]:
            for v in [""] + values[:6]:
                if nm != "rel":
                    out.append((kind, ((nm, v),)))
    return out


DRIVE = """from %s import %s as M_
def drive(%s, any_, token_, inner_, plain_, given_):
    m = M_(%s)
    while any_():
        t = token_()
        if m.start_mark(t):
            r = m.continue_mark(t)
            while r is None:
                r = m.continue_mark(inner_())
            given_(r)
        else:
            plain_(t)
"""


def driven(R, c, i):
    ps = R.p.find_method(c, "__init__").params()[1:]
    name = "vpoutline_%d" % i
    synth(R.p, name, DRIVE % (c.module.name, c.name, ", ".join(ps), ", ".join(ps)))
    q = name + ".drive"
    own = {k.module.name for k in R.p.mro(c)} | {name}
    A = Ana(R.p, [(q, {}, None)], inline=lambda f: f.module.name in own)
    R.uses(A)
    return A, q, own, ps


def one(R, c, relpath):
    A, q, own, ps = driven(R, c, RELPATHS.index(relpath))
    files = explored(R, A, q, own, ps, c, relpath, BLOCKS, TWICE)
    extra = others(R.p, c)
    R.count("attributes tried", len(extra))
    for i in range(0, len(extra), 8):
        files |= explored(R, A, q, own, ps, c, relpath, extra[i:i + 8], 1)
    return files


def explored(R, A, q, own, ps, c, relpath, blocks, twice):
    s = ran(A, q, own, ps, relpath, blocks, twice)
    give(R, s, "%s (%s)" % (c.qual.replace("vanillaplusjs.", ""), relpath), ("left", "content", "own", "reference", "attributes"))
    return s.files


def ran(A, q, own, ps, relpath, blocks, twice):
    s = Blocks(A)
    s.mods = own
    s.blocks, s.twice = blocks, twice
    s.files = set()
    cid = A.eid[q]
    env = {(cid, k): ("fn", k) for k in ("any_", "token_", "inner_", "plain_", "given_")}
    for p in ps:
        env[(cid, p)] = {"mode": K("build"), "relpath": K(relpath)}.get(p, ("ctx",) if "context" in p else ("hd", "js") if "js" in p else ("hd", "css") if "css" in p else UNK)
    env.update({("led", "B"): (), ("led", "T"): "", ("led", "F"): (), ("led", "U"): (), ("led", "G"): ()})
    s.run(cid, env)
    return s


def applied(R, good):
    n = 0
    for m in handlers(R.p):
        if not m.endswith(".html") or m + ".build_file" not in R.p.funcs:
            continue
        n += 1
        A, q, ren = drive_handler(R.p, m, "build_file", manipulators(R.p))
        R.uses(A)
        gen = {sid for sid, f, args, kws, e in A.F.calls() if f.k == "class" and f.a[0] in {c.qual for c in good}}
        pub = {}
        for e in A.F.effects():
            if e.kind in ("write", "copy", "rename", "link", "symlink"):
                ts = [t for t in e.path] + [t for t in (e.other or ())]
                if any("relpath" in show(t) and "out" in show(t) and not show(t).rstrip("'>)}").endswith(".hash") for t in ts):
                    pub[e.sid] = e
        bad = A.F.guarded(set(pub), lambda s, t, l: s in gen, None, A.start(A.eid[q]))
        for s, e in sorted(pub.items()):
            R.obl(s not in bad, "applied", A.loc(s), "a page is published without its inline blocks having been moved", A.loc(s), ())
        R.count("places where a page is written", len(pub))
        for sid, f, args, kws, e in A.F.calls():
            k = R.p.classes.get(f.a[0]) if f.k == "class" else None
            if k is None or not {"handle_token", "consume_tokens"} <= set(k.methods) or not args + list(kws.values()):
                continue
            for t in (args + list(kws.values()))[0]:
                if t.k in ("list", "dict", "obj"):
                    es = A.I.elems(None, frozenset([t]))
                    R.obl(any(x.k in ("list", "any") or getattr(A.I.typeof(x), "qual", None) in {c.qual for c in good} for x in es), "applied", A.loc(sid) + ":steps",
                          "a page is rewritten by a list of steps which leaves its inline blocks where they are", A.loc(sid), ())
    R.need("page handlers", n)


# kind, what its attributes are
BLOCKS = [
    ("script", ()),
    ("script", (("type", "module"), ("defer", ""))),
    ("script", (("type", "application/json"), ("id", "x"), ("data-src", "y"))),
    ("style", ()),
    ("style", (("media", "print"), ("title", "t"))),
    ("style", (("type", "text/css"), ("class", "c d"))),
]
OTHERS = [("script", (("src", "/js/a.js"), ("async", ""))), ("p", (("class", "x"),))]
INNER = (("Characters", "a < b;"), ("SpaceCharacters", " \n"))
TWICE = 2
ALIEN = ("data-src", "defer", "media", "title", "id", "class")


class Blocks(Scopes):
    strict = True
    MAX = 60000
    depth = 0

    def access(self, env, d, key, reading):
        return env

    def thrown(self, cid, n, env):
        out = super().thrown(cid, n, env)
        if not out and n.op not in ("raise", "call") and self.led("B"):
            self.report("left", "a page with such a block fails")
        return out

    # ---- texts ----------------------------------------------------------------------------------------------------
    def join(self, vs):
        """A text made of others; None when one of them is no text."""
        out = []
        for v in vs:
            for x in v[1] if v[0] == "text" else (v,):
                if x[0] == "k" and out and out[-1][0] == "k":
                    out[-1] = K(str(out[-1][1]) + str(x[1]))
                else:
                    out.append(K(str(x[1])) if x[0] == "k" else x if x[0] == "hash" else ("any",))
        if not out:
            return K("")
        return out[0] if len(out) == 1 and out[0][0] == "k" else ("text", tuple(out))

    def dotted(self, fs):
        ns = {self.A.F.name(f) or "" for f in fs}
        return next(iter(ns)) if len(ns) == 1 else ""

    def pack(self, e, r):
        if isinstance(r, (list, tuple)) and not isinstance(r, str):
            return self.new(e, [("v", K(x)) for x in r])
        return K(r)

    # ---- hooks ----------------------------------------------------------------------------------------------------
    def hook(self, cid, pc, n, env, fs, fv, args, put):
        nm = self.name(fs, fv)
        if fv[0] == "fn":
            return self.asked(cid, n, env, nm, args, put)
        kws = {k: self.val(cid, pc, env, r) for k, r in n.a["kws"]}
        consts = all(a[0] == "k" for a in args) and all(v[0] == "k" for v in kws.values())
        e = dict(env)
        dn = self.dotted(fs)
        if fv[0] == "m":
            o = fv[1]
            if o[0] == "hd":
                return self.handled(cid, n, env, o[1], nm, args, kws, put)
            if o[0] == "file":
                return self.fileop(cid, n, env, o, nm, args, put)
            if o[0] == "rfile":
                return put(("hash", o[1]) if nm == "read" else K(None) if nm == "close" else o if nm == "__enter__" else UNK)
            if o[0] == "hash":
                return put(o if nm in ("strip", "rstrip", "lstrip", "decode", "removesuffix") else UNK)
            if o[0] == "tk":
                if nm == "get" and args:
                    return put(self.part(o, args[0]))
                if nm == "copy":
                    return put(o)
                raise GiveUp("token")
            if o[0] == "k" and isinstance(o[1], str):
                if nm == "join" and len(args) == 1:
                    p = self.parts(env, args[0])
                    if p is None or any(x[0] != "v" for x in p):
                        raise GiveUp("join")
                    vs = []
                    for i, x in enumerate(p):
                        vs += ([o] if i else []) + [x[1]]
                    return put(self.join(vs))
                if nm == "format" and not kws and o[1].count("{}") == len(args) and "{" not in o[1].replace("{}", ""):
                    vs = []
                    for i, x in enumerate(o[1].split("{}")):
                        vs += [K(x)] + args[i:i + 1]
                    return put(self.join(vs))
                if consts and nm != "format":
                    try:
                        r = getattr(o[1], nm)(*[a[1] for a in args], **{k: v[1] for k, v in kws.items()})
                    except Exception:
                        return put(UNK)
                    return self.to(cid, n, e, self.pack(e, r))
                return put(UNK)
            if o[0] == "D":
                return self.dictop(cid, n, env, o, nm, args, put)
            if o[0] == "text":
                return put(o if nm in ("replace", "strip", "encode") else UNK)
        if nm in ("join", "splitext", "dirname", "basename", "split", "normpath", "relpath", "commonpath") and ("path" in dn or dn == nm) and args:
            if not consts:
                return put(UNK)
            try:
                r = getattr(posixpath, nm)(*[a[1] for a in args], **{k: v[1] for k, v in kws.items()})
            except Exception:
                return put(UNK)
            if isinstance(r, tuple):
                return put(K(r))
            return put(K(r))
        if nm == "open" and args:
            return self.opened(cid, n, env, args, kws, put)
        if nm in ("fdopen", "mkstemp", "NamedTemporaryFile", "StringIO", "Path", "PurePath"):
            raise GiveUp(nm)
        if nm in ("urlencode", "quote", "quote_plus") and args:
            return put(self.query(env, args[0]))
        if nm == "str" and len(args) == 1:
            return put(self.join(args) if args[0][0] in ("k", "hash", "text") else args[0])
        if nm in ("min", "max", "int", "abs") and fv[0] != "m" and args and consts and not kws:
            try:
                return put(K({"min": min, "max": max, "int": int, "abs": abs}[nm](*[x[1] for x in args])))
            except Exception:
                raise Raises()
        if nm in ("next", "count") and fv[0] != "m":
            raise GiveUp(nm)
        if nm == "len" and len(args) == 1:
            if args[0][0] == "k" and isinstance(args[0][1], (str, tuple)):
                return put(K(len(args[0][1])))
            if args[0][0] == "D":
                return put(K(len(self.entries(env, args[0]))))
            p = self.parts(env, args[0])
            return put(K(len(p)) if p is not None else UNK)
        if nm == "isinstance" and len(args) == 2:
            return put(self.isa(n, args[0]))
        if nm == "dict" and len(args) <= 1:
            items = []
            if args:
                if args[0][0] == "tk":
                    if not kws:
                        return put(args[0])
                    raise GiveUp("token")
                items = self.entries(env, args[0]) if args[0][0] == "D" else [self.pair(env, x) for x in self.known(env, args[0])]
            items += [(K(k), v) for k, v in kws.items() if k]
            return self.to(cid, n, e, self.dictof(e, list(dict(items).items())))
        if nm in ("list", "tuple", "iter", "sorted") and len(args) == 1:
            if args[0][0] == "D":
                vs = [k for k, v in self.entries(env, args[0])]
            else:
                vs = self.known(env, args[0])
            if nm == "sorted" and all(x[0] == "k" for x in vs) and not kws:
                vs = sorted(vs, key=repr)
            return self.to(cid, n, e, self.new(e, [self.elem(x) for x in vs]))
        if nm == "HTMLToken":
            d = kws.get("data", UNK)
            if d[0] == "D":
                d = self.dictof(e, self.entries(e, d)) if not self.mark(e, d) else d
            return self.to(cid, n, e, ("tk", kws.get("type", UNK), kws.get("name", UNK), d))
        if nm in ("copy", "deepcopy") and len(args) == 1 and args[0][0] in ("tk", "D"):
            if args[0][0] == "D":
                return self.to(cid, n, e, self.dictof(e, self.entries(e, args[0])))
            return self.to(cid, n, e, args[0][:3] + (self.dictof(e, self.entries(e, args[0][3])) if args[0][3][0] == "D" else args[0][3],))
        for f in fs:
            c = self.A.p.classes.get(f.a[0]) if f.k == "class" else None
            if c is not None and not self.A.p.find_method(c, "__init__") and len(fs) == 1 and c.module.name in self.mods:
                return self.object(cid, n, env, c, args, kws)
        return None

    def mark(self, e, d):
        return True

    def known(self, env, v):
        p = self.parts(env, v)
        if p is None or any(x[0] == "all" for x in p):
            raise GiveUp("a list which is not known")
        return [self.item(x) for x in p]

    def pair(self, env, v):
        if v[0] == "k" and isinstance(v[1], tuple) and len(v[1]) == 2:
            return K(v[1][0]), K(v[1][1])
        p = self.known(env, v)
        if len(p) != 2:
            raise Raises()
        return p[0], p[1]

    def query(self, env, v):
        if v[0] in ("k", "text", "hash"):
            return v if v[0] != "hash" else ("text", (v,))
        items = self.entries(env, v) if v[0] == "D" else [self.pair(env, x) for x in self.known(env, v)]
        vs = []
        for i, (k, x) in enumerate(items):
            vs += ([K("&")] if i else []) + [k, K("="), x]
        return self.join(vs)

    def part(self, t, k):
        return {K("type"): t[1], K("name"): t[2], K("data"): t[3]}.get(k, UNK)

    # ---- files ----------------------------------------------------------------------------------------------------
    def opened(self, cid, n, env, args, kws, put):
        m = args[1] if len(args) > 1 else kws.get("mode", K("r"))
        path = args[0]
        if m[0] != "k" or path[0] != "k" or not isinstance(path[1], str):
            raise GiveUp("a file whose path is not known")
        path = posixpath.normpath(path[1])
        if "r" in m[1] and "+" not in m[1]:
            return put(("rfile", path))
        F, U = self.led("F"), self.led("U")
        self.files.add(path)
        if path in U:
            self.report("own", "two blocks of a page are written to the same file")
            return []
        text = dict(F).get(path, ("", ""))[0] if "a" in m[1] else ""
        G = dict(F)
        G[path] = (text, "open")
        return self.to(cid, n, self.with_(env, F=tuple(sorted(G.items()))), ("file", path))

    def fileop(self, cid, n, env, o, nm, args, put):
        F = dict(self.led("F"))
        if nm in ("write", "writelines") and args:
            if o[1] not in F or F[o[1]][1] != "open":
                self.report("content", "something is written to the generated file when it is closed")
                return []
            vs = [args[0]] if nm == "write" else self.known(env, args[0])
            if any(v[0] != "k" or not isinstance(v[1], str) for v in vs):
                raise GiveUp("content")
            F[o[1]] = (F[o[1]][0] + "".join(v[1] for v in vs), "open")
            return self.to(cid, n, self.with_(env, F=tuple(sorted(F.items()))), K(0))
        if nm == "close" and o[1] in F:
            F[o[1]] = (F[o[1]][0], "closed")
            return self.to(cid, n, self.with_(env, F=tuple(sorted(F.items()))), K(None))
        if nm in ("truncate", "seek"):
            raise GiveUp(nm)
        return put(K(None))

    def handled(self, cid, n, env, kind, nm, args, kws, put):
        if nm != "build_file":
            return put(UNK)
        args = args + [v for k, v in kws.items() if k != "build_context"]
        path = args[-1] if args else UNK
        if path[0] != "k" or not isinstance(path[1], str):
            raise GiveUp("which file is built")
        B, F = self.led("B"), dict(self.led("F"))
        full = posixpath.normpath(posixpath.join(ROOT, path[1]))
        if full not in F:
            self.report("content", "another file than the one the block was written to is built")
            return []
        if F[full][1] != "closed":
            self.report("content", "the generated file is built before it is closed")
            return []
        if not B or F[full][0] != self.led("T"):
            self.report("content", "the generated file does not hold exactly the content of the block")
            return []
        want = "js" if B[0] == "script" else "css"
        if kind != want or not path[1].endswith("." + want):
            self.report("content", "the block is not built as what it is")
            return []
        return self.to(cid, n, self.with_(env, G=(full,)), ("res",))

    # ---- what the page asks ---------------------------------------------------------------------------------------
    def asked(self, cid, n, env, nm, args, put):
        B, G = self.led("B"), self.led("G")
        if nm == "token_":
            out = []
            N = dict(env.get(("led", "N"), ()))
            for kind, at in self.blocks + OTHERS:
                e = dict(env)
                if kind == "script" and any(k == "src" for k, v in at) and (kind, at) not in OTHERS:
                    continue
                if (kind, at) not in OTHERS:
                    if N.get(kind, 0) >= self.twice or N and (self.twice == 1 or at not in ((), BLOCKS[-2][1])):
                        continue
                    M = dict(N)
                    M[kind] = M.get(kind, 0) + 1
                    e[("led", "N")] = tuple(sorted(M.items()))
                d = self.dictof(e, [(K((None, k)), K(v)) for k, v in at])
                e.update({("led", "B"): (kind, at), ("led", "T"): "", ("led", "F"): (), ("led", "G"): (), ("led", "I"): 0})
                out += self.to(cid, n, e, ("tk", K("StartTag"), K(kind), d))
            return out
        if nm == "inner_":
            i = self.led("I")
            if i == 9:
                self.report("left", "the end of a block is taken and nothing is given back")
                return []
            out = self.to(cid, n, self.with_(env, I=9), ("tk", K("EndTag"), K(B[0]), UNK))
            if i < (2 if sum(dict(env.get(("led", "N"), ())).values()) < 2 else 1):
                for ty, text in INNER:
                    out += self.to(cid, n, self.with_(env, I=i + 1, T=self.led("T") + text), ("tk", K(ty), UNK, K(text)))
            return out
        inline = B in self.blocks
        if nm == "plain_":
            if inline:
                self.report("left", "an inline %s%s is not taken and stays in the page" % (B[0], "" if not B[1] else " with attributes"))
                return []
            return self.to(cid, n, self.with_(env, B=()), K(None))
        if nm == "given_":
            if not inline:
                return self.to(cid, n, self.fresh_(env), K(None))
            if not self.fits(env, args[0]):
                return []
            return self.to(cid, n, self.fresh_(env), K(None))
        return put(UNK)

    def fresh_(self, env):
        e = self.with_(env, B=(), T="", F=(), G=(), I=0)
        e[("led", "U")] = tuple(sorted(set(e[("led", "U")]) | {p for p, x in self.led("F")}))
        return e

    def fits(self, env, v):
        B, G = self.led("B"), self.led("G")
        ts = self.known(env, v)
        if any(t[0] != "tk" or t[1][0] != "k" for t in ts):
            raise GiveUp("a token of the replacement is not known")
        kind, at = B
        href = K((None, "src" if kind == "script" else "href"))
        ref = None
        for i, t in enumerate(ts):
            if t[1][1] in ("Characters", "SpaceCharacters"):
                if t[3] == K("") or t[3][0] == "k" and not str(t[3][1]).strip():
                    continue
                self.report("left", "the block's content stays in the page")
                return False
            if t[1][1] in ("StartTag", "EmptyTag"):
                if t[2][0] != "k" or t[3][0] != "D":
                    raise GiveUp("a token of the replacement is not known")
                d = dict(self.entries(env, t[3]))
                if any(k[0] != "k" for k in d):
                    raise GiveUp("attributes are not known")
                if t[2][1] == "style" or t[2][1] == "script" and K((None, "src")) not in d:
                    self.report("left", "an inline block is replaced by another one")
                    return False
                if t[2][1] == ("script" if kind == "script" else "link"):
                    ref = d
                    if kind == "script" and not (i + 1 < len(ts) and ts[i + 1][1] == K("EndTag") and ts[i + 1][2] == K("script")):
                        self.report("reference", "the reference to the generated script is not closed")
                        return False
        if ref is None or href not in ref:
            self.report("reference", "an inline %s is replaced by something without a reference" % kind)
            return False
        if not G:
            self.report("reference", "an inline %s is replaced by a reference although no file was built from it" % kind)
            return False
        rel = ref.get(K((None, "rel")))
        if kind == "style" and (rel is None or rel[0] == "k" and "stylesheet" not in rel[1]):
            self.report("reference", "the reference to a generated stylesheet is not marked as a stylesheet")
            return False
        for k, x in at:
            h = ref.get(K((None, k)))
            if h is None or h[0] == "k" and h[1] != x:
                self.report("attributes", "the reference does not keep the %s's attributes" % kind)
                return False
        if any(k[1][1] in ALIEN and k[1][1] not in dict(at) for k in ref):
            self.report("attributes", "the reference has attributes of another block")
            return False
        return self.points(ref[href], G[0])

    def points(self, v, path):
        v = self.join([v])
        parts = v[1] if v[0] == "text" else (v,)
        below = path[len(ROOT + "/src/public"):]
        if parts[0][0] != "k":
            raise GiveUp("where the reference points to")
        if parts[0][1].split("?")[0] != below:
            if "?" not in parts[0][1] and len(parts) > 1 and parts[1][0] == "any" and below.startswith(parts[0][1]):
                raise GiveUp("where the reference points to")
            self.report("reference", "the reference does not point to the generated file")
            return False
        hs = [x for x in parts if x[0] == "hash"]
        if not hs:
            if any(x[0] == "any" for x in parts[1:]) and self.vague(parts):
                raise GiveUp("whether the reference has the hash")
            self.report("reference", "the reference carries no hash")
            return False
        if any(x[1] != ROOT + "/out/www" + below + ".hash" for x in hs):
            self.report("reference", "the reference carries the hash of another file")
            return False
        return True

    def vague(self, parts):
        return True

    # ---- values ---------------------------------------------------------------------------------------------------
    def truth(self, S, v):
        if v[0] in ("tk", "hd", "ctx", "file", "rfile", "hash", "res"):
            return True
        if v[0] == "text":
            return True
        if v[0] == "k" and isinstance(v[1], tuple):
            return bool(v[1])
        return super().truth(S, v)

    def exec(self, cid, pc, n, env, S, ended, head):
        self.env = env
        op, a = n.op, n.a
        V = lambda r: self.val(cid, pc, env, r)
        put = lambda v: self.to(cid, n, env, v)
        if op == "with_enter":
            return put(V(a["ctx"]))
        if op == "with_exit":
            o = V(a["ctx"])
            if o[0] == "file":
                return self.fileop(cid, n, env, o, "close", [], put)
            return put(UNK) if n.dst is not None else [(cid, t, env) for t, l in n.succ if l not in ("exc", "excret")]
        if op == "build" and a.get("kind") == "tuple" and a["parts"] and all(isinstance(p, str) for p in a["parts"]):
            vs = [V(p) for p in a["parts"]]
            if all(v[0] == "k" for v in vs):
                return put(K(tuple(v[1] for v in vs)))
        if op == "build" and a.get("kind") == "dict":
            e = dict(env)
            return self.to(cid, n, e, self.dictof(e, ()))
        if op == "builddict":
            e = dict(env)
            items, tk = [], None
            for k, v in a["items"]:
                x = V(v)
                if k is None:
                    if x[0] == "tk":
                        items += [(K("type"), x[1]), (K("name"), x[2]), (K("data"), x[3])]
                        continue
                    if x[0] != "D":
                        raise GiveUp("dict of something")
                    items += self.entries(env, x)
                else:
                    items.append((V(k), x))
            d = dict(items)
            if d.get(K("type"), UNK)[0] == "k" and d[K("type")][1] in ("StartTag", "EndTag", "EmptyTag", "Characters", "SpaceCharacters"):
                return self.to(cid, n, e, ("tk", d[K("type")], d.get(K("name"), UNK), d.get(K("data"), UNK)))
            if any(k[0] != "k" for k in d):
                raise GiveUp("dict of something")
            return self.to(cid, n, e, self.dictof(e, list(d.items())))
        if op in ("unpack", "unpack_star"):
            o = V(a["src"])
            if o[0] == "k" and isinstance(o[1], tuple):
                if op == "unpack_star" or a.get("star"):
                    raise GiveUp("unpacking")
                if len(o[1]) != a["n"]:
                    raise Raises()
                return put(K(o[1][a["i"]]))
            if o[0] == "k":
                raise Raises()
            if o[0] == "L" and all(x[0] != "all" for x in env[("list", o[1])]) and not a.get("star") and op == "unpack" and len(env[("list", o[1])]) != a["n"]:
                raise Raises()
        if op == "concat" and a.get("kind") is None:
            return put(self.join([V(r) for r in a["parts"]]))
        if op == "fmt":
            return put(V(a["v"]))
        if op in ("bin", "augop"):
            l, r = V(a["l"]), V(a["r"])
            if l[0] == r[0] == "k" and type(l[1]) in (int, str) and type(r[1]) in (int, str):
                try:
                    if a["op"] == "Add":
                        return put(K(l[1] + r[1]))
                    if a["op"] == "Sub":
                        return put(K(l[1] - r[1]))
                    if a["op"] == "Mult" and type(l[1]) is int:
                        return put(K(l[1] * r[1]))
                    if a["op"] == "Mod" and type(l[1]) is int:
                        return put(K(l[1] % r[1]))
                except Exception:
                    raise Raises()
            if a["op"] == "Add" and {l[0], r[0]} & {"text", "hash"}:
                return put(self.join([l, r]))
            if a["op"] == "Add" and l[0] == "k" and isinstance(l[1], str) and r == UNK:
                return put(self.join([l, r]))
            if a["op"] == "BitOr" and l[0] == r[0] == "D":
                e = dict(env)
                d = dict(self.entries(env, l))
                d.update(self.entries(env, r))
                if op == "augop":
                    for k, v in self.entries(env, r):
                        self.setitem(e, l, k, v)
                    return self.to(cid, n, e, l)
                return self.to(cid, n, e, self.dictof(e, list(d.items())))
            if a["op"] == "Mod" and l[0] == "k" and isinstance(l[1], str):
                vs = [r] if r[0] == "k" and not isinstance(r[1], tuple) else [K(x) for x in r[1]] if r[0] == "k" else None
                if vs and all(v[0] == "k" for v in vs):
                    try:
                        return put(K(l[1] % tuple(v[1] for v in vs)))
                    except Exception:
                        return put(UNK)
        if op == "slice":
            o = V(a["obj"])
            if o[0] == "k" and isinstance(o[1], (str, tuple)) and a.get("step") is None:
                lo, hi = [V(a[k]) if a.get(k) is not None else K(None) for k in ("lo", "hi")]
                if lo[0] == hi[0] == "k":
                    return put(K(o[1][lo[1]:hi[1]]))
                return put(UNK)
        if op == "attr":
            o, nm = V(a["obj"]), a["name"]
            if o[0] == "ctx":
                return put(K(ROOT) if nm == "folder" else UNK)
            if o[0] == "hd" or o[0] in ("file", "rfile", "hash", "tk") or o[0] == "k" and isinstance(o[1], str):
                return put(("m", o, nm))
            if o[0] == "res":
                return put(UNK)
            if nm in ("sep", "extsep", "linesep") and o[0] not in ("D", "L"):
                return put(K({"sep": "/", "extsep": ".", "linesep": "\n"}[nm]))
        if op == "sub":
            o, i = V(a["obj"]), V(a["idx"])
            if o[0] == "tk":
                return put(self.part(o, i))
            if o[0] == "k" and isinstance(o[1], (str, tuple)) and i[0] == "k" and type(i[1]) is int:
                if not -len(o[1]) <= i[1] < len(o[1]):
                    raise Raises()
                return put(K(o[1][i[1]]))
            if o[0] == "D" and i[0] != "k":
                raise GiveUp("an attribute which is not known")
        if op in ("setsub", "delsub"):
            o, i = V(a["obj"]), V(a["idx"])
            if o[0] == "tk":
                raise GiveUp("a token is changed")
            if o[0] == "D":
                if i[0] != "k":
                    raise GiveUp("an attribute which is not known")
                e = dict(env)
                if op == "delsub":
                    self.delitem(e, o, i)
                else:
                    self.setitem(e, o, i, V(a["src"]))
                return [(cid, t, e) for t, l in n.succ if l not in ("exc", "excret")]
        if op == "cmp":
            l, r = V(a["l"]), V(a["r"])
            if a["op"] in ("Is", "IsNot", "Eq", "NotEq") and (l == K(None) or r == K(None)):
                x = r if l == K(None) else l
                if x[0] in ("tk", "hd", "ctx", "file", "rfile", "hash", "res"):
                    return put(K(a["op"] in ("IsNot", "NotEq")))
            if a["op"] in ("Is", "IsNot", "Eq", "NotEq") and l[0] == r[0] == "hd":
                return put(K((l == r) == (a["op"] in ("Is", "Eq"))))
            if a["op"] in ("In", "NotIn") and l[0] == "k":
                if r[0] == "k" and isinstance(r[1], (str, tuple)):
                    try:
                        return put(K((l[1] in r[1]) == (a["op"] == "In")))
                    except TypeError:
                        return put(UNK)
                if r[0] == "L" and all(p[0] == "v" and p[1][0] == "k" for p in env[("list", r[1])]):
                    return put(K((l in [p[1] for p in env[("list", r[1])]]) == (a["op"] == "In")))
        return super().exec(cid, pc, n, env, S, ended, head)

    def delitem(self, e, o, i):
        d = dict(self.entries(e, o))
        if i not in d:
            raise Raises()
        del d[i]
        e[("list", o[1])] = (MARK,) + tuple(self.elem(x) for kv in d.items() for x in kv)

    def dictop(self, cid, n, env, d, nm, args, put):
        e = dict(env)
        if nm in ("pop", "setdefault") and args:
            if args[0][0] != "k":
                raise GiveUp(nm)
            for k, v in self.entries(env, d):
                if k == args[0]:
                    if nm == "pop":
                        self.delitem(e, d, k)
                    return self.to(cid, n, e, v)
            v = args[1] if len(args) > 1 else K(None)
            if nm == "pop" and len(args) < 2:
                raise Raises()
            if nm == "setdefault":
                self.setitem(e, d, args[0], v)
            return self.to(cid, n, e, v)
        if nm == "update" and len(args) == 1 and args[0][0] in ("L", "k"):
            for x in self.known(env, args[0]):
                self.setitem(e, d, *self.pair(env, x))
            return self.to(cid, n, e, K(None))
        return super().dictop(cid, n, env, d, nm, args, put)
