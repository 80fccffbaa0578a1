"""What is read from a page is passed on: the reader against a ledger of sample texts."""
import ast
from engine.q import *
from engine.seqs import *
from checks.c35 import Blocks
from checks.c36 import give

WALK = "getTreeWalker"
SAMPLES = [("Characters", "<"), ("Characters", "x"), ("Characters", "!--c-->r"), ("Characters", "!--c-->"), ("Characters", "!--c--> "), ("Characters", "!--c"), ("SpaceCharacters", " "), ("StartTag", "p"), ("Comment", "z")]
TAKEN = 3


def text(t):
    """What stands in the page for a token."""
    ty, nm, d = t[1][1], t[2], t[3]
    if ty in ("Characters", "SpaceCharacters"):
        return d[1]
    if ty == "Comment":
        return "<!--%s-->" % d[1]
    return "\0%s %s\0" % (ty, nm[1])


class Reader(Blocks):
    HEADS = Blocks.HEADS + ("yield",)
    MAX = 60000

    def enter(self, f):
        return f.module.name in self.mods and not f.is_gen

    def source(self, f):
        return f.k == "call" and any((self.A.F.name(t) or "").endswith(WALK) or WALK in show(t) for t in subterms(f))

    def hook(self, cid, pc, n, env, fs, fv, args, put):
        if fs and all(self.source(f) for f in fs):
            return put(("toks",))
        nm = self.name(fs, fv)
        if nm == "iter" and args and args[0] == ("toks",) or nm == "__iter__" and fv[1] == ("toks",):
            return put(("toks",))
        if nm == "next" and args and args[0] == ("toks",) or nm == "__next__" and fv[0] == "m" and fv[1] == ("toks",):
            out = self.read(cid, n, env, [t for t, l in n.succ if l not in ("exc", "excret")])
            if len(args) > 1:
                return out + put(args[1])
            e = dict(env)
            e[("exc", "cur")] = ("stop", "StopIteration", K(None))
            return out + [(c, t, dict(fe)) for c, t, fe in Blocks.__mro__[1].thrown(self, cid, n, e)]
        if any(a == ("toks",) for a in args):
            raise GiveUp("the tokens are read elsewhere")
        if fv[0] == "m" and fv[1][0] == "k" and isinstance(fv[1][1], str) and nm in ("index", "rindex") and args and all(a[0] == "k" for a in args):
            try:
                return put(K(getattr(fv[1][1], nm)(*[a[1] for a in args])))
            except ValueError:
                e = dict(env)
                e[("exc", "cur")] = ("stop", "ValueError", UNK)
                return [(c, t, dict(fe)) for c, t, fe in Blocks.__mro__[1].thrown(self, cid, n, e)]
        return super().hook(cid, pc, n, env, fs, fv, args, put)

    def read(self, cid, n, env, go):
        if self.led("I") >= TAKEN:
            return []
        out = []
        for ty, d in SAMPLES:
            t = ("tk", K(ty), K(d if ty == "StartTag" else None), UNK if ty == "StartTag" else K(d))
            e = self.with_(env, I=self.led("I") + 1, T=self.led("T") + text(t))
            if n.dst is not None:
                e[(cid, n.dst)] = t
                e.pop((cid, "@" + n.dst), None)
            out += [(cid, x, e) for x in go]
        return out

    def iterated(self, cid, pc, n, env, v, item, done):
        if v != ("toks",):
            return None
        return self.read(cid, n, env, item) + [(cid, t, dict(env)) for t in done]

    def truth(self, S, v):
        return True if v[0] == "toks" else super().truth(S, v)

    def left(self):
        if self.led("T"):
            self.report("read", "a token which was read from the page is never passed on")

    def exec(self, cid, pc, n, env, S, ended, head):
        self.env = env
        if n.op == "ret" and self.I.ctxs[cid].csid is None or n.op == "exit" and self.I.ctxs[cid].csid is None:
            self.left()
            return []
        if n.op == "yield":
            src = n.a.get("src") or n.a.get("v")
            v = self.val(cid, pc, env, src) if src else UNK
            if v[0] != "tk" or v[1][0] != "k" or v[1][1] in ("Characters", "SpaceCharacters", "Comment") and v[3][0] != "k" or v[1][1] == "StartTag" and v[2][0] != "k":
                raise GiveUp("a token which is passed on is not known")
            w, T = text(v), self.led("T")
            if not T.startswith(w):
                self.report("read", "what is passed on is not what was read from the page, in order, once")
                return []
            return self.to(cid, n, self.with_(env, T=T[len(w):]), K(None))
        if n.op == "yieldfrom":
            raise GiveUp("yield from")
        if n.op == "builddict":
            d = {}
            for k, x in n.a["items"]:
                if k is None:
                    return super().exec(cid, pc, n, env, S, ended, head)
                d[self.val(cid, pc, env, k)] = self.val(cid, pc, env, x)
            if d.get(K("type"), UNK)[0] == "k":
                return self.to(cid, n, env, ("tk", d[K("type")], d.get(K("name"), K(None)), d.get(K("data"), UNK)))
        return super().exec(cid, pc, n, env, S, ended, head)


def readers(p):
    return [f for q, f in sorted(p.funcs.items()) if f.is_gen and f.cls is None and any(isinstance(x, (ast.Attribute, ast.Name)) and WALK in (getattr(x, "attr", ""), getattr(x, "id", "")) for x in ast.walk(f.node))]


def read(R):
    n = 0
    for f in readers(R.p):
        n += 1
        A = Ana(R.p, [(f.qual, {}, None)], inline=lambda g: g.module.name == f.module.name and not g.is_gen)
        R.uses(A)
        s = Reader(A)
        s.mods = {f.module.name}
        s.blocks, s.twice, s.files = [], 1, set()
        env = {("led", "B"): (), ("led", "T"): "", ("led", "F"): (), ("led", "U"): (), ("led", "G"): (), ("led", "I"): 0}
        s.run(A.eid[f.qual], env)
        give(R, s, f.qual.replace("vanillaplusjs.", ""), ("read",))
    R.need("readers of pages", n)
