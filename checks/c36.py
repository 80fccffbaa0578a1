"""C36: rewriting neither drops, repeats nor reorders tokens."""
import ast
from engine.q import *
from engine.seqs import *
from checks.out_common import synth, manipulators

TECHNIQUE = "abstract interpretation of the builders, of the generator-driven rewriting base and of the rewriting steps over lists of symbolic tokens, compared step by step with a ledger of what has to happen to each token"


def check(R):
    R.rule("order", "a builder offers every token to the rewriting steps in order, once, hands it to the step which took it, and has nothing left when it is done with it")
    R.rule("output", "what a builder gives out is what passed every rewriting step, in order, once")
    R.rule("replacement", "what a step returned is processed in its place, and the step's own list is not touched")
    R.rule("protocol", "the base of the generator-driven steps hands each token to the generator once, and gives back what the generator returned or else exactly the tokens taken")
    R.rule("return", "a step that returns only tokens it took returns all of them, in order; a script step which rewrites keeps all but the last one")
    R.rule("read", "the reader of pages passes on each token it reads, in order, once; it may only read a comment out of adjacent pieces of text")
    from checks.read_common import read
    read(R)
    moved(R)
    n = 0
    for q, c in sorted(R.p.classes.items()):
        if q.startswith(B) and {"handle_token", "consume_tokens"} <= set(c.methods):
            builder(R, c)
            n += 1
    for q, c in sorted(R.p.classes.items()):
        if q.startswith(B) and "handle" in c.methods and {"start_mark", "continue_mark"} <= set(c.methods):
            base(R, c)
            n += 1
    for c in manipulators(R.p):
        ms = {m for k in R.p.mro(c) for m in k.methods}
        if "handle" in c.methods:
            gen(R, c)
        elif {"start_mark", "continue_mark"} <= ms:
            step(R, c)
    R.need("builders", n)


def moved(R):
    """Tokens which a step moves into a file of their own have to arrive there."""
    from checks import c35
    for c in manipulators(R.p):
        src = "".join(ast.unparse(m.node) for k in R.p.mro(c) for m in k.methods.values())
        if ".html." in c.module.name and ".build_file(" in src:
            A, q, own, ps = c35.driven(R, c, 0)
            s = c35.ran(A, q, own, ps, c35.RELPATHS[0], c35.BLOCKS, 1)
            who = c.qual.replace("vanillaplusjs.", "") + " (moved)"
            bad = [b for b in s.bad if b[1] == "content" and "exactly" in b[2]]
            if s.gave is not None and not s.bad:
                R.assume.append("%s: not decided, %s" % (who, s.gave))
            for key, rule, msg, loc, tr in bad:
                R.bad("return", who + ":return", "the tokens taken are not all, once and in order, in the file they are moved to", loc, tr)
            if not bad:
                R.ok("return", who)
            R.count("states explored", s.states)


def give(R, s, who, rules):
    for key, rule, msg, loc, tr in s.bad:
        R.bad(rule, who + ":" + rule, msg, loc, tr)
    if s.gave is not None and not s.bad:
        R.assume.append("%s: not decided, %s" % (who, s.gave))
    hit = {b[1] for b in s.bad}
    for r in rules:
        if r not in hit:
            R.ok(r, who)
    R.count("states explored", s.states)


def funs(cid):
    return {(cid, k): ("fn", k) for k in ("any_", "token_", "more_", "began_", "given_", "refused_", "idle_", "out_")}


class Ledger(Seqs):
    def led(self, k):
        return self.env.get(("led", k))

    def with_(self, env, **kw):
        e = dict(env)
        for k, v in kw.items():
            e[("led", k)] = v
        return e

    def to(self, cid, n, e, v, label=None):
        e = dict(e)
        if n.dst is not None:
            e[(cid, n.dst)] = v
            e.pop((cid, "@" + n.dst), None)
        return [(cid, t, e) for t, l in n.succ if l not in ("exc", "excret")]

    def name(self, fs, fv):
        if fv[0] == "fn":
            return fv[1]
        if fv[0] == "m":
            return fv[2]
        ms = {method_name(f) for f in fs}
        if len(ms) == 1 and None not in ms:
            return next(iter(ms))
        ns = {(self.A.F.name(f) or "").rsplit(".", 1)[-1] for f in fs} | {method_name(f) or "" for f in fs}
        ns.discard("")
        return next(iter(ns)) if len(ns) == 1 else None


# ---- builders -----------------------------------------------------------------------------------------------------
class Build(Ledger):
    strict = True
    rule = {"foreign": "replacement", "assert": "order"}

    def enter(self, f):
        return f.module.name in self.mods

    def report(self, rule, msg):
        super().report(self.rule.get(rule, rule), msg)

    def hook(self, cid, pc, n, env, fs, fv, args, put):
        nm = self.name(fs, fv)
        if nm == "token_":
            t = fresh(env)
            return self.to(cid, n, self.with_(env, Q=(("one", t),)), ("one", t))
        if nm == "idle_":
            if self.led("Q"):
                self.report("order", "a token, or what it was replaced with, is left when the builder is done")
                return []
            return put(K(None))
        if nm == "out_":
            if not args or args[0][0] != "L":
                raise GiveUp("what is given out is not a list")
            if env[("list", args[0][1])] != self.led("O"):
                self.report("output", "what is given out is not what passed the rewriting steps since the last time, in order")
                return []
            return self.to(cid, n, self.with_(env, O=()), K(None))
        if nm in ("list", "tuple", "iter") and args == [("mans",)]:
            return put(("mans",))
        if nm == "start_mark":
            if fv[0] != "m" or fv[1][0] != "man":
                raise GiveUp("start_mark of something")
            if not self.head(args, "offered to the rewriting steps"):
                return []
            if self.led("mark") != K(None):
                self.report("order", "a step is asked to start while another one is still taking tokens")
                return []
            acc = {k: self.accept(v) for k, v in env.items()}
            return self.to(cid, n, self.with_(env, asked="yes"), K(False)) + self.to(cid, n, self.with_(acc, mark=("man", "acc"), asked="yes"), K(True))
        if nm == "continue_mark":
            if fv[0] != "m" or fv[1][0] != "man":
                raise GiveUp("continue_mark of something")
            if fv[1] != self.led("mark"):
                self.report("order", "a token is handed to a step which did not take it")
                return []
            if not self.head(args, "handed to the step which took it"):
                return []
            Q = self.led("Q")
            r = fresh(env)
            e = self.with_(env, Q=(("all", r),) + Q[1:], mark=K(None))
            l = self.new(e, (("all", r),))
            e[("led", "foreign")] = tuple(e.get(("led", "foreign"), ())) + (l[1],)
            return self.to(cid, n, self.with_(env, Q=Q[1:]), K(None)) + self.to(cid, n, e, l)
        return None

    def accept(self, v):
        if not isinstance(v, tuple):
            return v
        if v == ("man", "it"):
            return ("man", "acc")
        return tuple(self.accept(x) for x in v)

    def head(self, args, what):
        Q = self.led("Q")
        if not args or args[0][0] != "one":
            raise GiveUp("token not known")
        if not Q or Q[0] != args[0]:
            self.report("order", "this token is not the next one when it is %s" % what)
            return False
        return True

    def iterated(self, cid, pc, n, env, v, item, done):
        if v != ("mans",):
            return None
        key = (cid, "@" + n.a["it"])
        e = dict(env)
        if key in env:
            if env.get(("led", "asked")) == "given":
                self.report("order", "a rewriting step is passed over without being asked about this token")
                return []
        e[key] = 1
        e[(cid, n.dst)] = ("man", "it")
        e[("led", "asked")] = "given"
        d = dict(env)
        d.pop(key, None)
        d[("led", "asked")] = "no"
        Q = d[("led", "Q")]
        out = [(cid, t, e) for t in item]
        if d[("led", "mark")] == K(None) and Q:
            d[("led", "O")] = d[("led", "O")] + Q[:1]
            d[("led", "Q")] = Q[1:]
        return out + [(cid, t, d) for t in done]

    def truth(self, S, v):
        return True if v[0] == "mans" else super().truth(S, v)


def builder(R, c):
    name = "vpbuild_" + c.qual.replace(".", "_")
    synth(R.p, name, """from %s import %s as B_
def drive(mans, any_, token_, idle_, out_):
    b = B_(mans)
    while any_():
        if any_():
            b.handle_token(token_())
            idle_()
        else:
            out_(b.consume_tokens())
""" % (c.module.name, c.name))
    q = name + ".drive"
    A = Ana(R.p, [(q, {}, None)], inline=lambda f: True)
    R.uses(A)
    s = Build(A)
    s.mods = {c.module.name, name} | {k.module.name for k in R.p.mro(c)}
    s.mods |= {f.module.name for f in A.I.funcs_seen()} if hasattr(A.I, "funcs_seen") else set()
    who = c.qual.replace("vanillaplusjs.", "")
    import ast
    lazy = any(isinstance(x, ast.GeneratorExp) and any(isinstance(y, ast.Attribute) and y.attr == "start_mark" for y in ast.walk(x)) for m in c.methods.values() for x in ast.walk(m.node))
    if lazy and not all(whole(m) for m in c.methods.values()):
        R.assume.append("%s: asks the steps lazily, not decided" % who)
        return
    s.run(A.eid[q], {**funs(A.eid[q]), (A.eid[q], "mans"): ("mans",), ("led", "Q"): (), ("led", "O"): (), ("led", "mark"): K(None), ("led", "asked"): "no"})
    give(R, s, who, ("order", "output", "replacement"))


def whole(m):
    """Every generator expression is the argument of any() or all()."""
    import ast
    inside = set()
    for x in ast.walk(m.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("any", "all"):
            inside |= {id(a) for a in x.args}
    return all(id(x) in inside for x in ast.walk(m.node) if isinstance(x, ast.GeneratorExp))


# ---- the base of generator-driven steps ---------------------------------------------------------------------------
class Base(Ledger):
    strict = True
    rule = {"foreign": "protocol", "assert": "protocol"}

    def enter(self, f):
        return f.module.name in self.mods

    def report(self, rule, msg):
        super().report(self.rule.get(rule, rule), msg)

    def change(self, env, v):
        pass

    def hook(self, cid, pc, n, env, fs, fv, args, put):
        nm = self.name(fs, fv)
        g = self.led("gen")
        T = self.led("T")
        if nm in ("token_", "more_"):
            if nm == "more_":
                if g != "yielded":
                    self.report("protocol", "the step goes on taking tokens although its generator has returned")
                    return []
                if self.led("due"):
                    self.report("protocol", "a token is taken without being sent to the generator")
                    return []
            t = fresh(env)
            T = T + (("one", t),) if nm == "more_" else (("one", t),)
            e = self.with_(env, T=T, due=True)
            if nm == "token_":
                e[("led", "gen")] = "none"
            return self.to(cid, n, e, ("one", t))
        if nm == "began_":
            if g not in ("yielded", "list"):
                self.report("protocol", "the step takes a token which its generator refused")
                return []
            return put(K(None))
        if nm == "refused_":
            if g != "false":
                self.report("protocol", "the step refuses a token which its generator took or never saw")
                return []
            return self.to(cid, n, self.with_(env, T=(), R=()), K(None))
        if nm == "given_":
            if g == "yielded":
                self.report("protocol", "the step gives back tokens while its generator is waiting for more")
                return []
            c = env[("list", args[0][1])] if args[0][0] == "L" else None
            if c is None:
                raise GiveUp("what is given back is not known")
            if c != (T if g == "false" else self.led("R")):
                self.report("protocol", "the step gives back something else than %s" % ("the tokens it took, although its generator gave up" if g == "false" else "what its generator returned"))
                return []
            return self.to(cid, n, self.with_(env, T=(), R=()), K(None))
        if nm == "handle":
            if not args or args[0] != (T[-1] if T else None):
                self.report("protocol", "the generator is started with another token")
                return []
            return self.to(cid, n, self.with_(env, gen="new"), ("gen", "g"))
        if nm in ("next", "send") and (args and args[0] == ("gen", "g") or fv[0] == "m" and fv[1] == ("gen", "g")) or nm == "__next__":
            x = args[0] if nm == "send" else None
            if g not in ("new", "yielded"):
                self.report("protocol", "the generator is resumed after it returned")
                return []
            if g == "yielded":
                if x is None or not T or x != T[-1]:
                    self.report("protocol", "the generator is resumed with something else than the token just taken")
                    return []
                if not self.led("due"):
                    self.report("protocol", "a token is sent to the generator a second time")
                    return []
                for k, v in env.items():
                    if k[0] == "field" and k[1].endswith(".stack") and v[0] == "L" and env[("list", v[1])] != T:
                        self.report("protocol", "the generator does not see the tokens taken so far")
                        return []
            elif x is not None and x != K(None):
                self.report("protocol", "something is sent to a generator which has not started")
                return []
            env = self.with_(env, due=False)
            out = self.to(cid, n, self.with_(env, gen="yielded"), UNK)
            e = self.with_(env, gen="false")
            e[("exc", "cur")] = ("stop", "StopIteration", K(False))
            out += [(c, t, dict(fe)) for c, t, fe in self.thrown(cid, n, e)]
            r = fresh(env)
            e = self.with_(env, gen="list", R=(("all", r),))
            l = self.new(e, (("all", r),))
            e[("exc", "cur")] = ("stop", "StopIteration", l)
            out += [(c, t, dict(fe)) for c, t, fe in self.thrown(cid, n, e)]
            return out
        return None


PROTOCOL = """from %s import %s as M_
def drive(%sany_, token_, more_, began_, given_, refused_):
    m = M_(%s)
    while any_():
        t = token_()
        if m.start_mark(t):
            began_()
            r = m.continue_mark(t)
            while r is None:
                t = more_()
                r = m.continue_mark(t)
            given_(r)
        else:
            refused_()
"""


def base(R, c):
    name = "vpproto_" + c.qual.replace(".", "_")
    synth(R.p, name, PROTOCOL % (c.module.name, c.name, "", ""))
    q = name + ".drive"
    A = Ana(R.p, [(q, {}, None)], inline=lambda f: True, opaque=OPAQUE + (c.qual + ".handle",))
    R.uses(A)
    s = Base(A)
    s.mods = {c.module.name, name}
    s.run(A.eid[q], {**funs(A.eid[q]), ("led", "T"): (), ("led", "R"): (), ("led", "gen"): "none", ("led", "due"): False})
    give(R, s, c.qual.replace("vanillaplusjs.", ""), ("protocol",))


# ---- steps --------------------------------------------------------------------------------------------------------
class Step(Ledger):
    """A step with start_mark and continue_mark of its own."""

    def enter(self, f):
        return f.module.name in self.mods

    def change(self, env, v):
        pass

    def report(self, rule, msg):
        if rule == "assert":
            return
        super().report(rule, msg)

    def hook(self, cid, pc, n, env, fs, fv, args, put):
        nm = self.name(fs, fv)
        T = self.led("T")
        if nm in ("token_", "more_"):
            t = fresh(env)
            return self.to(cid, n, self.with_(env, T=(T if nm == "more_" else ()) + (("one", t),)), ("one", t))
        if nm == "began_":
            return put(K(None))
        if nm == "refused_":
            return self.to(cid, n, self.with_(env, T=()), K(None))
        if nm == "given_":
            if args[0][0] == "L":
                c = env[("list", args[0][1])]
                if all(p[0] in ("one", "all") for p in c) and c != T and c:
                    self.report("return", "only tokens which were taken are given back, but not all of them, once, in order")
            return self.to(cid, n, self.with_(env, T=()), K(None))
        if nm == "copy" and fv[0] == "m" and fv[1][0] == "one":
            return put(("obj", ()))
        return None


def step(R, c):
    ini = R.p.find_method(c, "__init__")
    ps = ini.params()[1:]
    name = "vpstep_" + c.qual.replace(".", "_")
    synth(R.p, name, PROTOCOL % (c.module.name, c.name, "".join(p + ", " for p in ps), ", ".join(ps)))
    q = name + ".drive"
    own = {k.module.name for k in R.p.mro(c)}
    A = Ana(R.p, [(q, {}, None)], inline=lambda f: f.module.name in own or f.module.name == name)
    R.uses(A)
    for mode in ("scan", "build"):
        s = Step(A)
        s.mods = own | {name}
        s.MAX = 12000
        s.run(A.eid[q], {**funs(A.eid[q]), (A.eid[q], "mode"): K(mode), ("led", "T"): ()})
        give(R, s, c.qual.replace("vanillaplusjs.", "") + " (%s)" % mode, ("return",))


class Gen(Ledger):
    """handle() of a generator-driven step."""
    HEADS = Ledger.HEADS + ("yield", "yieldfrom")

    def enter(self, f):
        return f.module.name in self.mods and not f.is_gen

    def change(self, env, v):
        pass

    def report(self, rule, msg):
        if rule != "assert":
            super().report(rule, msg)

    def exec(self, cid, pc, n, env, S, ended, head):
        self.env = env
        if n.op in ("yield", "yieldfrom"):
            T = env[("led", "T")]
            a, b = fresh(env), fresh(env, 1)
            e = dict(env)
            T = T + ((("all", b),) if n.op == "yieldfrom" else ()) + (("one", a),)
            e[("led", "T")] = T
            for k in [k for k in e if k[0] == "field" and k[1].endswith(".stack")] or [("field", "self.stack")]:
                e[k] = self.new(e, T)
            return self.to(cid, n, e, ("one", a))
        if n.op == "ret" and self.I.ctxs[cid].csid is None:
            self.returned(env, self.val(cid, pc, env, n.a["src"]))
            return []
        return super().exec(cid, pc, n, env, S, ended, head)

    def returned(self, env, v):
        if v[0] != "L":
            return
        parts = env[("list", v[1])]
        T = env[("led", "T")]
        if not T:
            return
        self.first(env, T, True)
        flat = self.cover(env, [v])
        if any(p[0] == "v" and p[1] == UNK for p in parts):
            return
        new = [p for p in parts if p[0] == "v" and not self.cover(env, [p[1]])]
        if flat == T:
            for p in parts:
                if p[0] == "v":
                    c = self.cover(env, [p[1]])
                    if T[-1] in c and len(c) > 1 and p[1][0] == "obj":
                        self.report("return", "the token which ended the sequence is merged into the one which replaces the sequence")
                        return
            if all(p[1][0] == "obj" and p[1][-1] == "blank" for p in new):
                return
            self.report("return", "another token is added to all of those which were taken")
            return
        if flat == T[:-1] and parts and parts[-1] in new:
            return
        self.report("return", "the tokens returned here do not contain what was taken, once and in order (only the last one may be replaced)")

    def hook(self, cid, pc, n, env, fs, fv, args, put):
        if fv[0] == "m" and fv[1][0] == "one":
            return put(UNK)
        return None


def gen(R, c):
    f = R.p.find_method(c, "handle")
    A = Ana(R.p, [(f.qual, {}, c)], inline=lambda g: g.module.name == c.module.name)
    R.uses(A)
    s = Gen(A)
    s.mods = {c.module.name}
    cid = A.eid[f.qual]
    p = f.params()[-1]
    s.run(cid, {(cid, p): ("one", "s0"), ("led", "T"): (("one", "s0"),)})
    give(R, s, c.qual.replace("vanillaplusjs.", ""), ("return",))
