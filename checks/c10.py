"""C10: every stylesheet and script token kind can be written back, with the details recorded for it."""
import ast
from engine.q import *
from engine.project import synth

TECHNIQUE = "collection of every token construction in the source; partial evaluation of the serializer for each kind (constant propagation of the kind through its branches), with data-flow from the recorded details to the returned text"
LANGS = (("stylesheet", "css", "CSSToken"), ("script", "js", "JSToken"))
DETAILS = ("value", "unit", "extra")
LOSSY = {"lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "capitalize", "swapcase", "int", "round", "abs", "floor", "ceil", "len", "bool", "hash", "ord0", "splitlines", "split", "partition", "isdigit"}


def check(R):
    R.rule("kinds", "every kind of token constructed anywhere has a serialization which cannot end in the unknown-token error")
    R.rule("details", "the serialization of a kind carries every detail recorded for that kind into the returned text")
    R.rule("inserted", "every token constructed has the details which writing its kind uses")
    R.rule("characters", "a detail written character by character carries each character into the text")
    R.rule("escaped", "within a quoted text or an unquoted address, no character which would end it or change what follows is written as it is")
    p = R.p
    for word, lang, cname in LANGS:
        enum = p.cls(B + "%s.token.%sType" % (lang, cname))
        R.need("the token types of a " + word, 1 if enum else 0)
        members = enum_members(enum)
        made = constructions(R, p, lang, cname, members)
        R.need("token constructions of a " + word, sum(len(v) for v in made.values()))
        name = "vpserialize_" + lang
        src = "from %s.%s.serializer import serialize\nfrom %s.%s.token import %sType as T\n" % (B[:-1], lang, B[:-1], lang, cname)
        for m in sorted(members):
            src += "def k_%s(value, unit, extra, type_flag):\n    return serialize({'type': T.%s, 'value': value, 'unit': unit, 'extra': extra, 'type_flag': type_flag})\n" % (m, m)
        synth(p, name, src)
        A = Ana(p, [(name + ".k_" + m, {}, None) for m in sorted(members)], inline=lambda f: True)
        R.uses(A)
        I = A.I
        for m in sorted(made):
            cid = A.eid[name + ".k_" + m]
            start = A.start(cid)
            reach = A.F.reach(start)
            rets = [s for s in reach if I.states[s][0] == cid and I.node(s).op == "ret"]
            raises = [s for s in reach if I.node(s).op == "raise" and I.func(s).module.name.startswith("vanillaplusjs")]
            where = made[m][0][0]
            R.obl(bool(rets) and not raises, "kinds", "%s %s" % (word, m), "a token of this kind is constructed at %s but cannot be serialized" % where, where)
            if not rets:
                continue
            need = {d for at, ds, given in made[m] for d in ds}
            used = {d for d in DETAILS if any(has(t, lambda x: x is mk("sym", d)) for s in rets for t in I.rv(s, I.node(s).a["src"])) or loops(A, reach, mk("sym", d))}
            for at, ds, given in made[m]:
                R.obl(used <= given, "inserted", "%s %s at %s" % (word, m, at.rsplit(":", 1)[0]), "a token of this kind is made without its %s, which writing it needs" % ", ".join(sorted(used - given)), at)
            for s in rets:
                for t in I.rv(s, I.node(s).a["src"]):
                    for d in sorted(need):
                        v = mk("sym", d)
                        ok = carried(A, reach, t, v)
                        R.obl(ok is None, "details", "%s %s: %s" % (word, m, d), ("the %s recorded for this kind " % d) + (ok or ""), A.where(s))
            if "string" in m or m == "url":
                escaped(R, A, word, m, start, reach)
        characters(R, A, word)
    R.assume += ["the type flag of a number or hash is determined by its value and is not written", "converting a number to text keeps it"]


def enum_members(c):
    out = {}
    for s in c.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            out[s.targets[0].id] = s.value.value
    return out


def constructions(R, p, lang, cname, members):
    """{kind: [(where, details recorded)]} of every token constructed."""
    out = {}
    enum = cname + "Type"
    for m in p.modules.values():
        if not m.name.startswith("vanillaplusjs"):
            continue
        for f in scopes(m.tree):
            toks, made = {}, {}
            for x in local(f):
                if isinstance(x, ast.Call) and name_of(x.func).startswith(cname):
                    kw = {k.arg: k.value for k in x.keywords if k.arg}
                    base = None
                    for k in x.keywords:
                        if k.arg is None:
                            base = k.value
                    for a in x.args:
                        base = a
                    if base is not None and isinstance(base, ast.Dict):
                        kw.update({k.value: v for k, v in zip(base.keys, base.values) if isinstance(k, ast.Constant)})
                elif isinstance(x, ast.Dict) and any(isinstance(k, ast.Constant) and k.value == "type" for k in x.keys):
                    kw = {k.value: v for k, v in zip(x.keys, x.values) if isinstance(k, ast.Constant)}
                    if not kinds(kw["type"], f, m, enum, members):
                        continue
                else:
                    continue
                if "type" not in kw:
                    continue
                ds = {d for d in DETAILS if d in kw and not isinstance(kw[d], ast.Constant)}
                given = {d for d in DETAILS if d in kw and not (isinstance(kw[d], ast.Constant) and kw[d].value is None)}
                if isinstance(x, ast.Call) and any(k.arg is None for k in x.keywords) or isinstance(x, ast.Dict) and None in x.keys:
                    given = set(DETAILS)
                ks = kinds(kw["type"], f, m, enum, members)
                if not ks and name_of(x.func) == cname if isinstance(x, ast.Call) else False:
                    ks = set(members)
                for k in ks:
                    toks.setdefault(id(x), []).append(k)
                    e = ["%s:%d" % (m.rel, x.lineno), set(ds), set(given)]
                    out.setdefault(k, []).append(e)
                    made.setdefault(id(x), []).append(e)
            # details set afterwards
            for x in local(f):
                if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Call, ast.Dict)) and id(x.value) in toks and isinstance(x.targets[0], ast.Name):
                    for y in local(f):
                        if isinstance(y, ast.Assign):
                            for t in y.targets:
                                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == x.targets[0].id and isinstance(t.slice, ast.Constant) and t.slice.value in DETAILS and not isinstance(y.value, ast.Constant):
                                    for e in made[id(x.value)]:
                                        e[1].add(t.slice.value)
                                        e[2].add(t.slice.value)
    return out


def scopes(tree):
    yield tree
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield x


def local(f):
    """Nodes of a scope without those of nested functions."""
    st = list(ast.iter_child_nodes(f))
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        yield x
        st.extend(ast.iter_child_nodes(x))


def name_of(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""


def kinds(e, f, m, enum, members, depth=3):
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and name_of(x.value) == enum and x.attr in members:
            out.add(x.attr)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
            out |= {k for k, v in members.items() if v == x.value and x is e}
        elif isinstance(x, ast.Name) and depth:
            for scope in (f, m.tree):
                for y in local(scope):
                    if isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value is not None:
                        for t in (y.targets if isinstance(y, ast.Assign) else [y.target]):
                            if isinstance(t, ast.Name) and t.id == x.id:
                                out |= kinds(y.value, f, m, enum, members, depth - 1)
                    elif isinstance(y, ast.NamedExpr) and isinstance(y.target, ast.Name) and y.target.id == x.id:
                        out |= kinds(y.value, f, m, enum, members, depth - 1)
                    elif isinstance(y, (ast.For, ast.comprehension)):
                        if any(isinstance(z, ast.Name) and z.id == x.id for z in ast.walk(y.target)):
                            out |= kinds(y.iter, f, m, enum, members, depth - 1)
    return out


def carried(A, reach, t, v):
    """None when ``t`` carries ``v`` unharmed; else what is wrong."""
    ev = mk("elem", v)
    if not has(t, lambda x: x is v):
        return None if loops(A, reach, v) else "is not written"
    for x in subterms(t):
        if x.k == "call" and x.a[0] == "format" and len(x.a) > 1 and x.a[1] is v:
            specs = {cval(x.a[2])} if len(x.a) > 2 and isinstance(x.a[2], T) and x.a[2].k == "const" else \
                {A.I.node(s).a.get("spec") for s in reach if A.I.node(s).op == "fmt" and v in A.I.rv(s, A.I.node(s).a["v"])}
            if any(isinstance(y, str) and y[-1:] in "eEfFgGn%d" and y for y in specs) or any(isinstance(y, str) and "." in y for y in specs):
                return "is rounded"
        if x.k == "call" and x.a[0].split(".")[-1] in LOSSY and any(y is v for z in x.a[1:] if isinstance(z, T) for y in [z] + list(z.a)):
            return "is changed by %s" % x.a[0].split(".")[-1]
        if x.k in ("slice", "sub", "item") and x.a[0] is v:
            return "is only written in part"
    return None


def loops(A, reach, v):
    """Rounds over the characters of ``v``."""
    I = A.I
    return [s for s in reach if I.node(s).op == "next" and any(t is v or t.k in ("list", "call") and has(t, lambda x: x is v) for t in I.rv(s, I.node(s).a["it"]))]


def characters(R, A, word):
    I = A.I
    n = 0
    seen = {}
    for d in DETAILS:
        v = mk("sym", d)
        for s in loops(A, range(len(I.states)), v):
            n += 1
            cid, nid = I.states[s][0], I.node(s).id
            subs = {I.node(x).dst for x in A.F.node_states("sub") if any(has(t, lambda y: y.k == "elem") for t in I.rv(x, I.node(x).a["idx"]))}
            subs |= {I.node(x).dst for x in A.F.node_states("call") if looked(A, x, None)}
            names = {I.node(x).dst for x in A.F.node_states("store") if I.node(x).a["src"] in subs}
            subs |= names | {I.node(x).dst for x in A.F.node_states("load") if I.node(x).a["name"] in names}
            def emits(x):
                m = I.node(x)
                if m.op == "augop":
                    r = m.a["r"]
                elif m.op == "call" and m.a["args"]:
                    if not any(f.k in ("meth", "attr") and f.a[1] in ("append", "write", "extend") for f in I.rv(x, m.a["f"])):
                        return False
                    r = m.a["args"][-1]
                elif m.op in ("accadd", "yield"):
                    r = m.a.get("src")
                elif m.op == "bin" and m.dst is not None and any(has(t, lambda y: y.k == "elem") for t in I.rv(x, m.a["r"])) and m.a.get("op") == "Add":
                    return True
                else:
                    return False
                if not isinstance(r, str):
                    return False
                return r in subs or any(has(t, lambda y: y.k == "elem") for t in I.rv(x, r))
            first = [t for t, l in I.succ[s] if l == "item"]
            after = A.F.reach([x for x in first if not emits(x)], stop_node=emits)
            again = [x for x in after if I.states[x][0] == cid and I.node(x).id == nid]
            con = "%s: %s" % (word, I.func(s).qual.split(".")[-1])
            if seen.get(con, True):
                seen[con] = R.obl(not again, "characters", con, "a character of a %s can be left out of the text" % d, A.where(s), A.F.path(again[0]) if again else ())
    return n


def looked(A, x, e):
    """A character is looked up in a table."""
    n = A.I.node(x)
    return (n.op == "call" and any(f.k in ("meth", "attr") and f.a[1] in ("get", "setdefault", "translate") for f in A.I.rv(x, n.a["f"]))
            and any(t is e if e is not None else t.k == "elem" for a in n.a["args"][:1] if isinstance(a, str) for t in A.I.rv(x, a)))


def written(A, x):
    """What a state adds to the text being made, or None."""
    n = A.I.node(x)
    if n.op == "augop":
        return A.I.rv(x, n.a["r"])
    if n.op == "call" and n.a["args"]:
        if any(f.k in ("meth", "attr") and f.a[1] in ("append", "write") for f in A.I.rv(x, n.a["f"])) and isinstance(n.a["args"][-1], str):
            return A.I.rv(x, n.a["args"][-1])
    if n.op in ("accadd", "yield") and isinstance(n.a.get("src"), str):
        return A.I.rv(x, n.a["src"])
    return None


def direct(t, e):
    """Whether a condition is about the character (rather than about the text made so far)."""
    return t is e or t.k != "cat" and any(direct(y, e) for x in t.a for y in (x if isinstance(x, (tuple, frozenset)) else [x]) if isinstance(y, T))


class Undecided(Exception):
    pass


def value(A, t, e, c):
    """The values a term may have when the character ``e`` is ``c``."""
    if t is e:
        return {c}
    if t.k == "const":
        return {cval(t)}
    if t.k == "call" and t.a[0] == "ord" and len(t.a) > 1:
        return {ord(x) for x in value(A, t.a[1], e, c)}
    raise Undecided()


def holds_for(A, t, e, c):
    """Whether a condition on the character ``e`` is true when it is ``c``."""
    if t.k == "cmp":
        op, l, r = t.a
        lv = value(A, l, e, c)
        if op == "In":
            if r.k == "tup":
                rv = {y for x in r.a[0] for z in (x if isinstance(x, frozenset) else [x]) for y in value(A, z, e, c)}
            elif r.k in ("list", "set"):
                rv = {y for z in A.V(r, "*") for y in value(A, z, e, c)}
            elif r.k == "dict":
                rv = {ast.literal_eval(k[1][1:]) for k in list(A.I.V) if k[0] is r and isinstance(k[1], str) and k[1].startswith("['")}
                if not rv:
                    raise Undecided()
            elif r.k == "const" and isinstance(cval(r), str):
                rv = set(cval(r))
            else:
                raise Undecided()
            return bool(lv & rv)
        rv = value(A, r, e, c)
        f = {"Eq": lambda a, b: a == b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}.get(op)
        if f is None or len(lv) != 1 or len(rv) != 1:
            raise Undecided()
        try:
            return f(min(lv), min(rv))
        except TypeError:
            raise Undecided()
    raise Undecided()


def escaped(R, A, word, kind, start, reach):
    I = A.I
    v = mk("sym", "value")
    e = mk("elem", v)
    for s in loops(A, reach, v):
        cid, nid = I.states[s][0], I.node(s).id
        first = [t for t, l in I.succ[s] if l == "item"]
        if any(looked(A, x, e) for x in A.F.reach(first, stop_node=lambda y: y == s)):
            continue

        def bar(c):
            def f(x, y, l):
                if x == s or l not in ("T", "F"):
                    return False
                at = A.F.edge_atoms(x, l)
                if not at or not any(direct(t, e) for t, b in at):
                    return False
                try:
                    got = [holds_for(A, t, e, c) for t, b in at]
                except Undecided:
                    return True
                b = at[0][1]
                return b != any(got) if all(x[1] == b for x in at) else True
            return f

        def absent(c):
            """The text is known not to hold the character where the round starts."""
            def f(x, y, l):
                at = A.F.edge_atoms(x, l)
                return bool(at) and all(t.k == "cmp" and t.a[0] == "In" and t.a[2] is v and t.a[1].k == "const" and cval(t.a[1]) == c and b is False for t, b in at)
            return s not in A.F.reach(start, stop_edge=f)

        def raw(c):
            """Where the character is written as it is, and as a backslash and itself."""
            if absent(c):
                return None, None
            got = A.F.reach(first, stop_edge=bar(c), stop_node=lambda x: x == s)
            plain = slash = None
            for x in sorted(got):
                w = written(A, x)
                if w and all(t is e for t in w):
                    plain = x
                if w and all(t.k == "cat" and len(t.a) == 2 and t.a[1] is e and t.a[0].k == "const" and cval(t.a[0]) == "\\" for t in w):
                    slash = x
            return plain, slash

        con = "%s %s: %s" % (word, kind, I.func(s).qual.split(".")[-1])
        wrong = []
        for c, name in (("\\", "a backslash"), ("\n", "a line break")):
            plain, slash = raw(c)
            if plain is not None:
                wrong.append((name, "as it is", plain))
            if slash is not None and c == "\n":
                wrong.append((name, "as a backslash and a line break", slash))
        q = {c: raw(c)[0] for c in "\"'"}
        bare = {c: raw(c)[0] for c in "() "} if kind == "url" else {}
        if all(x is not None for x in q.values()):
            wrong.append(("any quote", "as it is", q["'"]))
        elif bare and (all(x is None for x in q.values()) or any(x is None for x in bare.values())):
            wrong += [({"(": "an opening parenthesis", ")": "a closing parenthesis", " ": "a space"}.get(c, "a quote"), "as it is", x)
                      for c, x in sorted({**bare, **q}.items()) if x is not None]
        R.obl(not wrong, "escaped", con, "within this kind %s can be written %s" % (wrong[0][:2] if wrong else ("", "")), A.where(wrong[0][2]) if wrong else "")
        if word == "stylesheet":
            open_ended(R, A, con, s, e)


def open_ended(R, A, con, s, e):
    """A character written by its number in hexadecimal has to be closed, or the following digits are taken for part of it."""
    I = A.I
    inside = A.F.reach([t for t, l in I.succ[s] if l == "item"], stop_node=lambda x: x == s)
    for x in sorted(inside):
        for t in written(A, x) or ():
            last = t.a[-1] if t.k == "cat" and isinstance(t.a[-1], T) else t
            if not number(last, e):
                continue
            stop = lambda y: y == s or written(A, y) is not None
            between = A.F.reach([x], stop_node=lambda y: y != x and stop(y))
            after = {y for z in between for y, l in I.succ[z] if stop(y)}
            w = [t2 for y in after if y != s for t2 in written(A, y) or ()]
            ends = bool(w) and s not in after and all((t2.a[0] if t2.k == "cat" else t2).k == "const" and str(cval(t2.a[0] if t2.k == "cat" else t2))[:1] in (" ", "\n", "\t") for t2 in w)
            R.obl(ends, "escaped", con + ": numbers", "a character is written by its number, and nothing ends the number", A.where(x))


def number(t, e):
    while t.k == "slice" or t.k == "call" and t.a[0] in ("lower", "upper") and len(t.a) > 1:
        t = t.a[0] if t.k == "slice" else t.a[1]
    return t.k == "call" and t.a[0] == "hex" and has(t, lambda z: z is e)
