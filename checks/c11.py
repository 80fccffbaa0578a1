"""C11: a cache-busting query carries the stored hash of the file its reference names."""
import ast
import re
from engine.q import *
from checks.out_common import *

TECHNIQUE = "value-flow terms: the text put before a cache-busting query, the path of the hash file read for it and the processor version are compared as symbolic terms over the reference; dominance of the tests for root-relative references without a query"


def check(R):
    p = R.p
    R.rule("stored hash", "the version in a query is the content of <output>.hash of a published file, next to the processor version")
    R.rule("same file", "the hash file read is the one of the path the query is appended to")
    R.rule("left alone", "no path adds a query to a reference which is not root-relative or already has a query or fragment")
    n = 0
    for c in manipulators(p):
        if not used(p, c):
            continue
        A, q = drive_manip(p, c, "build", linked=True)[:2]
        if not any(True for _ in sites(A)):
            continue
        R.uses(A)
        n += one(R, A, c)
    R.need("versioned references", n)


def used(p, c):
    """Whether anything but its own module refers to a rewriting step (imports do not count)."""
    for m in p.modules.values():
        if m.name == c.module.name:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id == c.name or isinstance(x, ast.Attribute) and x.attr == c.name:
                return True
    return False


def query(t):
    """(reference parts, query parts) of a text with a cache-busting query, or None."""
    if t.k != "cat":
        return None
    before, after, seen = [], [], False
    for x in t.a:
        if seen:
            after.append(x)
        elif isstr(x) and "?" in cval(x):
            i = cval(x).index("?")
            if cval(x)[:i]:
                before.append(const(cval(x)[:i]))
            if cval(x)[i + 1:]:
                after.append(const(cval(x)[i + 1:]))
            seen = True
        else:
            before.append(x)
    if not seen or not before:
        return None
    if any(is_call(x, "urllib.parse.urlencode", "urlencode") for x in after) or any(isstr(x) and (cval(x).startswith(("v=", "pv=")) or "&v=" in cval(x) or "&pv=" in cval(x)) for x in after):
        return before, after
    return None


def sites(A):
    """(state, term) of every place where a query is put behind a reference."""
    I = A.I
    for s in range(len(I.states)):
        n = I.node(s)
        if n.dst and n.op in ("concat", "bin", "augop", "call"):
            for t in I.V.get((I.states[s][0], n.id), ()):
                if query(t) is not None:
                    yield s, t


WRAP = ("strip", "str", "decode", "rstrip", "quote", "quote_plus", "urllib.parse.quote")


def content(t):
    """Path of the file whose content a value is."""
    while t.k == "call" and t.a[0].split(".")[-1] in WRAP and len(t.a) > 1:
        t = t.a[1]
    if t.k == "read":
        return t.a[0]
    if t.k == "call" and t.a[0].split(".")[-1] in ("read_text", "read") and len(t.a) > 1:
        return t.a[1].a[0] if t.a[1].k == "file" else t.a[1]
    return None


def version_of(A, after):
    """(values of the version, values of the processor version) of a query."""
    I = A.I
    v, pv = set(), set()
    text = ""
    for x in after:
        if is_call(x, "urllib.parse.urlencode", "urlencode"):
            for d in x.a[1:]:
                if not isinstance(d, T):
                    continue
                if d.k == "dict":
                    v |= A.V(d, "['v'"); pv |= A.V(d, "['pv'")
                    if not A.V(d, "['v'"):
                        v |= {y for y in A.V(d, "*v") if content(y) is not None}
                        pv |= {y for y in A.V(d, "*v") if y.k == "const"}
                elif d.k in ("list", "tup"):
                    es = I.elems(None, frozenset([d])) if d.k == "list" else [y for z in d.a[0] for y in z]
                    for e in es:
                        if e.k == "tup" and len(e.a[0]) == 2:
                            for k in e.a[0][0]:
                                if isstr(k):
                                    (v if cval(k) == "v" else pv if cval(k) == "pv" else set()).update(e.a[0][1])
        elif isstr(x):
            text = text + cval(x)
            if "pv=" in text and "&" + text.split("pv=", 1)[1]:
                pv.add(const(text.split("pv=", 1)[1].split("&")[0]))
        else:
            if text.endswith("pv="):
                pv.add(x)
            elif text.endswith("v="):
                v.add(x)
            text += "\0"
    return v, {x for x in pv if not (isstr(x) and cval(x) == "" )}


def low(t):
    """One normal form for a reference without its leading slash."""
    if t.k == "call" and t.a[0].split(".")[-1] in ("removeprefix", "lstrip") and len(t.a) == 3 and isstr(t.a[2]) and cval(t.a[2]) == "/":
        return mk("slice", low(t.a[1]), const(1), NONE) if False else ("tail", low(t.a[1]))
    if t.k in ("slice",) or (t.k == "call" and t.a[0] == "slice"):
        a = t.a if t.k == "slice" else t.a[1:]
        if len(a) >= 3 and a[1] is const(1) and a[2] is NONE:
            return ("tail", low(a[0]))
    if t.k == "item" and t.a[0].k == "call" and t.a[0].a[0].split(".")[-1] == "split" and isstr(t.a[0].a[2]) and cval(t.a[0].a[2]) == "/" and len(t.a[0].a) == 4 and t.a[1] is const(1):
        return ("tail", low(t.a[0].a[1]))
    if t.k == "call" and t.a[0].split(".")[-1] in ("normpath", "fspath", "str") and len(t.a) == 2:
        return low(t.a[1])
    return t


def parts_of(path):
    r = folder_of(path)
    if r is None:
        return None
    r = cat(list(r))
    return list(r.a) if r.k == "cat" else [r]


def key(parts):
    """Normal form of a root-relative reference, without its leading slash; tuple of parts."""
    ps = list(parts)
    if ps and isstr(ps[0]):
        if not cval(ps[0]).startswith("/"):
            return None
        ps[0] = const(cval(ps[0])[1:])
    else:
        ps[0] = ("tail", low(ps[0]))
    return norm(ps)


def hashkey(path):
    """The same for the published file a hash path belongs to, or None."""
    r = parts_of(path)
    if not r or not isstr(r[0]) or not cval(r[0]).startswith("out/www/") or not isstr(r[-1]) or not cval(r[-1]).endswith(".hash"):
        return None
    r[0] = const(cval(r[0])[len("out/www/"):]) if len(r) > 1 else const(cval(r[0])[len("out/www/"):-len(".hash")])
    if len(r) > 1:
        r[-1] = const(cval(r[-1])[:-len(".hash")])
    return norm(r)


def norm(ps):
    ps = [low(x) if isinstance(x, T) else x for x in ps if not (isinstance(x, T) and isstr(x) and not cval(x))]
    if not ps:
        return None
    if isinstance(ps[0], T) and isstr(ps[0]) and len(ps) > 1:
        # a file the step names itself: counters at different rounds, and the shortened path of the page, are the same
        return tuple(made(x) for x in ps)
    return tuple(ps)


def made(x):
    while isinstance(x, T) and (x.k == "slice" or x.k == "call" and x.a[0] == "slice"):
        x = x.a[0] if x.k == "slice" else x.a[1]
    x = show(x) if isinstance(x, T) else str(x)
    x = re.sub(r"\bn\d+\.\d+\b", "#", x)
    return re.sub(r"^'(.*)'$", lambda m: "'" + re.sub(r"\d+", "#", m.group(1)) + "'", x)


def raw(t):
    """References of the document a text stems from (not through arbitrary calls)."""
    if t.k == "item" and has(t, lambda x: x.k == "sent" or x.k == "sym" and x.a[0] in ("node", "token")):
        return {t}
    out = set()
    if t.k in ("cat",):
        for x in t.a:
            out |= raw(x)
    elif t.k == "slice":
        out |= raw(t.a[0])
    elif t.k == "call" and t.a[0].split(".")[-1] in ("slice", "abspath", "relpath", "normpath", "join", "replace", "removeprefix", "lstrip", "strip", "str", "unquote"):
        out |= raw(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], T) else set()
    return out


def mixed(k, refs, hashes):
    """A folder and a name out of two of several references, each of which has its own hash: the alternatives of a table which
    was looked up once."""
    own = [x for x in refs if x and all(isinstance(y, str) for y in x)]
    if k is None or not all(isinstance(y, str) for y in k) or len(own) < 2 or not all(x in hashes for x in own):
        return False
    cut = lambda x: "".join(y.strip("'") for y in x).rpartition("/")[::2]
    d, n = cut(k)
    return any(cut(x)[0] == d for x in own) and any(cut(x)[1] == n for x in own)


def one(R, A, c):
    I = A.I
    p = A.p
    con = c.name
    pvs = {const(x.value) for x in constants(p)}
    n = 0
    groups = {}
    for s, t in sites(A):
        groups.setdefault(s, []).append(t)
    everywhere = {key(query(t)[0]) for ts in groups.values() for t in ts}
    for s, ts in groups.items():
        refs, hashes = {}, {}
        for t in ts:
            before, after = query(t)
            v, pv = version_of(A, after)
            n += 1
            R.obl(bool(pv) and pv <= pvs, "stored hash", con + ": processor version", "a query carries %s instead of the processor version" % (show(frozenset(pv)) if pv else "nothing"), A.loc(s))
            if not R.obl(bool(v), "stored hash", con + ": version", "a query without a version", A.loc(s)):
                continue
            if any(content(x) is not None for x in v):
                v = {x for x in v if x is not NONE}
            for x in v:
                path = content(x)
                k = hashkey(path) if path is not None else None
                if R.obl(k is not None, "stored hash", con + ": version", "the version is not the content of the hash of a published file but " + show(x)[:120], A.loc(s)):
                    hashes[k] = x
            k = key(before)
            refs[k] = before
        if not hashes:
            continue
        for k, x in hashes.items():
            R.obl(k in refs or mixed(k, refs, hashes) or k in everywhere and any(y in refs for y in hashes), "same file", con, "the hash of %s is put behind %s" % (show(content(x))[:100], ", ".join(sorted(show(cat(b))[:80] for b in refs.values()))[:200]), A.loc(s))
        for k, b in refs.items():
            if k in hashes or noise(b):
                continue
            own = raw(cat(b))
            if any(y in hashes for y in refs) and len(b) == 1 and b[0] in own:
                continue            # a value of the document which the replaced token merely might share
            R.bad("same file", con, "%s gets the hash of another file" % show(cat(b))[:120], A.loc(s))
        n += kept(R, A, con, hashes)
        # what gets a query
        for k, b in refs.items():
            if k not in hashes or isstr(b[0]) and cval(b[0]) != "/":
                continue            # a file the step made up itself
            for x in raw(cat(b)):
                n += guards(R, A, s, x, con, len(b) > 1 or b[0] is not x)
    return n


def kept(R, A, con, hashes):
    """Hashes which outlive a token: kept under a key which tells files apart, or set again before every use."""
    I = A.I
    n = 0
    paths = {content(x) for x in hashes.values()}
    mine = lambda vs: any(content(x) in paths for x in vs)
    roots = {I.states[y][0] for y in A.F.starts()}
    for s in A.F.node_states("setsub"):
        nd = I.node(s)
        if not mine(I.rv(s, nd.a["src"])):
            continue
        for d in I.rv(s, nd.a["obj"]):
            if d.k not in ("dict", "ext", "obj", "sym", "attr"):
                continue
            ks = I.rv(s, nd.a["idx"])
            n += 1
            R.obl(all(telling(k) for k in ks), "same file", con + ": kept hashes", "hashes are kept under %s, which several files share" % show(ks)[:120], A.loc(s))
    for s in A.F.node_states("setattr"):
        nd = I.node(s)
        if not mine(I.rv(s, nd.a["src"])):
            continue
        objs, name = I.rv(s, nd.a["obj"]), nd.a["name"]
        sets = {y for y in A.F.node_states("setattr") if I.node(y).a["name"] == name and I.rv(y, I.node(y).a["obj"]) & objs and (mine(I.rv(y, I.node(y).a["src"])) or I.rv(y, I.node(y).a["src"]) <= {NONE})}
        for y in A.F.node_states("attr"):
            ny = I.node(y)
            if ny.a["name"] != name or not (I.rv(y, ny.a["obj"]) & objs):
                continue
            if only_tested(A, y):
                continue
            bad = A.F.guarded([y], lambda a, b, l: a in sets and I.rv(a, I.node(a).a["src"]) != {NONE} or same_as(A, a, l, objs), lambda a: I.states[a][0] in roots)
            n += 1
            R.obl(not bad, "same file", con + ": kept hashes", "the hash kept in %s may be the one of an earlier reference" % name, A.loc(y))
    return n


def only_tested(A, y):
    """The value read at y only goes into a condition."""
    I = A.I
    t, _ = I.succ[y][0]
    for _ in range(4):
        n = I.node(t)
        if n.op == "branch":
            return True
        if n.op not in ("const", "cmp", "unop", "nop") or len(I.succ[t]) != 1:
            return False
        t = I.succ[t][0][0]
    return False


def same_as(A, a, l, objs):
    """An edge on which a kept key was found equal to something."""
    return l in ("T", "F") and any(v and t.k == "cmp" and t.a[0] == "Eq" and any(z.k == "attr" and z.a[0] in objs or z.k in ("init",) for z in t.a[1:]) for t, v in A.F.edge_atoms(a, l) or [])


def telling(k):
    """Whether a key tells references apart."""
    if k.k == "call" and k.a[0].split(".")[-1] in ("basename", "dirname", "splitext", "splitext0", "split", "len", "extension", "suffix"):
        return False
    if k.k in ("item", "slice") and k.a[0].k == "call" and k.a[0].a[0].split(".")[-1] in ("split", "rsplit", "splitext", "rpartition", "partition"):
        return False
    if k.k == "cat":
        return any(telling(x) for x in k.a if not isstr(x))
    return not isstr(k)


def noise(b):
    return any(x is NONE or x.k == "item" and has(x, lambda y: y is NONE) and not has(x, lambda y: y.k in ("sym", "sent")) for x in b)


def constants(p):
    for m in p.modules.values():
        if m.name == PKG + "constants":
            for x in m.tree.body:
                if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == "PROCESSOR_VERSION" for y in x.targets):
                    yield x.value


def first_char(y, x):
    """y is the first character of x."""
    return y.k == "item" and y.a[0] is x and y.a[1] is const(0) or is_slice(y, x, 1)


def is_slice(y, x, n):
    a = y.a if y.k == "slice" else y.a[1:] if y.k == "call" and y.a[0] == "slice" else ()
    return len(a) >= 3 and a[0] is x and (a[1] is NONE or a[1] is const(0)) and a[2] is const(n)


def prefixed(t, x, texts):
    """Condition 'x starts with one of texts'."""
    if t.k == "call" and t.a[0].split(".")[-1] == "startswith" and len(t.a) > 2 and t.a[1] is x:
        y = t.a[2]
        if isstr(y):
            return cval(y) in texts
        if y.k == "tup":
            return all(isstr(z) and cval(z) in texts for zs in y.a[0] for z in zs)
    if t.k == "cmp" and t.a[0] == "Eq":
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if isstr(b) and cval(b) in texts and (is_slice(a, x, len(cval(b))) or len(cval(b)) == 1 and first_char(a, x)):
                return True
    return False


def guards(R, A, s, x, con, rewritten):
    I = A.I
    js = x.k == "item" and has(x, lambda y: y.k == "sent")
    roots = ("/", "./", "../") if js else ("/",)
    starts_ = A.F.starts()
    g = A.holds(lambda t, v: v and prefixed(t, x, roots))
    bad = A.F.guarded([s], g, None, starts_)
    R.obl(not bad, "left alone", con + ": root-relative", "a query is added to references which are not root-relative", A.loc(s))
    g = A.holds(lambda t, v: not v and prefixed(t, x, ("//",)))
    bad = A.F.guarded([s], g, None, starts_)
    R.obl(not bad, "left alone", con + ": protocol-relative", "a query is added to references which start with two slashes (another host)", A.loc(s))
    for ch, what in (("?", "query"), ("#", "fragment")):
        tests, free = set(), set()
        for b in range(len(I.states)):
            if not A.F.is_branch(b):
                continue
            for t, l in I.succ[b]:
                if l in ("T", "F") and says(A, b, l, x, ch, True) and not onward(A, t, s):
                    tests.add(b)        # having found one, the place is not reached for this reference
        for b in tests:
            free |= {(b, t, l) for t, l in I.succ[b] if l in ("T", "F") and says(A, b, l, x, ch, False)}
        for b in range(len(I.states)):
            n = I.node(b)
            if n.op == "next":
                its = I.rv(b, n.a["it"])
                body = A.F.reach([t for t, l in I.succ[b] if l == "item"], None, lambda y: y == b)
                if any(y in body for y in tests) and (x in its or any(isstr(z) and ch in cval(z) for z in its) or any(isstr(z) and ch in cval(z) for z in I.elems(None, its))):
                    free |= {(b, t, l) for t, l in I.succ[b] if l == "done"}
        ok = not A.F.guarded([s], lambda a, b, l: (a, b, l) in free, None, starts_)
        R.obl(ok, "left alone", con + ": " + what, "a query is added to references which already have a " + what, A.loc(s))
    return 4


def says(A, b, l, x, ch, want):
    ats = A.F.edge_atoms(b, l) or []
    return bool(ats) and all(holds_char(a, v, x, ch) is want for a, v in ats)


def onward(A, t, s):
    """Whether s is reached from t before the next token."""
    root = {A.I.states[y][0] for y in A.F.starts()}
    return s in A.F.reach([t], None, lambda y: A.I.states[y][0] in root)


def holds_char(t, v, x, ch):
    """True: the reference contains ch under this condition; False: it does not contain it; None: says nothing."""
    if t.k == "cmp" and t.a[0] in ("In", "NotIn"):
        l, r = t.a[1], t.a[2]
        pos = v if t.a[0] == "In" else not v
        if r is x and isstr(l) and cval(l) == ch:
            return pos
        if r is x and l.k in ("each", "elem", "call", "item") and has(l, lambda y: isstr(y) and ch in cval(y)):
            return pos or None      # one of several characters is not in it
        if isstr(r) and ch in cval(r) and l is not x and has(l, lambda y: y is x):
            return pos or None
    if t.k == "cmp" and t.a[0] in ("Eq", "Lt", "GtE", "Gt") and t.a[1].k == "call" and t.a[1].a[0].split(".")[-1] in ("find", "count") and has(t.a[1], lambda y: y is x) and has(t.a[1], lambda y: isstr(y) and cval(y) == ch):
        c = t.a[2]
        f = t.a[1].a[0].split(".")[-1]
        if f == "find":
            if t.a[0] == "Eq" and c is const(-1): return not v
            if t.a[0] == "Lt" and c is const(0): return not v
            if t.a[0] == "GtE" and c is const(0): return v
            if t.a[0] == "Gt" and c is const(-1): return v
        else:
            if t.a[0] == "Eq" and c is const(0): return not v
            if t.a[0] == "Gt" and c is const(0): return v
    if t.k == "call" and t.a[0].split(".")[-1] == "count" and has(t, lambda y: y is x) and has(t, lambda y: isstr(y) and cval(y) == ch):
        return v
    if (t.k in ("attr", "call") and has(t, lambda y: y is x)) and ((ch == "?" and t.k == "attr" and t.a[1] == "query") or (ch == "#" and t.k == "attr" and t.a[1] == "fragment")):
        return v
    if t.k == "call" and t.a[0].split(".")[-1] in ("search",) and has(t, lambda y: y is x) and has(t, lambda y: isstr(y) and ch in cval(y)):
        return v
    return None
