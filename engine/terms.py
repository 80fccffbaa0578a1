"""Interned symbolic terms: what a value was computed from."""


class T:
    __slots__ = ("k", "a", "sz", "_s")

    def __repr__(self):
        return show(self)


_intern = {}
MAXSZ = 1200


def mk(k, *a):
    key = (k,) + a
    t = _intern.get(key)
    if t is None:
        sz = 1
        for x in a:
            if isinstance(x, T):
                sz += x.sz
            elif isinstance(x, frozenset):
                sz += max([y.sz for y in x] or [0])
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        sz += y.sz
                    elif isinstance(y, frozenset):
                        sz += max([z.sz for z in y] or [0])
        if sz > MAXSZ and k != "any":
            return ANY
        t = T()
        t.k = k; t.a = a; t.sz = sz; t._s = None
        _intern[key] = t
    return t


ANY = mk("any")


def const(v):
    return mk("const", type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
EMPTY = frozenset()


def isconst(t, typ=None):
    return t.k == "const" and (typ is None or t.a[0] == typ)


def cval(t):
    return t.a[1]


def isstr(t):
    return t.k == "const" and t.a[0] == "str"


def show(t):
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(show(x) for x in t)) + "}"
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    k, a = t.k, t.a
    if k == "const": s = repr(a[1])
    elif k == "sym": s = a[0]
    elif k == "attr": s = "%s.%s" % (show(a[0]), a[1])
    elif k == "cat": s = "<" + "+".join(show(x) if not isstr(x) else repr(cval(x)) for x in a) + ">"
    elif k == "elem": s = "each(%s)" % show(a[0])
    elif k == "item": s = "%s[%s]" % (show(a[0]), show(a[1]))
    elif k == "call": s = "%s(%s)" % (a[0].split(".")[-1] if "." in a[0] else a[0], ", ".join(show(x) for x in a[1:]))
    elif k == "obj": s = "new %s#%s" % (a[0].split(".")[-1], a[2])
    elif k == "choice": s = a[0]
    elif k == "alt": s = " / ".join(sorted(show(x) for x in a[0]))
    elif k in ("list", "dict", "set"): s = "%s#%s.%s" % (k, a[0], a[1])
    elif k == "tup": s = "(" + ", ".join(show(x) for x in a[0]) + ")"
    elif k == "func": s = a[0].split(".")[-1]
    elif k == "bound": s = "%s.%s" % (show(a[0]), a[1].split(".")[-1])
    elif k == "ext": s = a[0]
    elif k == "cmp": s = "%s %s %s" % (show(a[1]), a[0], show(a[2]))
    elif k == "not": s = "not(%s)" % show(a[0])
    elif k == "any": s = "?"
    elif k == "count": s = "n%s.%s" % a
    else: s = "%s(%s)" % (k, ", ".join(show(x) for x in a))
    if len(s) > 300:
        s = s[:300] + "…"
    t._s = s
    return s


def subterms(t, seen=None):
    st = [t]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, frozenset):
                st.extend(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, frozenset):
                        st.extend(z)


# ---- strings and paths

def cat(parts):
    out = []
    for p in parts:
        if p.k == "cat":
            for q in p.a:
                _push(out, q)
        else:
            _push(out, p)
    if not out:
        return const("")
    if len(out) == 1 and isstr(out[0]):
        return out[0]
    if len(out) == 1:
        return out[0] if out[0].k != "const" else const(str(cval(out[0])))
    if len(out) > 24:
        return ANY
    return mk("cat", *out)


def _push(out, p):
    if p.k == "const" and p.a[0] in ("int",):
        p = const(str(cval(p)))
    if isstr(p):
        if cval(p) == "":
            return
        if out and isstr(out[-1]):
            out[-1] = const(cval(out[-1]) + cval(p))
            return
    out.append(p)


def parts(t):
    return list(t.a) if t.k == "cat" else [t]


def join(a, b):
    if isstr(b) and cval(b).startswith("/"):
        return b
    if isstr(b) and cval(b) == "":
        b = const("")
    if isstr(a) and cval(a) == "":
        return b
    pa = parts(a)
    if isstr(pa[-1]) and cval(pa[-1]).endswith("/"):
        return cat(pa + parts(b))
    pb = parts(b)
    if isstr(pb[0]) and cval(pb[0]).startswith("/"):
        return cat(pb)
    return cat(pa + [const("/")] + pb)


def starts(t, base):
    """The rest of path ``t`` below path ``base`` (a list of parts), or None."""
    pt, pb = parts(t), parts(base)
    if len(pt) < len(pb):
        return None
    n = len(pb)
    for i in range(n - 1):
        if pt[i] is not pb[i]:
            return None
    l, m = pt[n - 1], pb[n - 1]
    if l is m:
        rest = pt[n:]
    elif isstr(l) and isstr(m) and cval(l).startswith(cval(m)):
        rest = [const(cval(l)[len(cval(m)):])] + pt[n:]
    else:
        return None
    if not rest:
        return []
    if isstr(m) and cval(m).endswith("/"):
        return rest
    if isstr(rest[0]) and cval(rest[0]).startswith("/"):
        r0 = cval(rest[0])[1:]
        return ([const(r0)] if r0 else []) + rest[1:]
    return None


def relpath(t, base):
    r = starts(t, base)
    if r is None:
        return None
    return cat(r) if r else const(".")


def dirname(t):
    ps = parts(t)
    out = list(ps)
    tail = []
    while out:
        l = out[-1]
        if isstr(l) and "/" in cval(l):
            i = cval(l).rindex("/")
            head, rest = cval(l)[:i], cval(l)[i + 1:]
            pre = cat(out[:-1] + ([const(head)] if head else []))
            inner = [p for p in tail if not isstr(p) and p.k != "count"]
            if not inner:
                return pre if (head or len(out) > 1) else const("/" if cval(l) == "/" else "")
            x = cat(([const(rest)] if rest else []) + tail)
            return join(pre, mk("call", "os.path.dirname", x))
        tail.insert(0, l)
        out.pop()
    if all(isstr(p) for p in ps):
        return const("")
    return mk("call", "os.path.dirname", t)


def basename(t):
    ps = parts(t)
    l = ps[-1]
    if isstr(l) and "/" in cval(l):
        return const(cval(l)[cval(l).rindex("/") + 1:])
    if isstr(l) and len(ps) == 1:
        return l
    if len(ps) >= 2 and isstr(ps[-2]) and cval(ps[-2]).endswith("/"):
        return mk("call", "os.path.basename", l)
    return mk("call", "os.path.basename", t)


def splitext(t):
    ps = parts(t)
    l = ps[-1]
    if isstr(l):
        s = cval(l)
        b = s[s.rindex("/") + 1:] if "/" in s else s
        if "." in b and (len(b) > b.index(".") and (b.rindex(".") > 0 or len(ps) > 1)):
            i = s.rindex(".")
            return cat(ps[:-1] + [const(s[:i])]), const(s[i:])
    return mk("call", "os.path.splitext0", t), mk("call", "os.path.splitext1", t)
