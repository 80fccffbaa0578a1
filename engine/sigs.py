"""File signatures: measured, remembered, compared."""
from .q import *

ST = {"mtime": "st_mtime", "filesize": "st_size", "inode": "st_ino"}
FIELDS = tuple(ST)


def fields_of(A, t, name):
    if t.k in ("obj", "repl"):
        return A.I.getattr_(None, t, name)
    return frozenset()


def measured(A, x):
    """(path, field) when x is a measured component of a signature."""
    if x.k == "attr" and x.a[1] in ST.values() and x.a[0].k == "call" and x.a[0].a[0].split(".")[-1].lstrip(".") in ("lstat", "stat"):
        return x.a[0].a[1], [f for f in FIELDS if ST[f] == x.a[1]][0]
    return None


def sig_of_path(A, t):
    """The path measured by a whole signature value."""
    p = None
    for f in FIELDS:
        vals = [x for x in fields_of(A, t, f) if not isconst(x, "int")]
        if not vals:
            return None
        for x in vals:
            m = measured(A, x)
            if m is None or m[1] != f or (p is not None and m[0] is not p):
                return None
            p = m[0]
    return p


def whole_eq(A, cls="FileSignature"):
    """Does == on signatures compare every field?"""
    c = find_cls(A.p, cls)
    if c is None:
        return False
    for k in A.p.mro(c):
        if "__eq__" in k.methods:
            return False
    deco = [d for d in c.node.decorator_list]
    if not any("dataclass" in ast.unparse(d) or "NamedTuple" in ast.unparse(d) for d in deco) and not any("NamedTuple" in ast.unparse(b) for b in c.node.bases):
        return False
    if any("eq=False" in ast.unparse(d).replace(" ", "") for d in deco):
        return False
    for f in FIELDS:
        d = A.p.field_default(c, f)
        if d is not None and "compare=False" in ast.unparse(d[0]).replace(" ", ""):
            return False
    return True


import ast
