"""Does a deletion or listing tolerate that the path is gone?"""
from .q import *
from .absint import exc_sub


def intolerant(A, s, exc="FileNotFoundError"):
    """True when the exception (FileNotFoundError) raised at state s can end its entry point exceptionally."""
    I, F = A.I, A.F
    st = [t for t, l in I.succ[s] if l == "exc"]
    if not st:
        return False
    root = A.ancestors(s)[-1]
    # follow only the handling of the error, up to where it is caught
    seen = set(st); work = list(st)
    while work:
        q = work.pop()
        cid, pc, part = I.states[q]
        if cid == root and pc == I.ctxs[cid].ir.excexit:
            return True
        n = I.node(q)
        if n.op == "dispatch":
            m = I.ctxs[cid].func.module
            caught = any(ty is None or any(exc_sub(I.p, exc, I.exc_name(x, m)) == "yes" for x in ty) for ty in n.a["types"])
            if caught:
                continue
            for t, l in I.succ[q]:
                if l == "exc" and t not in seen:
                    seen.add(t); work.append(t)
            continue
        for t, l in I.succ[q]:
            if t not in seen:
                seen.add(t); work.append(t)
    return False


def caught(A, s, exc):
    """The handlers which catch the exception ``exc`` raised at state s."""
    I = A.I
    st = [t for t, l in I.succ[s] if l == "exc"]
    seen = set(st); work = list(st); out = set()
    while work:
        q = work.pop()
        n = I.node(q)
        if n.op == "dispatch":
            m = I.ctxs[I.states[q][0]].func.module
            hit = None
            for i, ty in enumerate(n.a["types"]):
                if ty is None or any(exc_sub(I.p, exc, I.exc_name(x, m)) == "yes" for x in ty):
                    hit = i
                    break
            for t, l in I.succ[q]:
                if hit is None and l == "exc" and t not in seen:
                    seen.add(t); work.append(t)
                if hit is not None and l == "caught" and t not in out:
                    # the one handler which is entered
                    if I.node(t).op != "handler" or I.states[t][1] == [x for x, y in n.succ if y == ("h", hit)][0]:
                        out.add(t)
            continue
        for t, l in I.succ[q]:
            if t not in seen:
                seen.add(t); work.append(t)
    return out
