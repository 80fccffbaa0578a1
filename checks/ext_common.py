"""What C02 and C03 share about external files."""
from engine.q import *

ENTRY = B + "cold_incremental_rebuild.check_external_files"


def ext_item(t):
    """The configured external file a value belongs to: val(context.external_files) for any way to name it."""
    if t.k in ("val", "item") and t.a[0].k == "attr" and t.a[0].a[1] == "external_files":
        return mk("val", t.a[0])
    if t.k == "key" and t.a[0].k == "attr" and t.a[0].a[1] == "external_files":
        return mk("val", t.a[0])
    return None


def ext_key(t):
    """The external file whose relpath (key) t is."""
    if t.k == "attr" and t.a[1] == "relpath":
        return ext_item(t.a[0])
    if t.k == "key":
        return ext_item(t)
    return None


def ext_loops(A):
    """next-states iterating over the configured external files, with their item states."""
    I = A.I
    out = {}
    for s in range(len(I.states)):
        n = I.node(s)
        if n.op != "next":
            continue
        els = I.elems(None, I.rv(s, n.a["it"]))
        hit = False
        for x in els:
            for y in [x] + ([z for p in x.a[0] for z in p] if x.k == "tup" else []):
                if ext_item(y) is not None:
                    hit = True
        if hit:
            out[s] = [t for t, l in I.succ[s] if l == "item"]
    return out


def processing(A):
    """States which hand an external file to the code that downloads it (a job or a call), by the calling context of the download."""
    I = A.I
    moves = set()
    for e in A.F.effects():
        if e.kind in ("rename", "write", "copy"):
            for t in e.path:
                r = folder_of(t)
                if r is not None and len(r) == 1 and ext_key(r[0]) is not None:
                    moves.add(e.sid)
    out = set()
    for m in moves:
        chain = A.ancestors(m)
        root = chain[-1]
        sp = [k for k, c in A.spawned.items() if c == root]
        if sp:
            out |= {k[0] for k in sp}
            continue
        # the outermost call below the loop over the external files
        loops = {I.states[s][0] for s in ext_loops(A)}
        for c in chain:
            cs = I.ctxs[c].csid
            if cs is not None and I.states[cs][0] in loops:
                out.add(cs)
    return out, moves


def falsy_ext(x, v):
    if x.k == "attr" and x.a[1] == "external_files":
        return v is False
    if x.k == "call" and x.a[0] == "len" and x.a[1].k == "attr" and x.a[1].a[1] == "external_files":
        return v is False
    if x.k == "cmp" and x.a[0] in ("Is", "Eq") and x.a[1].k == "attr" and x.a[1].a[1] == "external_files" and x.a[2] is NONE:
        return v is True
    if x.k == "cmp" and x.a[0] == "Eq" and x.a[1].k == "call" and x.a[1].a[0] == "len" and x.a[1].a[1].k == "attr" and x.a[1].a[1].a[1] == "external_files":
        return v is True
    return False


def handlers(A):
    """Processing states plus states adding an item to a list every element of which is processed."""
    I, F = A.I, A.F
    P, moves = processing(A)
    loops = ext_loops(A)
    extra = set(); conts = set()
    for s, items in loops.items():
        its = [t for t in I.rv(s, I.node(s).a["it"]) if t.k in ("list", "set", "dict")]
        if not its:
            continue
        r = F.reach(items, stop_edge=A.done(P))
        if s in r:
            continue
        for o in its:
            before = len(extra)
            for q in range(len(I.states)):
                n = I.node(q)
                if n.op == "accadd" and o in I.rv(q, n.a["obj"]):
                    extra.add(q)
            extra |= set(A.calls(lambda f, a, k: f.k == "meth" and f.a[0] is o and f.a[1] in ("append", "add")))
            if len(extra) > before:
                conts.add(o)
    A.todo_lists = conts
    return P | extra, P, moves
