"""C37: tokenizing terminates."""
from engine.q import *
from engine.progress import Progress, TooBig, K, UNK, method_name
from engine.flow import Flow

TECHNIQUE = "abstract interpretation of every loop of the tokenizers over sets of upcoming characters: a cycle of the loop which reads nothing, or one which is not left at the end of the input, is a hang"
TOK = [B + x for x in ("css.tokenizer", "js.tokenizer", "css.manips.icons.tokenizer")]
IO = B + "ioutil."
READERS = ("peek", "read")


def reader(f):
    m = method_name(f)
    return m if m in READERS else None


def check(R):
    R.rule("progress", "while there is input, no way around a loop leaves it untouched: each round reads something or leaves")
    R.rule("ends", "at the end of the input, where looking and reading give nothing, no loop can be repeated forever")
    R.rule("input", "the input says None at its end, gives up looking for more when there is no more, and forgets what was read")
    io = [q for q in R.p.funcs if q.startswith(IO) and q.rsplit(".", 1)[-1] in READERS]
    n = 0
    for m in TOK:
        q = m + ".tokenize"
        if q not in R.p.funcs:
            continue
        A = Ana(R.p, [(q, {}, None)], opaque=OPAQUE + tuple(io), inline=lambda f: "unicode_derived" not in f.qual)
        R.uses(A)
        p = Progress(A, reader)
        for h in p.heads():
            for ended, rule, msg in ((False, "progress", "a round of this loop can go by without reading any input, again and again"),
                                     (True, "ends", "at the end of the input this loop can go on forever")):
                loc = A.loc(p.F.at[h][0])
                name = "%s:%s" % (A.I.ctxs[h[0]].func.qual.replace("vanillaplusjs.", ""), rule)
                try:
                    c = p.hangs(h, ended)
                except TooBig:
                    R.assume.append("%s: too many cases, not decided" % loc)
                    continue
                R.obl(c is None, rule, name, msg, loc, steps(A, p, c))
                n += 1
        R.count("states explored", p.states)
    inputs(R, io)


def steps(A, p, c):
    out = []
    for x in c or ():
        for s in p.F.at.get(x[:2], ())[:1]:
            l = A.loc(s)
            nxt = [sorted(s2, key=repr) for s2 in x[3][:2] if len(s2) < 12]
            l = l + (" (next: %s)" % ", ".join("/".join("end" if ch is None else repr(ch) for ch in s2) for s2 in nxt) if nxt else "")
            if not out or out[-1] != l:
                out.append(l)
    return out[:14]


def inputs(R, io):
    """The input classes."""
    low = [q for q in R.p.funcs if q.startswith(IO) and q.rsplit(".", 1)[-1] in ("_peek", "_read")]
    for q in sorted(io):
        cls = q.rsplit(".", 2)[-2]
        kind = q.rsplit(".", 1)[-1]
        A = Ana(R.p, [(q, {}, None)], opaque=OPAQUE + tuple(x for x in io if x != q), inline=lambda f: True)
        R.uses(A)
        cid = A.I.states[A.start(A.eid[q])[0]][0] if hasattr(A, "start") else 0
        # nothing left
        for nothing in (K(""), K(None)):
            p = Progress(A, lambda f: None, given={"peek": nothing, "read": nothing})
            for eof in (True, False):
                env = {"n": K(1), ("field", "buffer"): K(""), ("field", "seen_eof"): K(eof)}
                try:
                    vals, cyc = p.results(cid, env)
                except TooBig:
                    continue
                loc = "%s in %s" % (A.loc(A.start(A.eid[q])[0]).split(" in ")[0], q)
                R.obl(cyc is None, "input", "%s.%s:ends" % (cls, kind), "with nothing left to read, this never returns", loc, steps(A, p, cyc))
                for v, x in sorted(vals.items(), key=repr):
                    empty = v == K(None) or (cls.startswith("Peekable") and v == K(""))
                    if v == UNK or v[0] != "k":
                        continue
                    R.obl(empty, "input", "%s.%s:none" % (cls, kind), "with nothing left to read, this gives %r and not None: the tokenizers go on" % (v[1],), A.loc(p.F.at[x[:2]][0]), ())
        # looking further finds nothing new
        p = Progress(A, lambda f: None, given={"peek": ("rest",), "_peek": ("rest",), "read": K(None), "_read": K(None)})
        for h in p.heads():
            try:
                c = p.hangs(h, True)
            except TooBig:
                continue
            R.obl(c is None, "input", "%s.%s:more" % (cls, kind), "when no more input comes this loop goes on asking for it", A.loc(p.F.at[h][0]), steps(A, p, c))
        if kind == "read":
            forgets(R, A, q, cls)


def calls(A):
    for sid, f, args, kws, e in A.F.calls():
        yield sid, method_name(f)


def forgets(R, A, q, cls):
    """What read returns from the buffer is gone from it."""
    I = A.I
    fl = Flow(A)
    held = lambda c, pc, r: any(fl.node(*x).op == "attr" and fl.node(*x).a["name"] == "buffer" for x in fl.slice(c, pc, r, stop=lambda c2, p2, n: n.op == "attr"))
    sets = set()
    for s in A.F.node_states("setattr"):
        n = I.node(s)
        if n.a["name"] == "buffer":
            sets.add(s)
    rets = []
    for s in A.F.node_states("ret"):
        if I.func(s).qual != q:
            continue
        if held(*I.states[s][:2], I.node(s).a["src"]):
            rets.append(s)
    if not rets:
        return
    bad = A.F.guarded(rets, gen=lambda s, t, l: s in sets, start=A.start(A.eid[q]))
    for s in rets:
        R.obl(s not in bad, "input", "%s.read:forgets" % cls, "what is returned here stays in the buffer: reading does not move on", A.loc(s), A.trace(bad=s) if s in bad else ())
