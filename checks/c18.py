"""C18: an image export found in the artifacts is reused only for the request it was made for."""
import ast
from engine.q import *
from .c08 import form, REL
from .out_common import showform

TECHNIQUE = "guard analysis of every path of the export lookup to an identified export (must-facts over the equalities passed), reachability from each failed comparison, and data-flow of what the exporter records and requests"
M = B + "html.manips.images."
GET, GETOR, RESERVE, HASHS = M + "metadata.get_target", M + "metadata.get_or_reserve_target", M + "metadata.reserve_target", M + "metadata.hash_image_settings"
EXPORT, SCAN, HASHF, PRODUCE = M + "exporter.export_command", M + "scanner.scan_command", B + "handlers.hash.calculate_hash", M + "exporter.produce_image"
STATIC = {"width": "width", "height": "height", "crop": "crop_style"}


def check(R):
    R.rule("match", "the lookup yields the id of a finished export only where the settings fingerprint, the source contents hash and the whole target recorded for it were found equal to those of the request; of an unfinished one only where it was reserved for the same image and target")
    R.rule("passed", "a comparison which fails goes on to the next export: nothing is raised and the lookup is not ended before another export was looked for")
    R.rule("equality", "comparing targets compares every field")
    R.rule("recorded", "the exporter records the settings fingerprint and contents hash current for the exported image and the very target the export was looked up for, and the encoders are given that target's crop")
    R.rule("request", "scanning and exporting look up the target the directive asks for")
    p = R.p
    opq = lambda *q: OPAQUE + tuple(x for x in q if x in p.funcs)
    lookup(R, Ana(p, [(GET, {}, None)], opaque=opq(HASHS, HASHF)))
    for c in ("ImageTargetSettings", "CropSettingsCover"):
        struct_eq(R, p, c)
    A = Ana(p, [(EXPORT, {}, None)], opaque=opq(HASHS, HASHF, GET, RESERVE))
    R.uses(A)
    t = requests(R, A, "export_command")
    exporter(R, A, t)
    A = Ana(p, [(SCAN, {}, None)], opaque=opq(HASHS, HASHF, GET, RESERVE))
    R.uses(A)
    requests(R, A, "scan_command")


def struct_eq(R, p, name):
    c = find_cls(p, name)
    R.need("class " + name, c is not None)
    deco = [ast.unparse(d).replace(" ", "") for d in c.node.decorator_list]
    own = [k for k in p.mro(c) if "__eq__" in k.methods]
    if own:
        src = ast.unparse(own[0].methods["__eq__"].node)
        for f in p.all_fields(c):
            R.obl(src.count("." + f) > 1 or "__dict__" in src or "asdict" in src or "astuple" in src, "equality", name + "." + f, "the equality does not compare this field", own[0].qual)
        return
    R.obl((any("dataclass" in d for d in deco) or any("NamedTuple" in ast.unparse(b) for b in c.node.bases)) and not any("eq=False" in d for d in deco), "equality", name, "instances are compared by identity or not field by field", c.qual)
    for f in p.all_fields(c):
        d = p.field_default(c, f)
        R.obl(d is None or "compare=False" not in ast.unparse(d[0]).replace(" ", ""), "equality", name + "." + f, "the field is left out of comparisons", c.qual)


def entry_of(t):
    """The folder entry an id is taken from, with what identifies its paths."""
    for x in subterms(t):
        if x.k == "attr" and x.a[1] in ("name", "path"):
            return x.a[0]
    for x in subterms(t):
        if x.k == "elem":
            return x
    return None


def loaded(t, E, base):
    """Is t read from the file ``base`` of the entry?"""
    return has(t, lambda x: x.k == "file" and has(x, lambda y: y is E or y is mk("attr", E, "path")) and any(isstr(z) and cval(z).split("/")[-1] == base for z in parts(x.a[0]))) and not has(t, lambda x: x.k == "const" and False)


def keys_of(t):
    """The keys under which a value is read from what was loaded."""
    out = []
    while t.k in ("item", "sub", "attr", "val") or (t.k == "call" and t.a[0] in (".get",)):
        if t.k == "attr":
            out.append(t.a[1])
        elif t.k == "call":
            out.append(cval(t.a[2]) if isstr(t.a[2]) else "?")
        else:
            k = t.a[1] if len(t.a) > 1 else None
            out.append(cval(k) if isinstance(k, T) and isstr(k) else k if isinstance(k, str) else "?")
        t = t.a[0] if t.k != "call" else t.a[1]
    return list(reversed(out))


def alts(x):
    return list(x.a[0]) if x.k == "alt" else [x]


def lookup(R, A):
    R.uses(A)
    I, F = A.I, A.F
    cid = A.eid[GET]
    Mu = must(A, A.start(cid), None, True)
    names = A.p.funcs[GET].params()
    ctx, rp, target = (mk("sym", x) for x in names[:3])
    tcls = find_cls(A.p, "ImageTargetSettings")

    def fieldobj(v, E, base):
        """Is v a target every field of which was read from that file?"""
        if v.k != "obj":
            return False
        c = I.typeof(v)
        if c is None or c.name != "ImageTargetSettings":
            return False
        for f in A.p.all_fields(c):
            vs = A.V(v, f)
            if not vs:
                return False
            for x in vs:
                if x.k == "obj":
                    if not all(A.V(x, g) and all(loaded(y, E, base) for y in A.V(x, g)) for g in A.p.all_fields(I.typeof(x))):
                        return False
                elif not loaded(x, E, base):
                    return False
        return True

    def eqs(atoms):
        for x, b in atoms:
            if b:
                al = alts(x)
                if all(y.k == "cmp" and y.a[0] == "Eq" for y in al):
                    yield from compwise(al)

    def pair(al, one, other):
        return all(one(y.a[1]) and other(y.a[2]) or one(y.a[2]) and other(y.a[1]) for y in al)

    def current(t):
        f = form(t, REL)
        if t.k == "read":
            return rp in parts(t.a[0]) and has_str(t, "out/www") and showp(t).endswith(".hash")
        return ofpublic(t, rp)

    def good(E, atoms, what):
        """Which of the required equalities are missing."""
        no = {y for x, b in atoms for y in alts(x) if not b and y.k == "call"}
        yes = {y for x, b in atoms for y in alts(x) if b and y.k == "call"}
        miss = set()
        whole = lambda base: any(pair(al, lambda t: fieldobj(t, E, base), lambda t: t is target) for al in eqs(atoms)) or bycomp(base)

        def bycomp(base):
            ok = 0
            for f in A.p.all_fields(tcls):
                if any(pair(al, lambda t: fielded(t, E, base, f), lambda t: t is mk("attr", target, f)) for al in eqs(atoms)):
                    ok += 1
            return ok == len(A.p.all_fields(tcls))

        if not any(pair(al, lambda t: loaded(t, E, "metadata.json") and keys_of(t)[-1:] == ["settings_hash"], lambda t: t.k == "call" and t.a[0].split(".")[-1] == "hash_image_settings" and t.a[1] is mk("attr", ctx, "image_settings")) for al in eqs(atoms)):
            miss.add("settings fingerprint")
        if not any(pair(al, lambda t: loaded(t, E, "metadata.json") and keys_of(t)[-2:] == ["source", "contents_hash"], current) for al in eqs(atoms)):
            miss.add("contents hash of the source")
        if not whole("metadata.json"):
            miss.add("target")
        if not miss:
            return miss
        r = set()
        if not any(is_exists(y) and has(y, lambda x: x is E or x is mk("attr", E, "path")) and showp(y.a[1]).endswith("/metadata.json") for y in no):
            r.add("x")
        if not whole("placeholder.json"):
            r.add("target it is reserved for")
        if not any(all(any(loaded(z, E, "placeholder.json") or z is rp for z in (y.a[1],)) and (y.a[2] is rp or loaded(y.a[2], E, "placeholder.json")) for y in al) and any(loaded(z, E, "placeholder.json") for y in al for z in y.a[1:]) and any(z is rp for y in al for z in y.a[1:]) for al in eqs(atoms)):
            r.add("image it is reserved for")
        if not r:
            return r
        return r if "x" not in r else miss

    def fielded(t, E, base, f):
        if t.k == "obj":
            return all(A.V(t, g) and all(loaded(y, E, base) for y in A.V(t, g)) for g in A.p.all_fields(I.typeof(t)))
        return loaded(t, E, base) and keys_of(t)[-1:] == [f]

    rets = [s for s in Mu if I.node(s).op == "ret" and I.states[s][0] == cid]
    k = 0
    for s in rets:
        vs = [v for v in I.rv(s, I.node(s).a["src"]) if v is not NONE]
        for v in vs:
            E = entry_of(v)
            con = "get_target returns " + show(norm(v))[:80]
            k += 1
            if E is None:
                R.bad("match", con, "this id is not that of an export found in the artifacts", A.loc(s)) if not is_call(v, GETOR) else R.ok("match", con)
                continue
            miss = good(E, Mu[s], con)
            if miss:
                # the id may have been set aside and returned later
                at = [x for x in Mu if I.states[x][0] == cid and I.node(x).op == "call" and v in A.V(x, "ret")] or [x for x, (f, a, kw, e) in A.calls(lambda f, a, kw: A.F.name(f) == "int").items() if x in Mu and any(w in v.a for ar in a for w in ar)]
                if at:
                    ms = [good(E, Mu[x], con) for x in at]
                    miss = set().union(*ms)
            R.obl(not miss, "match", con, "the id of an export is returned without having compared: " + ", ".join(sorted(miss - {"x"})), A.loc(s),
                  ["known there: %s%s" % ("" if b else "not ", show(x)[:160]) for x, b in sorted(Mu[s], key=lambda y: show(y[0]))])
    R.need("ids returned by the lookup", k)
    # passing over
    marks = ("settings_hash", "contents_hash")
    nexts = {s for s in Mu if I.node(s).op in ("next",)} | {s for s, (f, a, kw, e) in A.calls(lambda f, a, kw: A.F.name(f) in ("next", ".__next__")).items()}
    ends = set(A.exits(cid, True, True))
    nm = 0
    for s in Mu:
        if not F.is_branch(s):
            continue
        for t, l in I.succ[s]:
            at = F.edge_atoms(s, l)
            if not at or not all(x.k == "cmp" and x.a[0] == "Eq" and not v and any(has(y, lambda z: z.k == "file") or y.k == "obj" for y in x.a[1:]) and any(y is target or has(y, lambda z: z is target) or current(y) or y is rp or y.k == "call" and "hash_image_settings" in y.a[0] for y in x.a[1:]) for x, v in at):
                continue
            nm += 1
            r = F.reach([t], stop_node=lambda x: x in nexts or I.node(x).op in ("loophead",) and False)
            con = "after " + " / ".join(sorted({("a differing " + what(x)) for x, v in at}))[:120]
            r = {x for x in r if x not in nexts}
            raises = [x for x in r if I.node(x).op == "raise" and I.states[x][0] == cid and I.node(x).line]
            R.obl(not raises, "passed", con + ": raising", "an export which does not match is met with an error", A.loc(raises[0]) if raises else "")
            bad = [x for x in r if breaks(A, x)]
            R.obl(not bad, "passed", con + ": values", "an export which does not match is met with an error: " + (breaks(A, bad[0]) if bad else ""), A.loc(bad[0]) if bad else "")
            out = [x for x in F.reach([t], stop_node=lambda x: x in nexts, stop_edge=lambda a, b, lab: lab == "exc") if x in ends]
            R.obl(not out, "passed", con + ": next", "the lookup ends at an export which does not match, instead of looking at the next", A.loc(s))
    R.need("comparisons of the lookup", nm)


def compwise(al):
    """Equalities of tuples, component by component."""
    if all(t.k == "tup" for x in al for t in x.a[1:3]) and len({len(t.a[0]) for x in al for t in x.a[1:3]}) == 1:
        for i in range(len(al[0].a[1].a[0])):
            yield [mk("cmp", "Eq", a, b) for x in al for a in tset(x.a[1].a[0][i]) for b in tset(x.a[2].a[0][i])]
    else:
        yield al


def tset(v):
    return [v] if isinstance(v, T) else list(v)


def what(x):
    for y in x.a[1:]:
        k = keys_of(y)
        if k:
            return k[-1]
        if y.k == "obj":
            return "target"
    return "value"


def showp(t):
    if t.k == "read":
        t = t.a[0]
    ps = parts(t)
    return cval(ps[-1]) if ps and isstr(ps[-1]) else ""


def has_str(t, s):
    return has(t, lambda x: isstr(x) and s in cval(x)) or s == "out/www" and has(t, lambda x: isstr(x) and cval(x).endswith(("out/www/", "/out/www")))


def ofpublic(t, rp):
    """Is it the digest of the image itself?"""
    return t.k == "call" and t.a[0] == HASHF and has(t.a[1], lambda x: x is rp)


def is_exists(y):
    return y.k == "call" and y.a[0].split(".")[-1] in ("exists", "isfile", "lexists", "is_file") and len(y.a) > 1


def breaks(A, s):
    """An operation on an object which certainly fails."""
    I = A.I
    n = I.node(s)
    if n.op == "sub":
        os_ = I.rv(s, n.a["obj"])
        for o in os_:
            if o.k == "obj":
                c = I.typeof(o)
                if c is not None and not any("__getitem__" in k.methods for k in A.p.mro(c)) and all(b for b in c.bases or [None][:0] or [True]):
                    return "%s cannot be subscripted" % c.name
    if n.op == "attr":
        os_ = I.rv(s, n.a["obj"])
        for o in os_:
            if o.k == "obj":
                c = I.typeof(o)
                if c is not None and not str(n.a["name"]).startswith("__") and n.a["name"] not in A.p.all_fields(c) and not any(n.a["name"] in k.methods for k in A.p.mro(c)) and not A.V(o, n.a["name"]) and not any(n.a["name"] in ast.unparse(k.node) for k in A.p.mro(c)):
                    return "%s has no %s" % (c.name, n.a["name"])
    return ""


def command(A, q):
    """The parameter which is the directive."""
    f = A.p.funcs[q]
    return mk("sym", f.params()[2])


def requests(R, A, name):
    I = A.I
    q = EXPORT if name == "export_command" else SCAN
    cmd = command(A, q)
    calls = A.named(GET, GETOR, RESERVE)
    R.need("lookups of " + name, len(calls))
    out = []
    for sid, (f, args, kws, e) in calls.items():
        ps = A.p.funcs[f.a[0]].params()
        d = dict(zip(ps, args)); d.update(kws)
        nested = I.func(sid).qual == GETOR
        rel, ts = d.get(ps[1], ()), d.get(ps[2], ())
        out.append((sid, rel, ts))
        if nested:
            continue
        for t in ts:
            if t.k != "obj":
                R.bad("request", "%s: target %s" % (name, show(norm(t))[:60]), "the target looked up is not made of the directive's settings", A.loc(sid))
                continue
            for fl in A.p.all_fields(I.typeof(t)):
                vs = A.V(t, fl)
                con = "%s: target.%s" % (name, fl)
                if fl in STATIC:
                    R.obl(vs == frozenset([mk("attr", cmd, STATIC[fl])]), "request", con, "the target looked up has %s instead of the directive's %s" % (" / ".join(show(norm(v))[:60] for v in vs), STATIC[fl]), A.loc(sid))
                else:
                    ok = bool(vs)
                    for v in vs:
                        if v.k == "obj":
                            c = I.typeof(v)
                            for g in A.p.all_fields(c):
                                gs = A.V(v, g)
                                ok = ok and bool(gs) and all(has(x, lambda y: y is mk("attr", cmd, "crop_arguments")) and not foreign(x, g) for x in gs)
                        else:
                            ok = ok and has(v, lambda y: y is mk("attr", cmd, "crop_arguments"))
                    R.obl(ok, "request", con, "the crop looked up is not the directive's", A.loc(sid))
        for r in rel:
            R.obl(has(r, lambda x: x is mk("attr", cmd, "path")), "request", name + ": image " + show(norm(r))[:60], "the image looked up is not the directive's", A.loc(sid))
    return out


def foreign(x, g):
    """Does a value name another setting than g?"""
    if x.k == "item" and len(x.a) > 1 and isinstance(x.a[1], T) and isstr(x.a[1]):
        return cval(x.a[1]) != g
    ks = [k for k in keys_of(x) if k not in ("?", "crop_arguments", None)]
    return False if not ks or x.k == "val" else ks[-1] != g


def exporter(R, A, reqs):
    I = A.I
    cid = A.eid[EXPORT]
    ctx = mk("sym", A.p.funcs[EXPORT].params()[0])
    rels = {r for s, rel, ts in reqs for r in rel}
    targets = {t for s, rel, ts in reqs for t in ts}
    metas = set()
    k = 0
    for sid, (f, args, kws, e) in A.named("json.dump", "json.dumps").items():
        for v in args[0]:
            for x in subterms(v):
                if x.k == "obj" and I.typeof(x) is not None and I.typeof(x).name == "ImageMetadata":
                    metas.add((sid, x))
    R.need("metadata written by the exporter", len(metas))
    for sid, m in metas:
        k += 1
        vs = A.V(m, "settings_hash")
        R.obl(vs and all(t.k == "call" and t.a[0].split(".")[-1] == "hash_image_settings" and t.a[1] is mk("attr", ctx, "image_settings") for t in vs), "recorded", "metadata.settings_hash", "what is recorded is not the fingerprint of the settings the export was made with", A.loc(sid))
        for s in A.V(m, "source"):
            cs = A.V(s, "contents_hash")
            ok = bool(cs)
            for t in cs:
                mine = any(r in subterms(t) for r in rels)
                ok = ok and (mine and t.k == "read" and has_str(t, "out/www") and showp(t).endswith(".hash") or any(ofpublic(t, r) for r in rels | {s for x in A.V(m, "source") for s in A.V(x, "path")}))
            R.obl(ok, "recorded", "metadata.source.contents_hash", "what is recorded is not the hash of the exported image", A.loc(sid))
        for s in A.V(m, "target"):
            ts = A.V(s, "settings")
            same = ts and all(t in targets or fields_same(A, t, targets) for t in ts)
            R.obl(same, "recorded", "metadata.target.settings", "the target recorded is not the one the export was looked up for", A.loc(sid))
    # the encoders
    n = 0
    crops = {v for t in targets for v in A.V(t, "crop_settings")}
    for sid, (f, args, kws, e) in list(A.calls(lambda f, a, kw: f.k in ("meth", "attr", "ext") and f.a[-1] in ("submit", "run_in_executor")).items()):
        i = next((j for j, a in enumerate(args) if any(x.k == "func" and x.a[0] == PRODUCE for x in a)), None)
        if i is None:
            continue
        n += 1
        ps = A.p.funcs[PRODUCE].params()
        d = dict(zip(ps, args[i + 1:])); d.update(kws)
        job(R, A, sid, d, crops, rels, targets)
    for sid, (f, args, kws, e) in A.named(PRODUCE).items():
        n += 1
        ps = A.p.funcs[PRODUCE].params()
        d = dict(zip(ps, args)); d.update(kws)
        job(R, A, sid, d, crops, rels, targets)


def fields_same(A, t, targets):
    if t.k != "obj":
        return False
    c = A.I.typeof(t)
    return any(u.k == "obj" and all(A.V(t, f) == A.V(u, f) or all(fields_same(A, x, A.V(u, f)) for x in A.V(t, f)) for f in A.p.all_fields(c)) for u in targets)


def job(R, A, sid, d, crops, rels, targets):
    I = A.I
    for prm, vs in d.items():
        ann = None
        for v in vs:
            c = I.typeof(v) if v.k == "obj" else None
            if c is not None and c.name.startswith("CropSettings"):
                ann = v
        if ann is not None or prm == "crop_settings":
            R.obl(all(v in crops or fields_same(A, v, crops) for v in vs), "recorded", "produce_image." + prm, "the encoders are given another crop than the one recorded", A.loc(sid))
        if prm == "src_file":
            R.obl(all(any(r in subterms(v) for r in rels) or has(v, lambda x: x.k == "attr" and x.a[1] == "path") for v in vs), "recorded", "produce_image." + prm, "the encoders are given another image than the one requested", A.loc(sid))
