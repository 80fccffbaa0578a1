"""C01: external files are installed only after their integrity was verified."""
from engine.q import *
from engine.absint import atom

TECHNIQUE = "typestate over the interprocedural control-flow graph: verified-before-rename, flushed-before-verified, temp removed on every exit, with value terms for paths and digests"

NET = ("requests.", "urllib.request.", "urllib3.", "http.client.", "httpx.", "aiohttp.")


def digest_calls(t):
    return [x for x in subterms(t) if x.k == "call" and x.a[0] in ("hasher.digest", "hasher.hexdigest", ".digest", ".hexdigest")]


def plain(t, d):
    """Is digest d used whole in t?"""
    if t is d:
        return True
    if t.k in ("slice", "item", "elem", "alt", "any"):
        return False
    if t.k == "call" and t.a[0] in (".split", ".partition", ".startswith", "len"):
        return False
    return any(plain(x, d) for x in t.a if isinstance(x, T))


class Verify:
    """Comparisons of the digest of a file with a configured integrity."""

    def __init__(self, A):
        self.A = A; I = self.I = A.I
        self.updates = {}
        for sid, rec in I.calls.items():
            for (f, a, k, e) in rec:
                if f.k == "meth" and f.a[1] == "update" and f.a[0].k == "hasher" and a:
                    self.updates.setdefault(f.a[0], []).append((sid, a[0]))
        self.reads = {}
        for sid, rec in I.calls.items():
            for (f, a, k, e) in rec:
                if f.k == "meth" and f.a[0].k == "file" and f.a[1] in ("read", "read1", "readinto"):
                    whole = not a or all(x is NONE or (isconst(x, "int") and cval(x) == -1) for x in a[0])
                    cid, pc, _ = I.states[sid]
                    self.reads.setdefault(mk("read", f.a[0].a[0], const("%s.%s" % (I.ctxs[cid].sig, I.node(sid).id))), []).append((sid, f.a[0], whole))
        self.memo = {}

    def falsy(self, d):
        def pred(x, v):
            if x is d:
                return v is False
            if x.k == "cmp" and x.a[0] == "Eq" and x.a[1] is d and x.a[2].k == "const" and not cval(x.a[2]):
                return v is True
            ln = mk("call", "len", d)
            if x is ln:
                return v is False
            if x.k == "cmp" and x.a[1] is ln and x.a[0] in ("Eq", "Lt", "LtE"):
                return v is True
            return False
        return self.A.holds(pred)

    def complete(self, h, dig_states):
        """Paths whose whole content hasher h has digested at dig_states, plus reasons for refusal."""
        key = (h, tuple(sorted(dig_states)))
        if key in self.memo:
            return self.memo[key]
        A, I, F = self.A, self.I, self.A.F
        good, why = set(), []
        for t in I.V.get((h, "fed"), ()):
            if t.k == "readall":
                good.add(t.a[0])
            elif t.k == "read":
                if self._whole(t, h, dig_states, None, why):
                    good.add(t.a[0])
        datas = {}
        for sid, vals in self.updates.get(h, ()):
            for t in vals:
                datas.setdefault(t, []).append(sid)
        for t, ups in datas.items():
            if t.k == "read":
                if self._whole(t, h, dig_states, ups, why):
                    good.add(t.a[0])
            else:
                why.append("digested data %s is not what was read" % show(t))
        self.memo[key] = (good, why)
        return good, why

    def _whole(self, d, h, digs, ups, why):
        A, I, F = self.A, self.I, self.A.F
        rs = self.reads.get(d, [])
        # data handed out by iter(lambda: f.read(n), sentinel): the loop ends only at the end of the file
        nx = {s for s in range(len(I.states)) if I.node(s).op == "next" and d in I.elems(None, I.rv(s, I.node(s).a["it"]))}
        if nx:
            items = [t for s in nx for t, l in I.succ[s] if l == "item"]
            if ups is not None:
                r = F.reach([s for s in items if s not in ups], stop_node=lambda s: s in ups)
                if (r - set(ups)) & (nx | set(digs)):
                    why.append("part of %s is not digested" % show(d)); return False
            elif F.reach(items, stop_node=lambda s: s in nx) & set(digs):
                why.append("digest of %s taken before the end of the file" % show(d)); return False
            return True
        if not rs:
            why.append("no read found for %s" % show(d)); return False
        for s, f, whole in rs:
            nxt = [t for t, l in I.succ[s] if l != "exc"]
            end = self.falsy(d)
            if ups is not None:
                r = F.reach([x for x in nxt if x not in ups], stop_edge=end, stop_node=lambda x: x in ups)
                r = set(r) - set(ups)
                others = {q for q, _, _ in rs} | set(digs)
                if r & others:
                    why.append("part of %s is read but not digested" % show(d)); return False
            if not whole:
                r = F.reach(nxt, stop_edge=end)
                if r & set(digs):
                    why.append("digest of %s taken before the end of the file" % show(d)); return False
        return True

    def edge(self, pathpred, basepred, why):
        """Gen predicate: this edge establishes that a file accepted by pathpred has the configured integrity."""
        A, I = self.A, self.I
        def pred(x, v):
            if x.k == "cmp" and x.a[0] == "Eq":
                if not v:
                    return False
                sides = [(x.a[1], x.a[2]), (x.a[2], x.a[1])]
            elif x.k == "call" and x.a[0] in ("hmac.compare_digest", "secrets.compare_digest") and len(x.a) == 3:
                if not v:
                    return False
                sides = [(x.a[1], x.a[2]), (x.a[2], x.a[1])]
            else:
                return False
            for a, b in sides:
                ds = digest_calls(a)
                if not ds or digest_calls(b):
                    continue
                if not has(b, lambda y: attr_base(y, "integrity") is not None and basepred(attr_base(y, "integrity"))):
                    continue
                d = ds[0]
                if not plain(a, d):
                    why.append("only part of the digest is compared")
                    continue
                h = d.a[1]
                digs = [s for s, (f, ar, k, e) in A.calls(lambda f, ar, k: f.k == "meth" and f.a[1] in ("digest", "hexdigest") and f.a[0] is h).items()]
                good, w = self.complete(h, digs)
                why.extend(w)
                if any(pathpred(p) for p in good):
                    return True
            return False
        return A.holds(pred)


def check(R):
    A = Ana(R.p, [B + "cold_incremental_rebuild.check_external_files"])
    R.uses(A)
    I, F = A.I, A.F
    V = Verify(A)
    R.rule("move", "the location of a configured external file is written only by an atomic rename from a temporary file elsewhere")
    R.rule("verified", "on every path to that rename the digest of the complete temporary file was compared equal to the configured integrity after its last write and close")
    R.rule("status", "on every path to that rename the HTTP status of the response was checked")
    R.rule("proceed", "processing an external file ends normally only after its content was verified")
    R.rule("temp", "after the temporary file was created every exit passes its removal")

    def ext_file(t):
        """The external file whose location path t is."""
        ps = parts(t)
        if folder_of(t) is not None and ps[-1].k == "attr" and ps[-1].a[1] == "relpath":
            return ps[-1].a[0]
        r = folder_of(t)
        if r is not None and len(r) == 1 and r[0].k == "key" and r[0].a[0].k == "attr" and r[0].a[0].a[1] == "external_files":
            return mk("val", r[0].a[0])
        return None

    effs = F.effects()
    loc_writes, temps = [], []
    for e in effs:
        if e.kind in ("write", "rename", "copy", "symlink", "link", "save", "touch"):
            for t in e.path:
                b = ext_file(t)
                if b is not None:
                    loc_writes.append((e, t, b))
    n = 0
    netcalls = A.calls(lambda f, a, k: f.k == "ext" and f.a[0].startswith(NET) and f.a[0].split(".")[-1] not in ("Session", "Request", "PoolManager"))
    for sid, (f, a, k, e) in A.calls(lambda f, a, k: f.k == "meth" and f.a[1] in ("get", "request", "urlopen") and f.a[0].k == "call" and f.a[0].a[0].startswith(NET)).items():
        netcalls[sid] = (f, a, k, e)
    R.need("network fetches", len(netcalls))
    verified_any = []
    for e, t, b in loc_writes:
        n += 1
        fn = I.func(e.sid).qual
        c = "%s writes %s" % (fn, show(t))
        if e.kind != "rename":
            R.bad("move", c, "the location of an external file is written by %s instead of being moved into place" % e.name, A.where(e.sid))
            continue
        if e.name in ("shutil.move",):
            R.count("shutil.move accepted", 1)
        src = e.other or frozenset()
        if any(ext_file(s) is not None for s in src):
            R.bad("move", c, "moved from a location of an external file", A.where(e.sid)); continue
        R.ok("move", c)
        for s in src:
            if folder_of(s) is None and not any(x.k == "attr" and x.a[1].endswith("_folder") for x in parts(s)):
                R.bad("move", c, "the temporary file %s lies outside the project, so moving it is not atomic" % show(s), A.where(e.sid))
            writers = [w for w in effs if w.kind in ("write", "rename", "copy") and any(p is s for p in w.path) and w.sid != e.sid]
            why = []
            gen = V.edge(lambda p: p is s, lambda x: x is b, why)
            wr = {w.sid for w in writers}
            # data is also written through the open file
            for sid, rec in I.calls.items():
                for (f, a, k, en) in rec:
                    if f.k == "meth" and f.a[0].k == "file" and f.a[0].a[0] is s and f.a[1] in ("write", "writelines", "truncate"):
                        wr.add(sid)
            bad = F.guarded([e.sid], gen, kill=lambda x: x in wr)
            R.obl(not bad, "verified", "%s installs %s" % (fn, show(t)),
                  "the rename is reachable without the complete downloaded file having been compared with the integrity of this file%s" % ((" (%s)" % why[0]) if why else ""),
                  A.where(e.sid), A.trace(bad=next(iter(bad))) if bad else ())
            # closed before it is verified
            opens = [w for w in writers if w.name in ("open", "io.open", "codecs.open")]
            for w in opens:
                files = {x for x in (mk("file", s, m, I.ctxs[I.states[w.sid][0]].sig, I.node(w.sid).id) for m in w.args[1])}
                closed = {x for x in range(len(I.states)) if I.node(x).op == "with_exit" and files & I.rv(x, I.node(x).a["ctx"])}
                closed |= set(A.calls(lambda f, a, k: f.k == "meth" and f.a[1] == "close" and f.a[0] in files))
                reads = {x.sid for x in effs if x.kind == "read" and any(p is s for p in x.path)}
                reads |= {e.sid}
                r = F.reach([q for q, l in I.succ[w.sid] if l != "exc"], stop_node=lambda x: x in closed)
                hit = r & reads
                R.obl(not hit, "verified", "%s closes %s" % (fn, show(s)), "the temporary file is verified or moved while it is still open for writing", A.where(w.sid))
            # removal
            rm = {x.sid for x in effs if x.kind == "remove" and any(p is s for p in x.path)}
            moved_ = A.done([e.sid])
            none = A.holds(lambda x, v: not v and x.k == "call" and x.a[0].split(".")[-1] in ("exists", "lexists", "isfile") and x.a[1] is s)
            moved = lambda a, b, l: moved_(a, b, l) or none(a, b, l)
            for w in writers:
                cid = [c for c in A.ancestors(w.sid)][-1]
                r = F.reach([q for q, l in I.succ[w.sid] if l != "exc"], stop_edge=moved, stop_node=lambda x: x in rm)
                hit = [x for x in A.exits(cid, True, True) if x in r]
                R.obl(not hit, "temp", "%s removes %s" % (fn, show(s)), "an exit is reachable with the temporary file left behind", A.where(w.sid), F.path(hit[0], 12) if hit else ())
        # HTTP status
        resp = set()
        for sid in netcalls:
            d = I.node(sid).dst
            if d:
                resp |= I.V.get((I.states[sid][0], I.node(sid).id), frozenset())
        okcalls = A.calls(lambda f, a, k: f.k == "meth" and f.a[1] == "raise_for_status")
        stat = A.any(A.done(okcalls), A.holds(lambda x, v: has(x, lambda y: y.k == "attr" and y.a[1] in ("status_code", "ok", "status"))))
        raising = all(f.a[0].startswith("urllib.request") for f, _, _, _ in netcalls.values() if f.k == "ext")
        netset = set(netcalls)
        if not raising:
            bad = F.guarded([e.sid], stat, kill=lambda x: x in netset)
            R.obl(not bad, "status", "%s checks the response for %s" % (fn, show(t)), "the download is used without its HTTP status having been checked", A.where(e.sid))
        verified_any.append((e, t, b))
    R.need("renames into place", len(verified_any), 0)
    if not loc_writes:
        R.bad("move", "check_external_files", "no code path moves a download to the location of the external file", "")
    # whoever processes a file ends normally only when the content was verified
    groups = {}
    for e, t, b in verified_any:
        root = [c for c in A.ancestors(e.sid)][-1]
        # the function processing one file: the outermost context which knows only one external file
        groups.setdefault((root, b), []).append((e, t))
    for (root, b), es in groups.items():
        moved = A.done([e.sid for e, t in es])
        why = []
        inplace = V.edge(lambda p: any(p is t for _, t in es), lambda x: x is b, why)
        gen = A.any(moved, inplace)
        # start where the external file is taken up
        if b.k == "val":
            spawned = root in A.spawned.values()
            if spawned:
                start, targets = A.start(root), A.exits(root, True, False)
            else:
                nexts = [s for s in range(len(I.states)) if I.node(s).op == "next" and b in I.elems(None, I.rv(s, I.node(s).a["it"]))]
                nexts = [s for s in nexts if F.reach([t for t, l in I.succ[s] if l == "item"], stop_node=lambda x: x == s) & {e.sid for e, _ in es}]
                start = [t for s in nexts for t, l in I.succ[s] if l == "item"]
                targets = nexts
        else:
            start, targets = A.start(root), A.exits(root, True, False)
        if not start:
            R.bad("proceed", show(b), "cannot find where external files are processed"); continue
        bad = F.guarded(targets, gen, start=start)
        # files skipped because nothing changed are C03's business
        if bad and b.k == "val" and root not in A.spawned.values():
            bad = set()
        R.obl(not bad, "proceed", "processing of %s in %s" % (show(b), I.ctxs[root].func.qual),
              "processing can end normally although neither the existing content nor a download was verified", "", A.trace(bad=next(iter(bad))) if bad else ())
    # failures of the workers are C02's drain; here: the entry itself does not swallow them
    R.assume += ["os.rename within the project folder is atomic", "the interpreter's exception semantics are as modelled"]
