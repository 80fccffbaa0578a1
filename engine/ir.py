"""Lowers a function's syntax tree to a control-flow graph of three-address instructions.

Boolean operators, conditional expressions, comprehensions and any()/all() over generators
become branches and loops, so that equivalent spellings give equivalent graphs; ``finally``
and ``with`` clean-up code is copied onto every way out.
"""
import ast


class Node:
    __slots__ = ("id", "op", "dst", "a", "succ", "line", "live")

    def __init__(self, id, op, dst, a, line):
        self.id = id; self.op = op; self.dst = dst; self.a = a; self.line = line
        self.succ = []  # (target id, label)
        self.live = None

    def __repr__(self):
        return "%d:%s %s %s -> %s" % (self.id, self.dst, self.op, self.a, self.succ)


class Scope:
    def __init__(self, kind, **kw):
        self.kind = kind; self.pad = None
        self.__dict__.update(kw)


class Raw(ast.stmt):
    """Statements put in the place of another one, unchanged."""
    _fields = ()

    def __init__(self, body, st):
        super().__init__()
        self.stmts = body
        self.lineno = st.lineno; self.col_offset = st.col_offset
        self.end_lineno = getattr(st, "end_lineno", st.lineno); self.end_col_offset = getattr(st, "end_col_offset", 0)


class Val(ast.expr):
    """An expression evaluated before."""
    _fields = ()

    def __init__(self, var, e):
        super().__init__()
        self.var = var
        self.lineno = e.lineno; self.col_offset = e.col_offset


class CmMark(ast.stmt):
    _fields = ()

    def __init__(self, qual, begin):
        super().__init__()
        self.qual = qual; self.begin = begin
        self.lineno = self.end_lineno = 0; self.col_offset = self.end_col_offset = 0


BOOL_EXPR = (ast.Compare, ast.BoolOp)
RAISING = {"call", "sub", "raise", "next", "delsub", "with_enter", "assertfail", "unpack"}


class IR:
    def __init__(self, func):
        self.func = func
        self.nodes = []
        self.tmp = 0
        self.scopes = []
        self.pending = []      # dangling edges (node, label) to patch to the next node
        self.rename = []
        self.cm_chain = []; self.cm_n = 0
        self.line = getattr(func.node, "lineno", 0)
        self.captured = set()
        self.entry = self.emit("entry", None, {})
        self.exit_id = None
        self.exit = self._detached("exit")
        self.excexit = self._detached("excexit")
        n = func.node
        if isinstance(n, ast.Lambda):
            v = self.expr(n.body)
            self.do_return(v)
        else:
            self.body(n.body)
            if self.pending:
                v = self.const(None)
                self.do_return(v)
        self.locals = {x.dst for x in self.nodes if x.dst} | set(self._all_params())
        self.flags = self._flags()
        self._liveness()

    def _all_params(self):
        a = self.func.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg: r.append(a.vararg.arg)
        if a.kwarg: r.append(a.kwarg.arg)
        return r

    # -- emission
    def _detached(self, op):
        n = Node(len(self.nodes), op, None, {}, self.line)
        self.nodes.append(n)
        return n.id

    def emit(self, op, dst, a, raising=None):
        n = Node(len(self.nodes), op, dst, a, self.line)
        self.nodes.append(n)
        for (p, lab) in self.pending:
            self.nodes[p].succ.append((n.id, lab))
        self.pending = [(n.id, None)]
        if op in RAISING if raising is None else raising:
            n.succ.append((self.landing(), "exc"))
        return n.id

    def place(self, nid):
        """Continue emission at a detached node."""
        for (p, lab) in self.pending:
            self.nodes[p].succ.append((nid, lab))
        self.pending = [(nid, None)]

    def goto(self, nid):
        for (p, lab) in self.pending:
            self.nodes[p].succ.append((nid, lab))
        self.pending = []

    def t(self, pre="%"):
        self.tmp += 1
        return "%s%d" % (pre, self.tmp)

    def landing(self):
        """Where an exception raised here goes."""
        for i in range(len(self.scopes) - 1, -1, -1):
            s = self.scopes[i]
            if s.kind == "except":
                return s.dispatch
            if s.kind in ("finally", "with"):
                if s.pad is None:
                    saved = (self.pending, self.scopes, self.line)
                    s.pad = self._detached("landing")
                    self.pending = [(s.pad, None)]
                    self.scopes = self.scopes[:i]
                    self.cleanup(s)
                    if self.pending:
                        self.goto(self.landing_resume())
                    self.pending, self.scopes, self.line = saved
                return s.pad
        return self.excexit if hasattr(self, "excexit") else -1

    def landing_resume(self):
        # resume propagation: an explicit node keeps the in-flight exception
        t = self.landing()
        n = Node(len(self.nodes), "resume", None, {}, self.line)
        self.nodes.append(n)
        n.succ.append((t, "exc"))
        return n.id

    def cleanup(self, s):
        if s.kind == "finally":
            self.body(s.final)
        else:
            self.emit("with_exit", None, {"ctx": s.ctx})

    def unwind(self, stop):
        """Emit clean-up of scopes above index ``stop`` (for return/break/continue)."""
        saved = self.scopes
        for i in range(len(saved) - 1, stop - 1, -1):
            s = saved[i]
            if s.kind in ("finally", "with"):
                self.scopes = saved[:i]
                self.cleanup(s)
                if not self.pending:
                    break
        self.scopes = saved

    # -- statements
    def body(self, stmts):
        for st in stmts:
            if not self.pending:
                return
            self.stmt(st)

    def stmt(self, st):
        self.line = getattr(st, "lineno", self.line)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.expr(x)
            return
        m(st)

    def s_Raw(self, st):
        for x in st.stmts:
            self.stmt(x)

    def s_CmMark(self, st):
        if st.begin:
            self.cm_chain.append(st.qual)
        else:
            self.cm_chain.remove(st.qual)

    def s_Expr(self, st):
        self.expr(st.value)

    def s_Pass(self, st):
        pass

    def s_Import(self, st):
        for a in st.names:
            nm = a.asname or a.name.split(".")[0]
            self.emit("import", nm, {"mod": a.name if a.asname else a.name.split(".")[0]})

    def s_ImportFrom(self, st):
        base = None
        for a in st.names:
            self.emit("importfrom", a.asname or a.name, {"node": st, "name": a.name})

    def s_Global(self, st): pass
    def s_Nonlocal(self, st): pass

    def s_Assign(self, st):
        v = self.expr(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            v = self.expr(st.value)
            if isinstance(st.target, ast.Name):
                self.emit("store", self.nm(st.target.id), {"src": v, "ann": st.annotation})
            else:
                self.assign(st.target, v)

    def s_AugAssign(self, st):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.expr(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t))
            v = self.expr(st.value)
            d = self.t()
            self.emit("augop", d, {"op": op, "l": cur, "r": v})
            self.emit("store", self.nm(t.id), {"src": d})
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            cur = self.t(); self.emit("attr", cur, {"obj": o, "name": t.attr})
            v = self.expr(st.value)
            d = self.t(); self.emit("augop", d, {"op": op, "l": cur, "r": v})
            self.emit("setattr", None, {"obj": o, "name": t.attr, "src": d})
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value); i = self.expr(t.slice)
            cur = self.t(); self.emit("sub", cur, {"obj": o, "idx": i})
            v = self.expr(st.value)
            d = self.t(); self.emit("augop", d, {"op": op, "l": cur, "r": v})
            self.emit("setsub", None, {"obj": o, "idx": i, "src": d})

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.emit("store", self.nm(t.id), {"src": v})
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.emit("setattr", None, {"obj": o, "name": t.attr, "src": v})
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value); i = self.expr(t.slice)
            self.emit("setsub", None, {"obj": o, "idx": i, "src": v})
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                d = self.t()
                if isinstance(e, ast.Starred):
                    self.emit("unpack_star", d, {"src": v, "i": i, "n": n})
                    self.assign(e.value, d)
                else:
                    self.emit("unpack", d, {"src": v, "i": i, "n": n, "star": any(isinstance(x, ast.Starred) for x in t.elts[:i])}, raising=False)
                    self.assign(e, d)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value); i = self.expr(t.slice)
                self.emit("delsub", None, {"obj": o, "idx": i})
            elif isinstance(t, ast.Name):
                self.emit("del", None, {"name": self.nm(t.id)})

    def s_If(self, st):
        T, F = self._detached("nop"), self._detached("nop")
        self.cond(st.test, T, F)
        after = []
        self.pending = [(T, None)]
        self.body(st.body)
        after += self.pending
        self.pending = [(F, None)]
        self.body(st.orelse)
        self.pending = after + self.pending

    def s_While(self, st):
        head = self._detached("loophead"); T, F = self._detached("nop"), self._detached("nop")
        self.goto(head)
        self.pending = [(head, None)]
        self.cond(st.test, T, F)
        sc = Scope("loop", brk=[], cont=head)
        self.scopes.append(sc)
        self.pending = [(T, None)]
        self.body(st.body)
        self.goto(head)
        self.scopes.pop()
        self.pending = [(F, None)]
        self.body(st.orelse)
        self.pending += sc.brk

    def _literal(self, e, size):
        """Elements of a short literal sequence iterated over: such loops are unrolled."""
        if size > 120:
            return None
        pairs = False
        if (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "items" and not e.args
                and isinstance(e.func.value, (ast.Name, ast.Dict))):
            e = e.func.value
            pairs = True
        foreign = False
        if isinstance(e, ast.Name):
            if self.rename and any(e.id in m for m in self.rename):
                return None
            loc = self._local_literals()
            if e.id in loc:
                e = loc[e.id]
            else:
                f = self.func
                while f is not None:
                    if e.id in _bound(f.node):
                        return None
                    f = getattr(f, "parent", None)
                ent = self.func.module.names.get(e.id)
                if not ent or ent[0] != "var" or not _frozen(self.func.module, e.id):
                    return None
                e = ent[1]
                foreign = True
        if e is None:
            return None
        if pairs:
            if not isinstance(e, ast.Dict) or any(k is None for k in e.keys):
                return None
            els = [ast.copy_location(ast.Tuple([k, v], ast.Load()), k) for k, v in zip(e.keys, e.values)]
        elif isinstance(e, (ast.List, ast.Tuple)):
            els = e.elts
        else:
            return None
        if not 1 <= len(els) <= 8 or not all(_pure(x) for x in els):
            return None
        if foreign:
            b = _bound(self.func.node)
            for x in els:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id in b:
                        return None
        return els

    def _local_literals(self):
        if not hasattr(self, "_ll"):
            self._ll = {}
            n = self.func.node
            count, lit, bad = {}, {}, set()
            if not isinstance(n, ast.Lambda):
                ok = set()
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                        count[x.id] = count.get(x.id, 0) + 1
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                        t = x.targets[0] if isinstance(x, ast.Assign) and len(x.targets) == 1 else getattr(x, "target", None)
                        if isinstance(t, ast.Name) and isinstance(x.value, (ast.List, ast.Tuple, ast.Dict)):
                            lit[t.id] = x.value
                    if isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)):
                        ok.add(id(x.iter))
                        if isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute):
                            ok.add(id(x.iter.func.value))
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in lit and id(x) not in ok:
                        bad.add(x.id)
                params = set(self._all_params())
                self._ll = {k: v for k, v in lit.items() if count.get(k) == 1 and k not in bad and k not in params}
        return self._ll

    def unrolled(self, els, target, bodyfn, orelse=()):
        sc = Scope("loop", brk=[], cont=None)
        for x in els:
            if not self.pending:
                break
            v = self.expr(x)
            nxt = self._detached("nop")
            sc.cont = nxt
            self.scopes.append(sc)
            self.assign(target, v)
            bodyfn()
            self.scopes.pop()
            self.goto(nxt)
            # a continuation nobody jumps to ends the loop
            self.pending = [(nxt, None)] if any(nxt == t for n in self.nodes for (t, l) in n.succ) else []
        self.body(orelse)
        self.pending += sc.brk

    def s_For(self, st):
        els = self._literal(st.iter, sum(1 for b in st.body for _ in ast.walk(b))) if isinstance(st, ast.For) else None
        if els:
            self.unrolled(els, st.target, lambda: self.body(st.body), st.orelse)
            return
        if isinstance(st, ast.For) and isinstance(st.iter, (ast.List, ast.Tuple)) and 1 <= len(st.iter.elts) <= 8 and not any(isinstance(x, ast.Starred) for x in st.iter.elts) \
                and len(st.iter.elts) * sum(1 for b in st.body for _ in ast.walk(b)) <= 600:
            # elements with effects: all evaluated before the first round
            vals = [Val(self.expr(x), x) for x in st.iter.elts]
            self.unrolled(vals, st.target, lambda: self.body(st.body), st.orelse)
            return
        it = self.expr(st.iter)
        self.loop(it, st.target, lambda: self.body(st.body), st.orelse)

    s_AsyncFor = s_For

    def loop(self, it, target, bodyfn, orelse=()):
        head = self._detached("next")
        nx = self.nodes[head]
        nx.dst = self.t(); nx.a = {"it": it, "target": target}; nx.line = self.line
        self.goto(head)
        nx.succ.append((self.landing(), "exc"))
        item, done = self._detached("nop"), self._detached("nop")
        nx.succ.append((item, "item")); nx.succ.append((done, "done"))
        sc = Scope("loop", brk=[], cont=head)
        self.scopes.append(sc)
        self.pending = [(item, None)]
        self.assign(target, nx.dst)
        bodyfn()
        self.goto(head)
        self.scopes.pop()
        self.pending = [(done, None)]
        self.body(orelse)
        self.pending += sc.brk

    def _loop_index(self):
        for i in range(len(self.scopes) - 1, -1, -1):
            if self.scopes[i].kind == "loop":
                return i
        raise SyntaxError("break outside loop")

    def s_Break(self, st):
        i = self._loop_index()
        self.unwind(i + 1)
        self.scopes[i].brk += self.pending
        self.pending = []

    def s_Continue(self, st):
        i = self._loop_index()
        self.unwind(i + 1)
        self.goto(self.scopes[i].cont)

    def s_Return(self, st):
        v = self.expr(st.value) if st.value is not None else self.const(None)
        self.do_return(v)

    def do_return(self, v):
        d = "%ret"
        self.emit("store", d, {"src": v})
        self.unwind(0)
        if self.pending:
            self.emit("ret", None, {"src": d})
            self.goto(self.exit)

    def s_Raise(self, st):
        v = self.expr(st.exc) if st.exc is not None else None
        if st.cause is not None:
            self.expr(st.cause)
        self.emit("raise", None, {"exc": v})
        self.pending = []

    def s_Assert(self, st):
        T, F = self._detached("nop"), self._detached("nop")
        self.cond(st.test, T, F)
        self.pending = [(F, None)]
        if st.msg is not None:
            self.expr(st.msg)
        self.emit("raise", None, {"exc": None, "assert": True})
        self.pending = [(T, None)]

    def s_Try(self, st):
        fin = None
        if st.finalbody:
            fin = Scope("finally", final=st.finalbody)
            self.scopes.append(fin)
        after = []
        if st.handlers:
            disp = self._detached("dispatch")
            self.nodes[disp].line = st.lineno
            sc = Scope("except", dispatch=disp)
            self.scopes.append(sc)
            self.body(st.body)
            self.scopes.pop()
            self.body(st.orelse)
            after = self.pending
            hs = []
            catch_all = False
            for i, h in enumerate(st.handlers):
                types = None
                if h.type is not None:
                    types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                hn = self._detached("handler")
                self.nodes[hn].line = h.lineno
                self.nodes[hn].a = {"name": h.name}
                self.nodes[hn].dst = h.name
                hs.append(types)
                self.nodes[disp].succ.append((hn, ("h", i)))
                self.pending = [(hn, None)]
                self.body(h.body)
                after += self.pending
            self.nodes[disp].a = {"types": hs}
            self.nodes[disp].succ.append((self.landing(), "exc"))
            self.pending = after
        else:
            self.body(st.body)
            self.body(st.orelse)
        if fin is not None:
            self.scopes.pop()
            if self.pending:
                self.body(st.finalbody)

    s_TryStar = s_Try

    def s_With(self, st):
        for i, item in enumerate(st.items):
            e = item.context_expr
            if isinstance(e, ast.Call) and item.optional_vars is None and ast.unparse(e.func) in ("contextlib.suppress", "suppress"):
                inner = st.body
                if i + 1 < len(st.items):
                    inner = [ast.copy_location(ast.With(items=st.items[i + 1:], body=st.body), st)]
                ty = e.args[0] if len(e.args) == 1 else ast.Tuple(elts=list(e.args), ctx=ast.Load())
                h = ast.ExceptHandler(type=ty, name=None, body=[ast.Pass()])
                tr = ast.Try(body=inner, handlers=[h], orelse=[], finalbody=[])
                if i:
                    tr = ast.With(items=st.items[:i], body=[tr])
                ast.copy_location(tr, st); ast.copy_location(h, st); ast.copy_location(ty, e)
                ast.copy_location(h.body[0], st); ast.fix_missing_locations(tr)
                return self.stmt(tr) if not i else self.s_With(tr)
        for i, item in enumerate(st.items):
            body = st.body
            if i + 1 < len(st.items):
                body = [ast.copy_location(type(st)(items=st.items[i + 1:], body=st.body), st)]
            new = self._cm_expand(item, body, st)
            if new is not None:
                if i:
                    w = ast.copy_location(type(st)(items=st.items[:i], body=new), st)
                    return self.s_With(w)
                for x in new:
                    self.stmt(x)
                return
        n = 0
        for item in st.items:
            c = self.expr(item.context_expr)
            d = self.t()
            self.emit("with_enter", d, {"ctx": c})
            self.scopes.append(Scope("with", ctx=c)); n += 1
            if item.optional_vars is not None:
                self.assign(item.optional_vars, d)
        self.body(st.body)
        for _ in range(n):
            s = self.scopes.pop()
            if self.pending:
                self.cleanup(s)

    s_AsyncWith = s_With

    def _cm_expand(self, item, body, st):
        """The statements ``with helper(...) as x: body`` stands for when helper is a generator function decorated
        with contextmanager: its body, with the block in place of its yield."""
        e = item.context_expr
        if not isinstance(e, ast.Call) or len(self.cm_chain) > 4:
            return None
        proj = getattr(self.func.module, "project", None)
        if proj is None:
            return None
        g, recv = None, None
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and self.func.cls is not None:
            g = proj.find_method(self.func.cls, e.func.attr)
            recv = e.func.value
        elif isinstance(e.func, (ast.Name, ast.Attribute)):
            r = proj.resolve_expr(e.func, self.func.module)
            if r and r[0] == "func":
                g = proj.funcs.get(r[1])
        if g is None or g.qual in self.cm_chain or not any(d.split(".")[-1] in ("contextmanager", "asynccontextmanager") for d in g.decorators):
            return None
        a = g.node.args
        if a.vararg or a.kwarg or a.posonlyargs or any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords):
            return None
        ys = [x for x in ast.walk(g.node) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        if len(ys) != 1 or isinstance(ys[0], ast.YieldFrom) or any(isinstance(x, (ast.Return, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) and x is not g.node for x in ast.walk(g.node)):
            return None
        holder = [x for x in ast.walk(g.node) if isinstance(x, ast.Expr) and x.value is ys[0]]
        if len(holder) != 1:
            return None
        self.cm_n += 1
        pre = "__cm%d_" % self.cm_n
        ps = [x.arg for x in a.args]
        binds, rest = {}, list(ps)
        if recv is not None or (g.cls is not None and not g.is_static):
            if recv is None:
                return None
            binds[rest.pop(0)] = recv
        for v in e.args:
            if not rest:
                return None
            binds[rest.pop(0)] = v
        for k in e.keywords:
            binds[k.arg] = k.value
        for p, d in list(zip(reversed(ps), reversed(a.defaults))) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            binds.setdefault(p, d)
        if any(p not in binds for p in ps + [x.arg for x in a.kwonlyargs]):
            return None
        loc = set(binds) | {x.id for x in ast.walk(g.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        loc |= {h.name for h in ast.walk(g.node) if isinstance(h, ast.ExceptHandler) and h.name}
        m, other = self.func.module, g.module
        import copy
        hid = ys[0]
        marker = "__cm_yield_%d" % self.cm_n
        src = copy.deepcopy(g.node)
        # find the copied yield by position
        class Sub(ast.NodeTransformer):
            def visit_Name(s, x):
                if x.id in loc:
                    return ast.copy_location(ast.Name(id=pre + x.id, ctx=x.ctx), x)
                if other is not m and x.id in other.names:
                    al = "__cm_%s_%s" % (other.name.replace(".", "_"), x.id)
                    m.names[al] = ("from", other.name, x.id)
                    return ast.copy_location(ast.Name(id=al, ctx=x.ctx), x)
                return x

            def visit_ExceptHandler(s, x):
                s.generic_visit(x)
                if x.name:
                    x.name = pre + x.name
                return x

            def visit_Expr(s, x):
                if isinstance(x.value, ast.Yield):
                    v = x.value.value
                    out = []
                    if item.optional_vars is not None:
                        v = s.visit(v) if v is not None else ast.copy_location(ast.Constant(value=None), st)
                        out.append(ast.copy_location(ast.Assign(targets=[item.optional_vars], value=v), st))
                    elif v is not None:
                        out.append(ast.copy_location(ast.Expr(value=s.visit(v)), st))
                    return out + [Raw(body, st)]
                return s.generic_visit(x)
        new = []
        for p, v in binds.items():
            new.append(ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=pre + p, ctx=ast.Store()), st)], value=v), st))
        b = src.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b = b[1:]
        for x in b:
            y = Sub().visit(x)
            new += y if isinstance(y, list) else [y]
        for x in new:
            if not isinstance(x, Raw):
                ast.fix_missing_locations(x)
        new.insert(0, CmMark(g.qual, True)); new.append(CmMark(g.qual, False))
        return new

    def s_FunctionDef(self, st):
        self.emit("closure", self.nm(st.name), {"node": st, "name": st.name})
        self.captured |= _names(st)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st):
        self.emit("unknown", self.nm(st.name), {})

    def s_Match(self, st):
        # case bodies as alternatives; literal patterns become equality tests
        s = self.expr(st.subject)
        after = []
        for c in st.cases:
            T, F = self._detached("nop"), self._detached("nop")
            pats = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
            wild = False
            for p in pats:
                if isinstance(p, ast.MatchAs) and p.pattern is None:
                    wild = True
                    if p.name:
                        self.emit("store", self.nm(p.name), {"src": s})
                    break
                if isinstance(p, ast.MatchValue):
                    v = self.expr(p.value)
                    op = "Eq"
                elif isinstance(p, ast.MatchSingleton):
                    v = self.const(p.value); op = "Is"
                else:
                    v = None
                d = self.t()
                if v is None:
                    self.emit("unknown", d, {})
                else:
                    self.emit("cmp", d, {"op": op, "l": s, "r": v})
                nf = self._detached("nop")
                self.branch(d, T, nf)
                self.pending = [(nf, None)]
            if wild:
                self.goto(T)
            else:
                self.goto(F)
            self.pending = [(T, None)]
            if c.guard is not None:
                G = self._detached("nop")
                self.cond(c.guard, G, F)
                self.pending = [(G, None)]
            self.body(c.body)
            after += self.pending
            self.pending = [(F, None)] if not (wild and c.guard is None) else []
            if not self.pending:
                break
        self.pending = after + self.pending

    # -- expressions
    def nm(self, name):
        for m in reversed(self.rename):
            if name in m:
                return m[name]
        return name

    def const(self, v):
        d = self.t()
        self.emit("const", d, {"v": v})
        return d

    def branch(self, v, T, F, neg=False):
        n = self.emit("branch", None, {"c": v, "e": self.test})
        self.nodes[n].succ.append((F if neg else T, "T"))
        self.nodes[n].succ.append((T if neg else F, "F"))
        self.pending = []

    test = None

    def cond(self, e, T, F):
        self.test = e
        self.line = getattr(e, "lineno", self.line)
        if isinstance(e, ast.BoolOp):
            last = len(e.values) - 1
            for i, x in enumerate(e.values):
                if i == last:
                    self.cond(x, T, F)
                    return
                mid = self._detached("nop")
                if isinstance(e.op, ast.And):
                    self.cond(x, mid, F)
                else:
                    self.cond(x, T, mid)
                self.pending = [(mid, None)]
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.cond(e.operand, F, T)
            return
        if isinstance(e, ast.IfExp):
            a, b = self._detached("nop"), self._detached("nop")
            self.cond(e.test, a, b)
            self.pending = [(a, None)]; self.cond(e.body, T, F)
            self.pending = [(b, None)]; self.cond(e.orelse, T, F)
            return
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            l = self.expr(e.left)
            for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
                rv = self.expr(r)
                d = self.t()
                self.emit("cmp", d, {"op": type(op).__name__, "l": l, "r": rv})
                mid = self._detached("nop") if i < len(e.ops) - 1 else T
                self.branch(d, mid, F)
                self.pending = [(mid, None)] if i < len(e.ops) - 1 else []
                l = rv
            return
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) \
                and isinstance(e.comparators[0], (ast.Tuple, ast.Set, ast.List)) and e.comparators[0].elts \
                and not any(isinstance(x, ast.Starred) for x in e.comparators[0].elts) and len(e.comparators[0].elts) <= 8:
            l = self.expr(e.left)
            a, b = (T, F) if isinstance(e.ops[0], ast.In) else (F, T)
            n = len(e.comparators[0].elts)
            for i, r in enumerate(e.comparators[0].elts):
                rv = self.expr(r)
                d = self.t()
                self.emit("cmp", d, {"op": "Eq", "l": l, "r": rv})
                nxt = self._detached("nop") if i < n - 1 else b
                self.branch(d, a, nxt)
                self.pending = [(nxt, None)] if i < n - 1 else []
            return
        g = self._anyall(e)
        if g:
            kind, gen = g
            # any: found -> T, exhausted -> F ; all: violated -> F, exhausted -> T
            hit, miss = (T, F) if kind == "any" else (F, T)

            def inner():
                nxt = self._detached("nop")
                if kind == "any":
                    brk = self._detached("nop")
                    self.cond(gen.elt, brk, nxt)
                else:
                    brk = self._detached("nop")
                    self.cond(gen.elt, nxt, brk)
                hits.append(brk)
                self.pending = [(nxt, None)]
            hits = []
            self.comp(gen.generators, inner)
            self.goto(miss)
            for b in hits:
                self.pending = [(b, None)]
                self.goto(hit)
            return
        if isinstance(e, ast.Constant):
            self.goto(T if e.value else F)
            return
        v = self.expr(e)
        self.branch(v, T, F)

    def _anyall(self, e):
        if (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all")
                and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))):
            return e.func.id, e.args[0]
        return None

    def comp(self, gens, inner):
        m = {}
        self.rename.append(m)
        def go(i):
            if i == len(gens):
                inner()
                return
            g = gens[i]
            els = self._literal(g.iter, 20)
            it = self.expr(g.iter) if not els else None
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    self.tmp += 1
                    m[n.id] = "%s@%d" % (n.id, self.tmp)
            def body():
                for c in g.ifs:
                    ok = self._detached("nop"); no = self._detached("nop")
                    self.cond(c, ok, no)
                    skips.append(no)
                    self.pending = [(ok, None)]
                go(i + 1)
                self.pending += [(s, None) for s in skips]
                skips.clear()
            skips = []
            if els:
                self.unrolled(els, g.target, body)
            else:
                self.loop(it, g.target, body)
        go(0)
        self.rename.pop()

    def expr(self, e):
        self.line = getattr(e, "lineno", self.line)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.expr(x)
            d = self.t(); self.emit("unknown", d, {})
            return d
        return m(e)

    def e_Val(self, e):
        return e.var

    def e_Constant(self, e):
        return self.const(e.value)

    def e_Name(self, e):
        d = self.t()
        self.emit("load", d, {"name": self.nm(e.id)})
        return d

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.emit("store", self.nm(e.target.id), {"src": v})
        return v

    def e_Attribute(self, e):
        o = self.expr(e.value)
        d = self.t()
        self.line = e.lineno
        self.emit("attr", d, {"obj": o, "name": e.attr})
        return d

    def e_Subscript(self, e):
        o = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            a = self.expr(e.slice.lower) if e.slice.lower is not None else None
            b = self.expr(e.slice.upper) if e.slice.upper is not None else None
            c = self.expr(e.slice.step) if e.slice.step is not None else None
            d = self.t()
            self.emit("slice", d, {"obj": o, "lo": a, "hi": b, "step": c})
            return d
        i = self.expr(e.slice)
        d = self.t()
        self.line = e.lineno
        self.emit("sub", d, {"obj": o, "idx": i})
        return d

    def e_Call(self, e):
        g = self._anyall(e)
        if g:
            return self.boolval(e)
        if isinstance(e.func, ast.Name) and e.func.id == "next" and len(e.args) == 2 and not e.keywords and isinstance(e.args[0], ast.GeneratorExp):
            return self.first(e)
        f = self.expr(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.expr(a.value)))
            else:
                args.append(self.expr(a))
        kws = [(k.arg, self.expr(k.value)) for k in e.keywords]
        d = self.t("%c")
        self.line = e.lineno
        self.emit("call", d, {"f": f, "args": args, "kws": kws, "node": e})
        return d

    def first(self, e):
        """next(<generator expression>, default): a loop left at the first item."""
        d = self.t("%n")
        other = self.expr(e.args[1])
        hits = []

        def inner():
            self.emit("store", d, {"src": self.expr(e.args[0].elt)})
            hits.extend(self.pending)
            self.pending = []
        self.comp(e.args[0].generators, inner)
        self.emit("store", d, {"src": other})
        self.pending += hits
        return d

    def boolval(self, e):
        d = self.t("%b")
        T, F = self._detached("nop"), self._detached("nop")
        self.cond(e, T, F)
        self.pending = [(T, None)]
        self.emit("const", d, {"v": True})
        a = self.pending
        self.pending = [(F, None)]
        self.emit("const", d, {"v": False})
        self.pending = a + self.pending
        return d

    def e_BoolOp(self, e):
        if all(_is_boolish(x) for x in e.values):
            return self.boolval(e)
        d = self.t("%b")
        ends = []
        for i, x in enumerate(e.values):
            v = self.expr(x)
            self.emit("store", d, {"src": v})
            if i < len(e.values) - 1:
                nxt, end = self._detached("nop"), self._detached("nop")
                if isinstance(e.op, ast.And):
                    self.branch(v, nxt, end)
                else:
                    self.branch(v, end, nxt)
                ends.append((end, None))
                self.pending = [(nxt, None)]
        self.pending += ends
        return d

    def e_IfExp(self, e):
        d = self.t("%i")
        T, F = self._detached("nop"), self._detached("nop")
        self.cond(e.test, T, F)
        self.pending = [(T, None)]
        v = self.expr(e.body)
        self.emit("store", d, {"src": v})
        a = self.pending
        self.pending = [(F, None)]
        v = self.expr(e.orelse)
        self.emit("store", d, {"src": v})
        self.pending = a + self.pending
        return d

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not) and _is_boolish(e.operand) and not isinstance(e.operand, ast.Compare):
            return self.boolval(e)
        v = self.expr(e.operand)
        d = self.t()
        self.emit("unop", d, {"op": type(e.op).__name__, "v": v})
        return d

    def e_Compare(self, e):
        if len(e.ops) > 1:
            return self.boolval(e)
        l = self.expr(e.left); r = self.expr(e.comparators[0])
        d = self.t()
        self.emit("cmp", d, {"op": type(e.ops[0]).__name__, "l": l, "r": r})
        return d

    def e_BinOp(self, e):
        l = self.expr(e.left); r = self.expr(e.right)
        d = self.t()
        self.emit("bin", d, {"op": type(e.op).__name__, "l": l, "r": r})
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(self.const(v.value))
            else:
                x = self.expr(v.value)
                if v.conversion == 114 or v.format_spec is not None:
                    d = self.t(); self.emit("fmt", d, {"v": x, "spec": ast.unparse(v.format_spec)[2:-1] if v.format_spec is not None else ""}); x = d
                parts.append(x)
        d = self.t()
        self.emit("concat", d, {"parts": parts})
        return d

    def _seq(self, e, kind):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(("*", self.expr(x.value)))
            else:
                parts.append(self.expr(x))
        d = self.t()
        self.emit("build", d, {"kind": kind, "parts": parts})
        return d

    def e_List(self, e): return self._seq(e, "list")
    def e_Tuple(self, e): return self._seq(e, "tuple")
    def e_Set(self, e): return self._seq(e, "set")

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                items.append((None, self.expr(v)))
            else:
                kk = self.expr(k)
                items.append((kk, self.expr(v)))
        d = self.t()
        self.emit("builddict", d, {"items": items})
        return d

    def _comp(self, e, kind):
        d = self.t("%L")
        self.emit("build", d, {"kind": kind, "parts": []})
        def inner():
            if kind == "dict":
                k = self.expr(e.key); v = self.expr(e.value)
                self.emit("setsub", None, {"obj": d, "idx": k, "src": v})
            else:
                v = self.expr(e.elt)
                self.emit("accadd", None, {"obj": d, "src": v})
        self.comp(e.generators, inner)
        return d

    def e_ListComp(self, e): return self._comp(e, "list")
    def e_SetComp(self, e): return self._comp(e, "set")
    def e_GeneratorExp(self, e): return self._comp(e, "list")
    def e_DictComp(self, e): return self._comp(e, "dict")

    def e_Lambda(self, e):
        d = self.t()
        self.emit("closure", d, {"node": e, "name": "<lambda>"})
        self.captured |= _names(e)
        return d

    def e_Await(self, e):
        v = self.expr(e.value)
        d = self.t()
        self.emit("await", d, {"v": v}, raising=True)
        return d

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else self.const(None)
        d = self.t()
        self.emit("yield", d, {"v": v})
        return d

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        d = self.t()
        self.emit("yieldfrom", d, {"v": v})
        return d

    def e_Starred(self, e):
        return self.expr(e.value)

    # -- derived facts
    def _flags(self):
        """Variables that hold None/True/False on some assignment: states are kept apart by them."""
        consts, by = set(), {}
        val = {}
        for n in self.nodes:
            if n.op == "const" and n.dst:
                val[n.dst] = n.a["v"]
                if n.dst.startswith("%b"):
                    consts.add(n.dst)
            elif n.op == "call" and n.dst:
                consts.add(n.dst)
                val[n.dst] = None
        for n in self.nodes:
            if n.op == "store" and n.dst and n.a["src"] in val and (val[n.a["src"]] is None or isinstance(val[n.a["src"]], bool)):
                consts.add(n.dst)
            if n.op == "store" and n.dst and n.a["src"].startswith(("%b", "%i")):
                consts.add(n.dst); consts.add(n.a["src"])
        return consts

    def _liveness(self):
        uses = []
        for n in self.nodes:
            u = set()
            for k, v in n.a.items():
                _uses(v, u)
            if n.op == "load":
                u.add(n.a["name"])
            uses.append(u)
        live = [set() for _ in self.nodes]
        preds = {}
        for n in self.nodes:
            for (t, _) in n.succ:
                preds.setdefault(t, []).append(n.id)
        work = list(range(len(self.nodes)))
        while work:
            i = work.pop()
            n = self.nodes[i]
            out = set()
            for (t, l) in n.succ:
                if l != "exc" and not (n.op == "next" and l == "done"):
                    out |= live[t]
            if n.dst:
                out.discard(n.dst)
            for (t, l) in n.succ:
                if l == "exc" or (n.op == "next" and l == "done"):
                    out |= live[t]
            new = out | uses[i]
            if new != live[i]:
                live[i] = new
                work.extend(preds.get(i, []))
        for n in self.nodes:
            n.live = frozenset(live[n.id]) | frozenset(self.captured & self.locals)


def _bound(n):
    """Names bound in a function."""
    out = set()
    a = n.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    body = [n.body] if isinstance(n, ast.Lambda) else n.body
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(x.name)
    return out


def _frozen(m, name):
    """A module variable assigned once and only ever read."""
    memo = m.__dict__.setdefault("_frozen", {})
    if name not in memo:
        n, bad = 0, False
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
                n += 1
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name and x.attr not in ("items", "keys", "values", "get", "index", "count"):
                bad = True
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name and not isinstance(x.ctx, ast.Load):
                bad = True
            if isinstance(x, ast.Global) and name in x.names:
                bad = True
        memo[name] = n == 1 and not bad
    return memo[name]


def _pure(e):
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.Attribute):
        return _pure(e.value)
    if isinstance(e, (ast.Tuple, ast.List)):
        return all(_pure(x) for x in e.elts)
    if isinstance(e, ast.JoinedStr):
        return all(_pure(v.value) for v in e.values if isinstance(v, ast.FormattedValue))
    if isinstance(e, ast.BinOp):
        return _pure(e.left) and _pure(e.right)
    if isinstance(e, ast.Call):
        return ast.unparse(e.func) in ("os.path.join", "len", "str") and all(_pure(x) for x in e.args) and not e.keywords
    return False


def _uses(v, u):
    if isinstance(v, str):
        if v.startswith("%"):
            u.add(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            _uses(x, u)


def _names(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def _is_boolish(x):
    if isinstance(x, ast.Compare):
        return True
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
        return True
    if isinstance(x, ast.BoolOp):
        return all(_is_boolish(y) for y in x.values)
    if isinstance(x, ast.Call):
        f = x.func
        if isinstance(f, ast.Name) and f.id in ("any", "all", "isinstance", "bool", "callable", "hasattr"):
            return True
        if isinstance(f, ast.Attribute) and f.attr in ("startswith", "endswith", "exists", "lexists", "isfile", "isdir",
                                                       "isspace", "isdigit", "isalpha", "islink", "is_dir", "is_file"):
            return True
    if isinstance(x, ast.Constant) and isinstance(x.value, bool):
        return True
    return False


def ir_of(func):
    if func._ir is None:
        func._ir = IR(func)
    return func._ir
