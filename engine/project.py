"""Parses the Python package under analysis and resolves names."""
import ast, os, hashlib


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable file)."""


class Func:
    __slots__ = ("qual", "name", "node", "module", "cls", "parent", "args", "is_gen", "is_async", "decorators", "_ir")

    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual; self.node = node; self.module = module; self.cls = cls; self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        self._ir = None
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.decorators = [] if isinstance(node, ast.Lambda) else [ast.unparse(d) for d in node.decorator_list]
        self.is_gen = _has_yield(node)

    @property
    def file(self):
        return self.module.rel

    @property
    def is_stub(self):
        """Only says that a subclass provides it."""
        if isinstance(self.node, ast.Lambda):
            return False
        b = [x for x in self.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if not b or all(isinstance(x, ast.Pass) for x in b):
            return any("abstractmethod" in d for d in self.decorators) or not b and any(isinstance(x.value, ast.Constant) and x.value.value is ... for x in self.node.body)
        return len(b) == 1 and isinstance(b[0], ast.Raise) and b[0].exc is not None and "NotImplementedError" in ast.unparse(b[0].exc)

    @property
    def is_property(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<Func %s>" % self.qual


def _has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual; self.node = node; self.module = module; self.name = node.name
        self.methods = {}; self.fields = {}; self.field_order = []; self.defaults = {}; self.consts = {}
        self.bases = []
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, name, path, rel, src):
        self.name = name; self.path = path; self.rel = rel; self.src = src
        self.tree = ast.parse(src, filename=path)
        self.names = {}      # name -> ("mod", dotted) | ("from", mod, attr) | ("func", qual) | ("class", qual) | ("var", [expr nodes])
        self.is_pkg = os.path.basename(path) == "__init__.py"


class Project:
    def __init__(self, root="/repo", package="vanillaplusjs"):
        self.root = root; self.package = package
        self.modules = {}; self.funcs = {}; self.classes = {}
        h = hashlib.sha256()
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken("no package at %s" % base)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d != "__pycache__")
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, root)
                dotted = rel[:-3].replace(os.sep, ".")
                if dotted.endswith(".__init__"):
                    dotted = dotted[:-9]
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                h.update(rel.encode()); h.update(src.encode())
                try:
                    self.modules[dotted] = Module(dotted, path, rel, src)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        self.digest = h.hexdigest()
        for m in self.modules.values():
            m.project = self
            self._collect(m)
        for c in self.classes.values():
            c.bases = [b for b in (self._class_of_expr(x, c.module) for x in c.node.bases) if b]

    # -- symbol collection
    def _collect(self, m):
        def visit_body(body):
            for st in body:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.names[a.asname] = ("mod", a.name)
                        else:
                            m.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = self.resolve_from(m, st)
                    for a in st.names:
                        m.names[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = m.name + "." + st.name
                    m.names[st.name] = ("func", q)
                    self._add_func(q, st, m)
                elif isinstance(st, ast.ClassDef):
                    self._add_class(m, st)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ("var", st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.names[st.target.id] = ("var", st.value)
                elif isinstance(st, ast.If):
                    visit_body(st.body); visit_body(st.orelse)
                elif isinstance(st, ast.Try):
                    visit_body(st.body)
                    for h in st.handlers:
                        visit_body(h.body)
                    visit_body(st.orelse); visit_body(st.finalbody)
        visit_body(m.tree.body)

    def resolve_from(self, m, st):
        if not st.level:
            return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def _add_func(self, q, node, m, cls=None, parent=None):
        f = Func(q, node, m, cls, parent)
        self.funcs[q] = f
        body = node.body if isinstance(node.body, list) else []
        self._nested(q, body, m, cls, f)
        return f

    def _nested(self, q, body, m, cls, parent):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(q + ".<locals>." + st.name, st, m, cls, parent)
            else:
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(st, fld, None)
                    if isinstance(b, list):
                        self._nested(q, b, m, cls, parent)
                for h in getattr(st, "handlers", []) or []:
                    self._nested(q, h.body, m, cls, parent)

    def _add_class(self, m, st):
        q = m.name + "." + st.name
        c = Class(q, st, m)
        self.classes[q] = c
        m.names[st.name] = ("class", q)
        for b in st.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[b.name] = self._add_func(q + "." + b.name, b, m, c)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.fields[b.target.id] = b.annotation
                c.field_order.append(b.target.id)
                if b.value is not None:
                    c.defaults[b.target.id] = b.value
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = b.value

    # -- resolution
    def _class_of_expr(self, x, m):
        r = self.resolve_expr(x, m)
        if r and r[0] == "class":
            return self.classes[r[1]]
        return None

    def resolve_expr(self, x, m):
        if isinstance(x, ast.Name):
            return self.resolve_name(m, x.id)
        if isinstance(x, ast.Attribute):
            b = self.resolve_expr(x.value, m)
            return self.resolve_attr(b, x.attr) if b else None
        if isinstance(x, ast.Subscript):
            return self.resolve_expr(x.value, m)
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            try:
                return self.resolve_expr(ast.parse(x.value, mode="eval").body, m)
            except SyntaxError:
                return None
        return None

    def resolve_attr(self, b, attr):
        """b is a resolution; returns the resolution of b.attr (modules and classes only)."""
        if b[0] == "mod":
            dotted = b[1]
            if dotted in self.modules:
                r = self.resolve_name(self.modules[dotted], attr)
                if r:
                    return r
            sub = dotted + "." + attr
            if sub in self.modules or any(k.startswith(sub + ".") for k in self.modules):
                return ("mod", sub)
            if dotted.split(".")[0] == self.package:
                return None
            return ("ext", sub)
        if b[0] == "ext":
            return ("ext", b[1] + "." + attr)
        return None

    def resolve_name(self, m, name, depth=0):
        e = m.names.get(name)
        if e is None or depth > 10:
            return None
        if e[0] == "mod":
            top = e[1].split(".")[0]
            if top == self.package or e[1] in self.modules:
                return ("mod", e[1])
            return ("ext", e[1])
        if e[0] == "from":
            base, attr = e[1], e[2]
            if base in self.modules:
                r = self.resolve_name(self.modules[base], attr, depth + 1)
                if r:
                    return r
            sub = base + "." + attr
            if sub in self.modules:
                return ("mod", sub)
            if base.split(".")[0] == self.package:
                return ("mod", sub) if any(k.startswith(sub + ".") for k in self.modules) else None
            return ("ext", sub)
        if e[0] == "var":
            return ("var", m.name, name)
        return e

    def func(self, qual):
        if qual not in self.funcs:
            raise AnalysisBroken("function %s is gone" % qual)
        return self.funcs[qual]

    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisBroken("class %s is gone" % qual)
        return self.classes[qual]

    def mro(self, c):
        out, st = [], [c]
        while st:
            k = st.pop(0)
            if k not in out:
                out.append(k); st.extend(k.bases)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def all_fields(self, c):
        out = []
        for k in reversed(self.mro(c)):
            for f in k.field_order:
                if f not in out:
                    out.append(f)
        return out

    def field_default(self, c, f):
        for k in self.mro(c):
            if f in k.defaults:
                return k.defaults[f], k.module
        return None

    def field_annotation(self, c, f):
        for k in self.mro(c):
            if f in k.fields:
                return k.fields[f], k.module
        for k in self.mro(c):
            r = self._init_annotations(k).get(f)
            if r is not None:
                return r, k.module
        return None

    def _init_annotations(self, k):
        """Types of the attributes ``__init__`` assigns: annotated ones, annotated parameters and constructed objects."""
        r = getattr(k, "_initann", None)
        if r is not None:
            return r
        r = k._initann = {}
        ini = k.methods.get("__init__")
        if ini is None:
            return r
        a = ini.node.args
        ps = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        seen = {}
        for st in ast.walk(ini.node):
            if isinstance(st, ast.AnnAssign):
                tg, ann = [st.target], st.annotation
            elif isinstance(st, ast.Assign):
                tg, ann = st.targets, None
                if isinstance(st.value, ast.Name):
                    ann = ps.get(st.value.id)
                elif isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id in ("set", "list", "deque"):
                    ann = st.value.func
                elif isinstance(st.value, ast.List):
                    ann = ast.Name(id="list", ctx=ast.Load())
                elif isinstance(st.value, ast.Call) and self._class_of_expr(st.value.func, k.module) is not None:
                    ann = st.value.func
            else:
                continue
            for t in tg:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    seen.setdefault(t.attr, []).append(ann)
        for f, anns in seen.items():
            if anns[0] is not None and all(x is not None and ast.dump(x) == ast.dump(anns[0]) for x in anns):
                r[f] = anns[0]
        return r

    def annotation_class(self, ann, m):
        """The repository class an annotation names (through Optional and quotes)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value)
            if h.split(".")[-1] == "Optional":
                return self.annotation_class(ann.slice, m)
            return None
        if isinstance(ann, ast.BinOp):
            return self.annotation_class(ann.left, m) or self.annotation_class(ann.right, m)
        c = self._class_of_expr(ann, m)
        if c:
            return c
        # TYPE_CHECKING imports and forward references
        nm = ann.id if isinstance(ann, ast.Name) else ann.attr if isinstance(ann, ast.Attribute) else None
        if nm:
            hits = [k for k in self.classes.values() if k.name == nm]
            if len(hits) == 1:
                return hits[0]
        return None

    def elem_annotation(self, ann, m):
        """The annotation of elements of a container annotation: list -> (None, elt); dict -> (key, value)."""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split(".")[-1]
            if h == "Optional":
                return self.elem_annotation(ann.slice, m)
            if h in ("Dict", "dict") and isinstance(ann.slice, ast.Tuple):
                return (ann.slice.elts[0], ann.slice.elts[1])
            if h in ("List", "list", "Set", "set", "Iterable", "Sequence", "FrozenSet"):
                return (None, ann.slice)
        return None

    def loc(self, func, lineno):
        return "%s:%s in %s" % (func.file, lineno, func.qual[len(self.package) + 1:])


def synth(proj, name, src):
    """Adds a module written by the analysis (a driver which calls the code under analysis in every order)."""
    if name in proj.modules:
        return proj.modules[name]
    m = Module(name, "<%s>" % name, "<%s>" % name, src)
    m.project = proj
    proj.modules[name] = m
    proj._collect(m)
    return m
