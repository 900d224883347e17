"""Parse the package under analysis and index modules, classes and functions."""
import ast
import os

PKG = "pypsrp"


class AnalysisError(Exception):
    """The analysis cannot give a verdict (vanished anchor, unparsable source)."""


class Func:
    __slots__ = ("module", "name", "node", "cls", "decorators", "static", "classm", "prop", "setter_of", "gen",
                 "qual", "ctxman", "nested", "wrapped")

    def __init__(self, module, name, node, cls=None, nested=False):
        self.module, self.name, self.node, self.cls, self.nested = module, name, node, cls, nested
        self.static = self.classm = self.prop = self.ctxman = False
        self.setter_of = None
        self.wrapped = False
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            s = ast.unparse(d)
            self.decorators.append(s)
            if s == "staticmethod":
                self.static = True
            elif s == "classmethod":
                self.classm = True
            elif s == "property" or s.endswith("cached_property"):
                self.prop = True
            elif s.endswith(".setter"):
                self.setter_of = s[: -len(".setter")]
            elif s.endswith("contextmanager"):
                self.ctxman = True
            elif s.endswith("overload") or s == "property.getter" or s.endswith(".deleter"):
                pass
            else:
                self.wrapped = True
        self.gen = _is_gen(node)
        self.qual = "%s.%s" % (module.name, (cls.name + "." if cls else "") + name)

    def __repr__(self):
        return "<Func %s>" % self.qual

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]


def _is_gen(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.name = module, node, node.name
        self.qual = "%s.%s" % (outer.qual if outer else module.name, node.name)
        self.nested = {}
        self.methods = {}
        self.setters = {}
        self.fields = ()  # constructor fields of a dataclass or NamedTuple
        self.record = ()  # the same for a NamedTuple, whose instances are sequences of them
        self.attrs = {}  # name -> ast expr
        self.ann = {}  # instance attribute annotations
        self.ctor = {}  # instance attribute -> first constructor expression assigned in __init__
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, s.name, s, self)
                if f.setter_of:
                    self.setters[f.setter_of] = f
                elif any(d.endswith("overload") for d in f.decorators):
                    continue
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.ClassDef):
                self.nested[s.name] = Class(module, s, self)
                self.attrs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.attrs[a.id] = b
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
                self.ann[s.target.id] = s.annotation
        self._synth()
        for m in list(self.methods.values()):
            if m.static or m.classm:
                continue
            ps, kw = m.params()
            if not ps:
                continue
            selfn = ps[0]
            panns = {a.arg: a.annotation for a in m.node.args.args + m.node.args.kwonlyargs if a.annotation is not None}
            for n in ast.walk(m.node):
                if isinstance(n, ast.AnnAssign) and _self_attr(n.target, selfn):
                    self.ann.setdefault(n.target.attr, n.annotation)
                elif isinstance(n, ast.Assign) and m.name == "__init__":
                    for t in n.targets:
                        if _self_attr(t, selfn):
                            if isinstance(n.value, ast.Call):
                                self.ctor.setdefault(t.attr, n.value)
                            elif isinstance(n.value, ast.Name) and n.value.id in panns:
                                self.ann.setdefault(t.attr, panns[n.value.id])

    def _synth(self):
        """the __init__ a dataclass or NamedTuple gets from its annotations"""
        bases = [ast.unparse(b).split("[")[0] for b in self.node.bases]
        nt = any(b.split(".")[-1] == "NamedTuple" for b in bases)
        dc = any(ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass" for d in self.node.decorator_list)
        if not (nt or dc) or "__init__" in self.methods:
            return
        args, body, names = [], [], []
        defaults = []
        for b in bases:
            o = self.module.names.get(b)
            if isinstance(o, Class) and o.fields:
                i = o.methods["__init__"].node
                ps = i.args.args[1:]
                ds = i.args.defaults
                for a, d in zip(ps, [None] * (len(ps) - len(ds)) + list(ds)):
                    names.append(a.arg)
                    args.append(a.arg)
                    defaults.append(d)
        for s in self.node.body:
            if not (isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)) or "ClassVar" in ast.unparse(s.annotation):
                continue
            nm, d, init = s.target.id, s.value, True
            if dc and isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                kw = {k.arg: k.value for k in d.keywords}
                init = not (isinstance(kw.get("init"), ast.Constant) and kw["init"].value is False)
                d = kw.get("default")
                if d is None and "default_factory" in kw:
                    d = ast.Call(kw["default_factory"], [], [])
            if not init:
                if d is not None:
                    body.append(_set_field(nm, d))
                continue
            if nm in names:
                defaults[names.index(nm)] = d
                continue
            names.append(nm)
            args.append(nm)
            defaults.append(d)
        first = next((i for i, d in enumerate(defaults) if d is not None), len(defaults))
        a = ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in args], None, [], [], None,
                          [d if d is not None else ast.Constant(None) for d in defaults[first:]])
        body = [_set_field(n, ast.Name(n, ast.Load())) for n in names] + body
        if "__post_init__" in self.methods:
            body.append(ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "__post_init__", ast.Load()), [], [])))
        fn = ast.FunctionDef("__init__", a, body or [ast.Pass()], [], None, None, [])
        ast.copy_location(fn, self.node)
        ast.fix_missing_locations(fn)
        self.methods["__init__"] = Func(self.module, "__init__", fn, self)
        self.fields = tuple(names)
        for n in names:
            self.attrs.pop(n, None)
        if nt:
            self.record = self.fields

    def __repr__(self):
        return "<Class %s>" % self.qual


def _set_field(name, value):
    return ast.Assign([ast.Attribute(ast.Name("self", ast.Load()), name, ast.Store())], value)


def _functional(call, name):
    """the class statement for namedtuple('N', …) / typing.NamedTuple('N', …)"""
    if not isinstance(call, ast.Call) or ast.unparse(call.func).split(".")[-1] not in ("namedtuple", "NamedTuple") or len(call.args) < 2:
        return None
    f = call.args[1]
    if isinstance(f, ast.Constant) and isinstance(f.value, str):
        names = f.value.replace(",", " ").split()
    elif isinstance(f, (ast.List, ast.Tuple)):
        names = [e.elts[0].value if isinstance(e, ast.Tuple) else e.value for e in f.elts if isinstance(e, (ast.Tuple, ast.Constant))]
        if len(names) != len(f.elts):
            return None
    else:
        return None
    ds = next((k.value.elts for k in call.keywords if k.arg == "defaults" and isinstance(k.value, (ast.List, ast.Tuple))), [])
    ds = [None] * (len(names) - len(ds)) + list(ds)
    body = [ast.AnnAssign(ast.Name(n, ast.Store()), ast.Name("object", ast.Load()), d, 1) for n, d in zip(names, ds)]
    c = ast.ClassDef(name, [ast.Name("NamedTuple", ast.Load())], [], body or [ast.Pass()], [], [])
    ast.copy_location(c, call)
    return ast.fix_missing_locations(c)


def _self_attr(t, selfn):
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfn


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.names = {}  # name -> ('mod', dotted) | ('from', dotted, name) | Func | Class | ('expr', ast)
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ("mod", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    base = PKG + ("." + base if base else "")
                for a in s.names:
                    self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[s.name] = Func(self, s.name, s)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = Class(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c = _functional(s.value, t.id)
                        self.names[t.id] = Class(self, c) if c is not None else ("expr", s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.names[a.id] = ("expr", b)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = ("expr", s.value)
            elif isinstance(s, ast.Try):
                keep = dict(self.names)
                for h in s.handlers:
                    self._scan(h.body)
                alt = self.names
                self.names = keep
                self._scan(s.body)
                self._scan(s.orelse)
                self._scan(s.finalbody)
                for k, v in alt.items():
                    self.names.setdefault(k, v)
            elif isinstance(s, ast.If):
                self._scan(s.orelse)
                self._scan(s.body)
            elif isinstance(s, ast.With):
                self._scan(s.body)


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.root = os.path.join(repo, "src", PKG)
        self.modules = {}
        self.consulted = set()
        if not os.path.isdir(self.root):
            raise AnalysisError("package directory %s not found" % self.root)
        for dp, dn, fns in os.walk(self.root):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for fn in sorted(fns):
                if fn.endswith(".py"):
                    p = os.path.join(dp, fn)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith("__init__"):
                        rel = rel[: -len("__init__")].rstrip(".") or PKG
                    with open(p, encoding="utf-8") as f:
                        src = f.read()
                    try:
                        self.modules[rel] = Module(rel, p, src)
                    except SyntaxError as e:
                        raise AnalysisError("cannot parse %s: %s" % (p, e))
        self._mro = {}

    # --- lookup helpers
    def module(self, dotted):
        """in-package module for an absolute dotted name, or None"""
        if dotted == PKG:
            return self.modules.get(PKG)
        if dotted.startswith(PKG + "."):
            return self.modules.get(dotted[len(PKG) + 1:])
        return None

    def lookup(self, module, name, seen=()):
        """-> Func | Class | ('expr', module, ast) | ('ext', dotted) | ('module', Module) | None"""
        if (module.name, name) in seen:
            return None
        e = module.names.get(name)
        if e is None:
            return None
        if isinstance(e, (Func, Class)):
            return e
        if e[0] == "expr":
            return ("expr", module, e[1])
        if e[0] == "mod":
            m = self.module(e[1])
            return ("module", m) if m else ("ext", e[1])
        base, nm = e[1], e[2]
        sub = self.module(base + "." + nm)
        if sub:
            return ("module", sub)
        m = self.module(base)
        if m:
            r = self.lookup(m, nm, seen + ((module.name, name),))
            if r is None:
                return ("ext", base + "." + nm)
            return r
        return ("ext", base + "." + nm)

    def resolve_expr_class(self, module, expr):
        """resolve a base-class expression -> Class | 'dotted' """
        if isinstance(expr, ast.Name):
            r = self.lookup(module, expr.id)
            if isinstance(r, Class):
                return r
            if isinstance(r, tuple) and r[0] == "ext":
                return r[1]
            return expr.id
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr_class(module, expr.value)
            if isinstance(expr.value, ast.Name):
                r = self.lookup(module, expr.value.id)
                if isinstance(r, tuple) and r[0] == "module":
                    x = self.lookup(r[1], expr.attr)
                    if isinstance(x, Class):
                        return x
            if isinstance(b, Class) and expr.attr in b.nested:
                return b.nested[expr.attr]
            if isinstance(b, str):
                return b + "." + expr.attr
        if isinstance(expr, ast.Subscript):
            return self.resolve_expr_class(module, expr.value)
        return ast.unparse(expr)

    def mro(self, cls):
        r = self._mro.get(cls.qual)
        if r is None:
            r = [cls]
            for b in cls.node.bases:
                x = self.resolve_expr_class(cls.module, b)
                if isinstance(x, Class):
                    for y in self.mro(x):
                        if y not in r:
                            r.append(y)
                else:
                    if x not in r:
                        r.append(x)
            self._mro[cls.qual] = r
        return r

    def find_member(self, cls, name, after=None):
        """-> ('method', Func) | ('prop', getter Func) | ('attr', Class, ast) | None"""
        ms = self.mro(cls)
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else ms
        for c in ms:
            if isinstance(c, Class):
                if name in c.methods:
                    f = c.methods[name]
                    return ("prop", f) if f.prop else ("method", f)
                if name in c.attrs:
                    return ("attr", c, c.attrs[name])
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.setters:
                return c.setters[name]
        return None

    def ann_of(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.ann:
                return c, c.ann[name]
        return None

    def ctor_of(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.ctor:
                return c, c.ctor[name]
        return None

    def cls(self, qual):
        """'powershell.RunspacePool' -> Class, following re-exports; AnalysisError if gone"""
        m, n = qual.rsplit(".", 1)
        mod = self.modules.get(m)
        if mod is None and "." in m:
            outer = self.cls(m)
            if n in outer.nested:
                return outer.nested[n]
            raise AnalysisError("class %s not found" % qual)
        if mod is None:
            raise AnalysisError("module %s not found" % m)
        r = self.lookup(mod, n)
        if not isinstance(r, Class):
            raise AnalysisError("class %s not found" % qual)
        return r

    def func(self, qual):
        parts = qual.split(".")
        mod = self.modules.get(parts[0])
        if mod is None:
            raise AnalysisError("module %s not found" % parts[0])
        if len(parts) == 2:
            r = self.lookup(mod, parts[1])
            if not isinstance(r, Func):
                raise AnalysisError("function %s not found" % qual)
            return r
        c = self.cls(".".join(parts[:-1]))
        m = self.find_member(c, parts[-1])
        if m and m[0] == "attr":  # made by a call in the class body: the function its maker defines
            v = m[2]
            if isinstance(v, ast.Name) and v.id in m[1].methods:
                return m[1].methods[v.id]
            if isinstance(v, ast.Call):
                for x in [v.func] + list(v.args):
                    f = isinstance(x, ast.Name) and (m[1].methods.get(x.id) or self.lookup(m[1].module, x.id))
                    if isinstance(f, Func):
                        inner = [n for n in f.node.body if isinstance(n, ast.FunctionDef)]
                        return Func(f.module, parts[-1], inner[-1], None, nested=True) if inner and x is v.func else f
        if not m or m[0] not in ("method", "prop"):
            raise AnalysisError("method %s not found" % qual)
        return m[1]

    def all_classes(self):
        for m in self.modules.values():
            for v in m.names.values():
                if isinstance(v, Class) and v.module is m:
                    yield from _with_nested(v)

    def all_funcs(self):
        """every function/method definition, including nested ones, as (Module, qualname, node)"""
        for m in self.modules.values():
            yield from _walk_funcs(m, m.tree, m.name)


def _with_nested(c):
    yield c
    for n in c.nested.values():
        yield from _with_nested(n)


def _walk_funcs(m, node, prefix):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + "." + c.name
            yield m, q, c
            yield from _walk_funcs(m, c, q)
        elif isinstance(c, ast.ClassDef):
            yield from _walk_funcs(m, c, prefix + "." + c.name)
        else:
            yield from _walk_funcs(m, c, prefix)
