"""Abstract values: constants, provenance terms, heap references, callables."""


class K:
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return isinstance(o, K) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return self._h

    def __repr__(self):
        r = repr(self.v)
        return r if len(r) < 90 else r[:85] + "..."


NONE, TRUE, FALSE = K(None), K(True), K(False)


class T:
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash((op, args))

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and o._h == self._h and o.op == self.op and o.args == self.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        op, a = self.op, self.args
        try:
            if op == "attr":
                return "%r.%s" % (a[0], a[1])
            if op == "item":
                return "%r[%r]" % (a[0], a[1])
            if op == "in_":
                return "<%s>" % (a[0],)
            if op == "cat":
                return "(" + " + ".join(map(repr, a)) + ")"
            if op == "lin":
                return "(" + " + ".join(["%s*%r" % (c, t) if c != 1 else repr(t) for t, c in a[1]] + ([str(a[0])] if a[0] else [])) + ")"
            if op == "slice":
                return "%r[%s:%s]" % (a[0], a[1], a[2])
            if op == "meth":
                return "%r.%s(%s)" % (a[1], a[0], ", ".join(map(repr, a[2:])))
            if op == "ret":
                return "%s(%s)#%s" % (a[1], ", ".join(map(repr, a[2:])), a[0])
            if op == "tuple":
                return "(" + ", ".join(map(repr, a)) + ")"
        except Exception:  # pragma: no cover - diagnostics only
            pass
        return "%s(%s)" % (op, ", ".join(map(repr, a)))


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "@%d" % self.oid


class _V:
    __slots__ = ("k", "_h")

    def __init__(self, *k):
        self.k = k
        self._h = hash((type(self).__name__,) + tuple(id(x) if not isinstance(x, (str, int, tuple, K, T, Ref, _V, type(None))) else x for x in k))

    def __eq__(self, o):
        return type(o) is type(self) and o._h == self._h and all(a is b or a == b for a, b in zip(o.k, self.k))

    def __hash__(self):
        return self._h


class FnV(_V):  # (Func, bound self value | None, closure frame id | None, bound class for super)
    @property
    def func(self):
        return self.k[0]

    @property
    def self_(self):
        return self.k[1]

    @property
    def fid(self):
        return self.k[2]

    def __repr__(self):
        return "fn:%s" % self.func.qual


class ClsV(_V):
    @property
    def cls(self):
        return self.k[0]

    def __repr__(self):
        return "cls:%s" % self.cls.qual


class ModV(_V):
    def __repr__(self):
        return "mod:%s" % self.k[0].name


class Ext(_V):
    @property
    def name(self):
        return self.k[0]

    def __repr__(self):
        return "ext:%s" % self.k[0]


class Meth(_V):  # (receiver value, name)
    @property
    def recv(self):
        return self.k[0]

    @property
    def name(self):
        return self.k[1]

    def __repr__(self):
        return "%r.%s" % (self.k[0], self.k[1])


class SuperV(_V):  # (class after which to look, self value)
    pass


class PartialV(_V):  # (callable, args tuple, kwargs tuple)
    pass


class PropV(_V):  # property(getter, setter) made at run time
    pass


class PartialMV(_V):  # functools.partialmethod: (callable, args tuple, kwargs tuple)
    pass


class Raised:
    __slots__ = ("v", "line", "mod")

    def __init__(self, v, mod=None, line=0):
        self.v, self.mod, self.line = v, mod, line

    def __repr__(self):
        return "Raised(%r)" % (self.v,)


class HInst:
    __slots__ = ("cls", "attrs", "sym", "name", "ctor", "root")

    def __init__(self, cls, attrs=None, sym=False, name=None, ctor=None, root=False):
        self.cls, self.attrs, self.sym, self.name, self.ctor, self.root = cls, attrs or {}, sym, name, ctor, root

    def with_(self, **kw):
        n = HInst(self.cls, self.attrs, self.sym, self.name, self.ctor, self.root)
        for k, v in kw.items():
            setattr(n, k, v)
        return n


class HList:
    __slots__ = ("items", "kind", "name")

    def __init__(self, items=(), kind="list", name=None):
        self.items, self.kind, self.name = tuple(items), kind, name

    def with_(self, items):
        return HList(items, self.kind, self.name)


class HDict:
    __slots__ = ("items", "open", "name", "elem", "removed")

    def __init__(self, items=(), open=False, name=None, elem=None, removed=()):
        self.items, self.open, self.name, self.elem, self.removed = tuple(items), open, name, elem, tuple(removed)

    def with_(self, items=None, removed=None):
        return HDict(self.items if items is None else items, self.open, self.name, self.elem,
                     self.removed if removed is None else removed)


class HXml:
    __slots__ = ("tag", "attrib", "text", "children")

    def __init__(self, tag, attrib=None, text=NONE, children=()):
        self.tag, self.attrib, self.text, self.children = tag, attrib, text, tuple(children)

    def with_(self, **kw):
        n = HXml(self.tag, self.attrib, self.text, self.children)
        for k, v in kw.items():
            setattr(n, k, v)
        return n


class HCallIter:
    """iter(callable, sentinel)"""
    __slots__ = ("fn", "sentinel")

    def __init__(self, fn, sentinel):
        self.fn, self.sentinel = fn, sentinel


class HGen:
    """an in-package generator that has been called; frame holds its bound arguments"""
    __slots__ = ("func", "fid", "items", "pos")

    def __init__(self, func, fid, items=None, pos=0):
        self.func, self.fid, self.items, self.pos = func, fid, items, pos


# --- linear arithmetic -------------------------------------------------------

def lin_of(v):
    """(const, {atom: coef}) or None"""
    if isinstance(v, K):
        if isinstance(v.v, bool) or not isinstance(v.v, (int, float)):
            return None
        return (v.v, {})
    if isinstance(v, T):
        if v.op == "lin":
            return (v.args[0], dict(v.args[1]))
        if v.op in ("cat", "tuple", "list", "dict", "xml"):
            return None
        return (0, {v: 1})
    return None


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return T("lin", c, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))


def lin_add(a, b, s=1):
    d = dict(a[1])
    for t, k in b[1].items():
        d[t] = d.get(t, 0) + s * k
    return (a[0] + s * b[0], {t: k for t, k in d.items() if k != 0})


def subterms(v):
    """all subterms of a frozen value (including itself)"""
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, T):
            for a in x.args:
                if isinstance(a, tuple):
                    stack.extend(_flat(a))
                elif isinstance(a, (T, K, Ref, _V)):
                    stack.append(a)
        elif isinstance(x, (Meth, PartialV, FnV)):
            for a in x.k:
                if isinstance(a, (T, K, Ref, _V)):
                    stack.append(a)
                elif isinstance(a, tuple):
                    stack.extend(_flat(a))


def _flat(t):
    for a in t:
        if isinstance(a, tuple):
            yield from _flat(a)
        elif isinstance(a, (T, K, Ref, _V)):
            yield a
