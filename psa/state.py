"""Path state of the abstract interpreter: heap, frames, facts, event trace."""
from .values import K, T, lin_of, lin_add, NONE


class Ev:
    __slots__ = ("kind", "name", "recv", "args", "kw", "res", "mod", "line", "fn", "fargs", "fkw", "frecv", "exc", "tok")

    def __init__(self, kind, name, recv=None, args=(), kw=(), res=None, mod=None, line=0, fn=None, fargs=(), fkw=(), frecv=None):
        self.kind, self.name, self.recv, self.args, self.kw, self.res = kind, name, recv, tuple(args), tuple(kw), res
        self.mod, self.line, self.fn = mod, line, fn
        self.fargs, self.fkw, self.frecv = tuple(fargs), tuple(fkw), frecv
        self.exc = self.tok = None

    @property
    def where(self):
        return "src/pypsrp/%s.py:%s (%s)" % (self.mod, self.line, self.fn)

    def arg(self, i, name=None, default=None):
        """frozen argument by position or keyword"""
        for k, v in self.fkw:
            if k == name:
                return v
        if i is not None and i < len(self.fargs):
            return self.fargs[i]
        return default

    def __repr__(self):
        a = ", ".join([repr(x) for x in self.fargs] + ["%s=%r" % kv for kv in self.fkw])
        return "%s %s%s(%s)" % (self.kind, ("%r." % (self.frecv,)) if self.frecv is not None else "", self.name, a)


class State:
    __slots__ = ("heap", "frames", "trace", "facts", "dom", "neq", "pos", "globals", "noid", "nuid", "marks", "depth")

    def __init__(self):
        self.heap, self.frames, self.trace = {}, {}, None
        self.facts, self.dom, self.neq, self.pos = {}, {}, {}, ()
        self.globals = {}
        self.noid = self.nuid = 0
        self.marks = ()
        self.depth = 0

    def copy(self):
        s = State.__new__(State)
        s.heap, s.frames, s.trace = dict(self.heap), dict(self.frames), self.trace
        s.facts, s.dom, s.neq, s.pos = dict(self.facts), dict(self.dom), dict(self.neq), self.pos
        s.globals = dict(self.globals)
        s.noid, s.nuid, s.marks, s.depth = self.noid, self.nuid, self.marks, self.depth
        return s

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            t, e = t
            out.append(e)
        out.reverse()
        return out

    def new(self, obj):
        from .values import Ref
        self.noid += 1
        self.heap[self.noid] = obj
        return Ref(self.noid)

    def uid(self):
        self.nuid += 1
        return self.nuid

    # ---- facts over atoms
    def decide(self, a):
        """truth of an atom (T) under the facts; None if undetermined"""
        f = self.facts.get(a)
        if f is not None:
            return f
        if a.op == "==":
            x, y = a.args
            if x == y:
                return True
            if isinstance(x, K) and isinstance(y, K):
                return x == y
            if isinstance(x, K):
                x, y = y, x
            if isinstance(y, K):
                d = self.dom.get(x)
                if d is not None:
                    if y not in d:
                        return False
                    if len(d) == 1:
                        return True
                if y in self.neq.get(x, ()):
                    return False
                # kinds
            else:
                dx, dy = self.dom.get(x), self.dom.get(y)
                if dx is not None and dy is not None and not (dx & dy):
                    return False
                if dx is not None and dy is not None and len(dx) == 1 and dx == dy:
                    return True
        elif a.op == "isnone":
            d = self.dom.get(a.args[0])
            if d is not None:
                if NONE not in d:
                    return False
                if len(d) == 1:
                    return True
            if self.facts.get(T("truth", a.args[0])) is True:
                return False
            if NONE in self.neq.get(a.args[0], ()):
                return False
            for k, v in self.facts.items():
                if v is True and k.op == "isinst" and k.args[0] == a.args[0] and "NoneType" not in k.args[1]:
                    return False
        elif a.op == "truth":
            d = self.dom.get(a.args[0])
            if d is not None:
                ts = {bool(k.v) for k in d}
                if len(ts) == 1:
                    return ts.pop()
            if self.facts.get(T("isnone", a.args[0])) is True:
                return False
        elif a.op == "isinst":
            if self.facts.get(T("isnone", a.args[0])) is True:
                return False
            for k, v in self.facts.items():
                if k.op == "isinst" and k.args[0] == a.args[0] and v is True:
                    r = _isinst_rel(k.args[1], a.args[1])
                    if r is not None:
                        return r
            d = self.dom.get(a.args[0])
            if d is not None:
                ts = {any(_ktype(k.v, n) for n in a.args[1]) for k in d}
                if len(ts) == 1:
                    return ts.pop()
        elif a.op == "pos":
            return self._decide_pos(a.args[0])
        return None

    def _decide_pos(self, v):
        L = lin_of(v)
        if L is None:
            return None
        c, d = L
        if not d:
            return c > 0
        # lengths (and terms assumed non-negative) are >= 0
        if c > 0 and all(k > 0 and _nonneg(t) for t, k in d.items()):
            return True
        if c <= 0 and all(k < 0 and _nonneg(t) for t, k in d.items()):
            return False
        for t, dm in self.dom.items():
            if t in d and len(dm) == 1 and len(d) == 1:
                (k,) = dm
                if isinstance(k.v, (int, float)):
                    return c + d[t] * k.v > 0
        for F, truth in self.pos:
            if truth:  # F > 0
                r = lin_add(L, F, -1)
                if not r[1] and r[0] >= 0:
                    return True
                if all(k > 0 and _nonneg(t) for t, k in r[1].items()) and r[0] >= 0:
                    return True
                r = lin_add(L, F, 1)  # L = r - F ; if r <= 0 then L < 0
                if r[0] <= 0 and all(k < 0 and _nonneg(t) for t, k in r[1].items()):
                    return False
                if not r[1] and r[0] == 1:  # integers: F >= 1, L = 1 - F <= 0
                    return False
            else:  # F <= 0
                r = lin_add(L, F, -1)
                if r[0] <= 0 and all(k < 0 and _nonneg(t) for t, k in r[1].items()):
                    return False
                r = lin_add(L, F, 1)  # L = r - F >= r
                if r[0] > 0 and all(k > 0 and _nonneg(t) for t, k in r[1].items()):
                    return True
        # two-fact combination
        for i, (F, tf) in enumerate(self.pos):
            for (G, tg) in self.pos[i + 1:]:
                if tf and tg:
                    r = lin_add(lin_add(L, F, -1), G, -1)
                    if not r[1] and r[0] >= -1:
                        return True
        return None

    def assume(self, a, val):
        """record atom = val; False if contradictory"""
        d = self.decide(a)
        if d is not None:
            return d == val
        self.facts[a] = val
        if a.op == "==":
            x, y = a.args
            if isinstance(x, K):
                x, y = y, x
            if isinstance(y, K):
                if val:
                    self.dom[x] = frozenset([y])
                else:
                    if x in self.dom:
                        nd = self.dom[x] - {y}
                        if not nd:
                            return False
                        self.dom[x] = nd
                    self.neq[x] = self.neq.get(x, frozenset()) | {y}
            elif val:
                for p, q in ((x, y), (y, x)):
                    if p in self.dom:
                        self.dom[q] = self.dom[p] & self.dom.get(q, self.dom[p])
                        if not self.dom[q]:
                            return False
        elif a.op == "isnone":
            x = a.args[0]
            if val:
                if x in self.dom and NONE not in self.dom[x]:
                    return False
                self.dom[x] = frozenset([NONE])
            else:
                if x in self.dom:
                    self.dom[x] = self.dom[x] - {NONE}
                self.neq[x] = self.neq.get(x, frozenset()) | {NONE}
        elif a.op == "truth":
            x = a.args[0]
            if x in self.dom:
                nd = frozenset(k for k in self.dom[x] if bool(k.v) == val)
                if not nd:
                    return False
                self.dom[x] = nd
        elif a.op == "pos":
            L = lin_of(a.args[0])
            if L is not None:
                self.pos = self.pos + ((L, val),)
        return True

    def set_dom(self, t, ks):
        self.dom[t] = frozenset(ks)

    def in_dom(self, x, ks, val):
        """restrict x in/not in constants ks (frozenset of K)"""
        if val:
            nd = self.dom[x] & ks if x in self.dom else ks - self.neq.get(x, frozenset())
            if not nd:
                return False
            self.dom[x] = frozenset(nd)
        else:
            if x in self.dom:
                nd = self.dom[x] - ks
                if not nd:
                    return False
                self.dom[x] = nd
            self.neq[x] = self.neq.get(x, frozenset()) | ks
        return True


def _nonneg(t):
    return isinstance(t, T) and (t.op == "len" or t.op == "nn")


_BASES = {"bool": {"bool", "int", "object"}, "int": {"int", "object"}, "str": {"str", "object"}, "bytes": {"bytes", "object"},
          "float": {"float", "object"}, "list": {"list", "object"}, "dict": {"dict", "object"}, "tuple": {"tuple", "object"},
          "NoneType": {"NoneType", "object"}, "set": {"set", "object"}}


def _ktype(v, name):
    if v is None:
        return name in ("NoneType", "object")
    return name in _BASES.get(type(v).__name__, {"object"})


def _isinst_rel(known, asked):
    """known: names x is an instance of one of; asked: names"""
    if set(known) <= set(asked):
        return True
    bs = [k in _BASES for k in known]
    if all(bs) and all(a in _BASES for a in asked):
        # exact builtin types: instance of known name may be a subclass (bool of int)
        possible = set()
        for k in known:
            possible |= {n for n, b in _BASES.items() if k in b}
        if not any(set(asked) & _BASES[p] for p in possible):
            return False
    return None
