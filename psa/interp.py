"""Path-sensitive abstract interpreter over the Python AST.

Values are constants, provenance terms (where a value came from), references to abstract heap objects and callables.
Branches whose condition the finite facts do not decide are followed both ways; loops over unknown collections are
followed for 0, 1 and 2 generic elements; package functions are analysed at their call sites (so extracting, merging or
moving helpers does not change what is seen); calls that leave the package become events of the path's trace.
Nothing of the analysed program is imported or executed and no constraint solver is involved.
"""
import ast
import builtins
import inspect
import collections
import copy
import os
import queue
import re
import time

from . import prelude
from .loader import AnalysisError, Class, Func, Module, Program
from .state import Ev, State
from .values import (FALSE, NONE, TRUE, ClsV, Ext, FnV, HCallIter, HDict, HGen, HInst, HList, HXml, K, Meth, ModV, PartialMV, PartialV, PropV, Raised,
                     Ref, SuperV, T, lin_add, lin_of, mk_lin, subterms)

DEADLINE = time.monotonic() + float(os.environ.get("PSA_SECONDS", "600"))  # a check has 900 s

ATOMS = {"==", "isnone", "truth", "in", "pos", "isinst", "b"}

ALIASES = {
    "requests.ReadTimeout": "requests.exceptions.ReadTimeout", "requests.ConnectTimeout": "requests.exceptions.ConnectTimeout",
    "requests.Timeout": "requests.exceptions.Timeout", "requests.HTTPError": "requests.exceptions.HTTPError",
    "requests.ConnectionError": "requests.exceptions.ConnectionError", "requests.RequestException": "requests.exceptions.RequestException",
}
EXC_BASES = {
    "requests.exceptions.RequestException": ["OSError"],
    "requests.exceptions.InvalidJSONError": ["requests.exceptions.RequestException"],
    "requests.exceptions.JSONDecodeError": ["requests.exceptions.InvalidJSONError", "ValueError"],
    "requests.exceptions.HTTPError": ["requests.exceptions.RequestException"],
    "requests.exceptions.ConnectionError": ["requests.exceptions.RequestException"],
    "requests.exceptions.ProxyError": ["requests.exceptions.ConnectionError"],
    "requests.exceptions.SSLError": ["requests.exceptions.ConnectionError"],
    "requests.exceptions.Timeout": ["requests.exceptions.RequestException"],
    "requests.exceptions.ConnectTimeout": ["requests.exceptions.ConnectionError", "requests.exceptions.Timeout"],
    "requests.exceptions.ReadTimeout": ["requests.exceptions.Timeout"],
    "requests.exceptions.URLRequired": ["requests.exceptions.RequestException"],
    "requests.exceptions.TooManyRedirects": ["requests.exceptions.RequestException"],
    "requests.exceptions.MissingSchema": ["requests.exceptions.RequestException", "ValueError"],
    "requests.exceptions.InvalidSchema": ["requests.exceptions.RequestException", "ValueError"],
    "requests.exceptions.InvalidURL": ["requests.exceptions.RequestException", "ValueError"],
    "requests.exceptions.InvalidHeader": ["requests.exceptions.RequestException", "ValueError"],
    "requests.exceptions.InvalidProxyURL": ["requests.exceptions.InvalidURL"],
    "requests.exceptions.ChunkedEncodingError": ["requests.exceptions.RequestException"],
    "requests.exceptions.ContentDecodingError": ["requests.exceptions.RequestException", "urllib3.exceptions.HTTPError"],
    "requests.exceptions.StreamConsumedError": ["requests.exceptions.RequestException", "TypeError"],
    "requests.exceptions.RetryError": ["requests.exceptions.RequestException"],
    "requests.exceptions.UnrewindableBodyError": ["requests.exceptions.RequestException"],
    "cryptography.exceptions.UnsupportedAlgorithm": ["Exception"], "cryptography.exceptions.InvalidKey": ["Exception"],
    "ET.ParseError": ["SyntaxError"],
    "binascii.Error": ["ValueError"],
    "struct.error": ["Exception"],
    "ipaddress.AddressValueError": ["ValueError"],
    "psa.AnyError": ["Exception"],
    "psa.OtherError": ["Exception"],
    "psa.Interrupt": ["BaseException"],
}

PURE_METH = {"upper", "lower", "strip", "lstrip", "rstrip", "encode", "decode", "replace", "startswith", "endswith", "get", "find",
             "findall", "findtext", "split", "rsplit", "splitlines", "partition", "hex", "index", "count", "group", "groups", "match",
             "search", "title", "keys", "values", "items", "total_seconds", "isdigit", "zfill", "join", "format", "copy", "public_key",
             "public_numbers", "iter", "itertext", "isoformat", "bit_length", "span", "start", "end"}
PURE_EXT_PREFIX = ("base64.", "struct.", "binascii.", "uuid.UUID", "ET.fromstring", "ET.tostring", "re.", "os.path.", "ipaddress.",
                   "urllib.parse.", "math.", "itertools.", "collections.", "builtins.", "typing.", "hashlib.", "xml.sax", "ET.QName",
                   "datetime.timedelta", "decimal.", "ntpath.", "string.")
BYTESCALLS = {"base64.b64encode", "base64.b64decode", "binascii.hexlify", "binascii.unhexlify", "struct.pack"}
STRCALLS = {"upper", "lower", "strip", "lstrip", "rstrip", "decode", "replace", "title", "zfill", "join", "format", "hex"}


LIST_NAMES = {n for c in (list, tuple, set, frozenset, collections.deque, bytearray, queue.Queue) for n in dir(c)} | {"queue", "maxsize"}
DICT_NAMES = set(dir(collections.OrderedDict)) | {"lower_items", "default_factory", "most_common", "elements"}


class Ctx:
    __slots__ = ("func", "fid", "module", "cls", "ycont", "depth", "yields")

    def __init__(self, func, fid, module, cls=None, ycont=None, depth=0):
        self.func, self.fid, self.module, self.cls, self.ycont, self.depth = func, fid, module, cls, ycont, depth
        self.yields = None


class Config:
    def __init__(self):
        self.boundary = {}  # func qual -> handler(I, st, fnv, args, kw, ctx, node)
        self.ext = {}  # dotted ext name or '.method' -> handler(I, st, recv, args, kw, ctx, node) | None to fall through
        self.shallow = lambda cls: False  # construct without running __init__
        self.raises = lambda ev, st: ()
        self.iters = (0, 1, 2)
        self.while_max = 3
        self.max_paths = 6000
        self.max_depth = 30
        self.attrs = {}  # attribute name -> handler(I, st, term) -> value | None
        self.dyn = None  # handler for calls of unknown callables
        self.debug_logs = False


class Outcome:
    __slots__ = ("st", "sig", "val", "exc")

    def __init__(self, st, val):
        self.st = st
        if isinstance(val, Raised):
            self.sig, self.val, self.exc = "raise", None, val
        else:
            self.sig, self.val, self.exc = "return", val, None

    @property
    def events(self):
        return self.st.events()


class Interp:
    def __init__(self, prog: Program, cfg=None):
        self.p, self.cfg = prog, cfg or Config()
        self.truncated = 0
        self.cut = 0
        self.npaths = 0
        self.functions = set()
        self.nonneg = set()
        self.numeric = set()
        with open(prelude.__file__, encoding="utf-8") as f:
            self.prelude = Module("psa_prelude", prelude.__file__, f.read())

    # ------------------------------------------------------------------ setup helpers
    def abs_inst(self, st, cls, name, root=True, **attrs):
        if isinstance(cls, str):
            cls = self.p.cls(cls)
        return st.new(HInst(cls, dict(attrs), sym=True, name=T("in_", name) if isinstance(name, str) else name, root=root))

    def getattr_(self, st, ref, name):
        """deterministic attribute read (helper for rules); value or None"""
        o = st.heap[ref.oid]
        if name in o.attrs:
            return o.attrs[name]
        outs = self.attr(st, ref, name, None)
        return outs[0][1] if outs else None

    def setattr_(self, st, ref, name, val):
        o = st.heap[ref.oid]
        st.heap[ref.oid] = o.with_(attrs={**o.attrs, name: val})

    def call_method(self, st, ref, name, args=(), kw=None):
        """run a method of an instance; list of Outcome"""
        o = st.heap[ref.oid]
        m = self.p.find_member(o.cls, name)
        if m and m[0] == "attr":  # made by a call in the class body
            c = m[1]
            ctx = Ctx(None, None, c.module)
            outs = [x for s, v in self.inst_attr(st, ref, st.heap[ref.oid], name, ctx, c.node) for x in (
                self.call(s, v, list(args), dict(kw or {}), ctx, c.node) if isinstance(v, (FnV, PartialV)) else [(s, v)])]
            self.npaths += len(outs)
            return [Outcome(s, v) for s, v in outs]
        if not m:
            raise AnalysisError("method %s.%s not found" % (o.cls.qual, name))
        f = m[1]
        return self.run_func(st, FnV(f, None if f.static else ref, None, None), args, kw)

    def call_setter(self, st, ref, name, val):
        o = st.heap[ref.oid]
        f = self.p.find_setter(o.cls, name)
        if f is None:
            pv = self.made_property(st, o.cls, name)
            if pv is not None and isinstance(pv.k[1], FnV):
                return self.run_func(st, FnV(pv.k[1].func, ref, *pv.k[1].k[2:]), (val,), {})
            raise AnalysisError("property setter %s.%s not found" % (o.cls.qual, name))
        return self.run_func(st, FnV(f, ref, None, None), (val,), {})

    def run_func(self, st, fnv, args=(), kw=None):
        ctx = Ctx(None, None, fnv.func.module)
        outs = self.call_func(st, fnv, list(args), dict(kw or {}), ctx, fnv.func.node, force=True)
        self.npaths += len(outs)
        return [Outcome(s, v) for s, v in outs]

    def construct(self, st, cls, args=(), kw=None):
        ctx = Ctx(None, None, cls.module)
        outs = self.instantiate(st, cls, list(args), dict(kw or {}), ctx, cls.node, force=True)
        return [Outcome(s, v) for s, v in outs]

    # ------------------------------------------------------------------ freezing
    def freeze(self, st, v, depth=6, seen=()):
        if isinstance(v, Ref):
            if v.oid in seen or depth <= 0:
                return v
            o = st.heap.get(v.oid)
            seen = seen + (v.oid,)
            if isinstance(o, HList):
                return T(o.kind, *[self.freeze(st, x, depth - 1, seen) for x in o.items])
            if isinstance(o, HDict):
                if o.open and not o.items:
                    return o.name
                its = tuple((self.freeze(st, k, depth - 1, seen), self.freeze(st, x, depth - 1, seen)) for k, x in o.items)
                return T("dict", its) if not o.open else T("odict", o.name, its)
            if isinstance(o, HXml):
                return T("xml", self.freeze(st, o.tag, depth, seen), self.freeze(st, o.attrib, depth, seen),
                         self.freeze(st, o.text, depth, seen), tuple(self.freeze(st, c, depth + 1, seen) for c in o.children))
            if isinstance(o, HInst):
                if o.root:
                    return v
                at = dict(o.ctor or {})
                at.update(o.attrs)
                if o.sym and not o.ctor:
                    return o.name
                return T("inst", o.cls.qual if isinstance(o.cls, Class) else str(o.cls), v,
                         tuple((k, self.freeze(st, x, depth - 1, seen)) for k, x in sorted(at.items())))
            if isinstance(o, HGen):
                return T("gen", v)
            return v
        if isinstance(v, T) and v.op in ("tuple", "cat", "star", "str", "meth", "slice", "ret"):
            if any(isinstance(a, Ref) for a in v.args):
                return T(v.op, *[self.freeze(st, a, depth - 1, seen) if isinstance(a, (Ref, T)) else a for a in v.args])
        if isinstance(v, T) and v.op in ("tuple", "cat", "star"):
            return T(v.op, *[self.freeze(st, a, depth - 1, seen) if isinstance(a, (Ref, T)) else a for a in v.args])
        return v

    # ------------------------------------------------------------------ kinds
    def kind(self, v):
        if isinstance(v, K):
            return type(v.v).__name__
        if isinstance(v, T):
            if v.op in ("len", "lin"):
                return "int"
            if v in self.numeric:
                return "int"
            if v.op == "str":
                return "str"
            if v.op in ("frag", "opened", "sealed"):
                return "bytes"
            if v.op == "cat":
                for a in v.args:
                    k = self.kind(a)
                    if k in ("str", "bytes"):
                        return k
                return None
            if v.op == "slice":
                return self.kind(v.args[0])
            if v.op == "meth" and v.args[0] in STRCALLS:
                return "str"
            if v.op == "meth" and v.args[0] in ("encode",):
                return "bytes"
            if v.op == "fn" and v.args[0] in BYTESCALLS:
                return "bytes"
            if v.op == "fn" and v.args[0] == "ET.tostring":
                return "str" if any(isinstance(a, T) and a.op == "kw" and a.args[0] == "encoding" and a.args[1] in ("unicode", K("unicode")) for a in v.args[1:]) or \
                    (len(v.args) > 2 and v.args[2] == K("unicode")) else "bytes"
            if v.op == "fn" and v.args[0] == "re.sub" and len(v.args) > 3:
                return self.kind(v.args[3])
            if v.op == "meth" and v.args[0] == "sub" and len(v.args) > 3 and isinstance(v.args[1], T) and v.args[1].op == "regex":
                return self.kind(v.args[3])
            if v.op == "tuple":
                return "tuple"
            if v.op in ATOMS or v.op == "not":
                return "bool"
            if v.op == "kind":
                return v.args[0]
        return None

    # ------------------------------------------------------------------ truth and atoms
    def truth_atom(self, st, v):
        """-> bool | T atom | ('not', atom)"""
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HList):
                if not o.items:
                    return False
                if any(not (isinstance(x, T) and x.op == "star") for x in o.items):
                    return True
                return self.truth_atom(st, o.items[0].args[0])
            if isinstance(o, HDict):
                if o.items:
                    return True
                if not o.open:
                    return False
                return T("truth", o.name)
            if isinstance(o, HXml):
                return len(o.children) > 0
            if isinstance(o, HInst) and isinstance(o.cls, Class):
                if self.p.find_member(o.cls, "__bool__") or self.p.find_member(o.cls, "__len__"):
                    return T("truth", v)
                return True
            return True
        if isinstance(v, T) and v.op in ("rematch", "regex"):
            return True
        if isinstance(v, T):
            if v.op == "not":
                r = self.truth_atom(st, v.args[0])
                return self._neg(r)
            if v.op in ATOMS:
                return v
            if v.op == "cat":
                for a in v.args:
                    if isinstance(a, K) and a.v:
                        return True
                return T("truth", v)
            if v.op == "tuple":
                return len(v.args) > 0
            if v.op == "len":
                return self.pos_atom(v)
            if v.op == "lin" or v in self.numeric:
                return self._neg(self.eq_atom(st, v, K(0)))
            if v.op == "slice" and v.args[2] == NONE:
                return self.pos_atom(self.len_of(st, v))
            return T("truth", v)
        return True

    @staticmethod
    def _neg(r):
        if isinstance(r, bool):
            return not r
        if r.op == "not":
            return r.args[0]
        return T("not", r)

    def pos_atom(self, v):
        if isinstance(v, K):
            return v.v > 0
        return T("pos", v)

    def fork_atom(self, st, a):
        """-> [(st, bool)]"""
        if isinstance(a, bool):
            return [(st, a)]
        if a.op == "not":
            return [(s, not b) for s, b in self.fork_atom(st, a.args[0])]
        if a.op == "inset":
            x, ks = a.args
            if x in st.dom:
                if st.dom[x] <= ks:
                    return [(st, True)]
                if not (st.dom[x] & ks):
                    return [(st, False)]
            s2 = st.copy()
            out = []
            if st.in_dom(x, ks, True):
                out.append((st, True))
            if s2.in_dom(x, ks, False):
                out.append((s2, False))
            return out
        d = st.decide(a)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        out = []
        if st.assume(a, True):
            out.append((st, True))
        if s2.assume(a, False):
            out.append((s2, False))
        return out

    def truth(self, st, v):
        return self.fork_atom(st, self.truth_atom(st, v))

    def bval(self, a):
        """atom/bool -> value"""
        return K(a) if isinstance(a, bool) else a

    def decide_val(self, st, v):
        """truth of a value under the path's facts: True/False/None"""
        a = self.truth_atom(st, v)
        if isinstance(a, bool):
            return a
        if a.op == "not":
            d = self.decide_val(st, a.args[0])
            return None if d is None else not d
        if a.op == "inset":
            x, ks = a.args
            if x in st.dom:
                if st.dom[x] <= ks:
                    return True
                if not (st.dom[x] & ks):
                    return False
            return None
        return st.decide(a)

    def eq_atom(self, st, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            x, y = st.heap.get(a.oid), st.heap.get(b.oid)
            if all(isinstance(o, HInst) and not o.sym and isinstance(o.cls, Class) and not self.p.find_member(o.cls, "__eq__") for o in (x, y)):
                return False  # created here, compared by identity
        a, b = self.freeze(st, a), self.freeze(st, b)
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if a == b:
            return True
        if isinstance(a, K):
            a, b = b, a
        if isinstance(b, K):
            if isinstance(a, T):
                if b.v in ("", b"") and isinstance(b.v, (str, bytes)):
                    if a.op == "slice" or a in self.nonneg:
                        return self._neg(self.pos_atom(self.len_of(st, a)))
                    if a.op == "cat" and any(isinstance(x, K) and x.v for x in a.args):
                        return False
                if a.op in ATOMS or a.op == "not":
                    if b.v is True:
                        return a
                    if b.v is False:
                        return self._neg(a)
                    if b.v is None or isinstance(b.v, str):
                        return False
                if a.op == "tuple" and not isinstance(b.v, tuple) or a.op in ("list", "set", "dict", "inst", "xml"):
                    return False
                la = lin_of(a)
                if la is not None and isinstance(b.v, (int, float)) and not isinstance(b.v, bool) and a.op == "lin" and len(la[1]) == 1:
                    (t, c), = la[1].items()
                    q = (b.v - la[0]) / c
                    if q == int(q):
                        return T("==", t, K(int(q)))
                    return False
                if a.op == "len" and isinstance(b.v, int):
                    if b.v == 0:
                        return self._neg(self.pos_atom(a))
                    if b.v < 0:
                        return False
            elif not isinstance(a, (T, K)):
                if b.v is None or isinstance(b.v, (str, int, bytes, bool)):
                    o = st.heap.get(a.oid) if isinstance(a, Ref) else None
                    return False if not isinstance(a, Ref) or isinstance(o, (HInst, HXml, HGen)) or isinstance(o, HList) and o.name is None \
                        or isinstance(o, HDict) and not o.open else T("==", a, b)
            return T("==", a, b)
        if isinstance(a, (ClsV, Ext, FnV)) and isinstance(b, (ClsV, Ext, FnV)):
            return a == b
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ("tuple", "list") and not any(
                isinstance(x, T) and x.op == "star" for x in a.args + b.args):
            if len(a.args) != len(b.args):
                return False
            rs = [self.eq_atom(st, x, y) for x, y in zip(a.args, b.args)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            un = [r for r in rs if r is not True]
            if len(un) == 1:
                return un[0]
            return T("==", a, b)
        la, lb = lin_of(a), lin_of(b)
        if la is not None and lb is not None and (a.op == "lin" or b.op == "lin"):
            d = lin_add(la, lb, -1)
            if not d[1]:
                return d[0] == 0
        if repr(b) < repr(a):
            a, b = b, a
        return T("==", a, b)

    def isnone_atom(self, st, v):
        if isinstance(v, K):
            return v.v is None
        if isinstance(v, T):
            if v.op in ("cat", "tuple", "len", "lin", "str", "slice", "not", "nn", "pyobj", "kind", "exc", "rematch", "regex") or v.op in ATOMS or self.kind(v) in ("str", "bytes"):
                return False
            return T("isnone", v)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HInst) and o.sym and not o.root and o.name is not None:
                return T("isnone", o.name)
            return False
        return False

    # ------------------------------------------------------------------ sequences
    def items_of(self, st, v):
        """exact tuple of items of a fully known sequence, else None"""
        if isinstance(v, T) and v.op in ("tuple", "list"):
            return None if any(isinstance(x, T) and x.op == "star" for x in v.args) else v.args
        if isinstance(v, K) and isinstance(v.v, (tuple, str, bytes, list, range, frozenset)):
            return tuple(K(x) for x in v.v)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HList):
                return None if any(isinstance(x, T) and x.op == "star" for x in o.items) else o.items
            if isinstance(o, HDict) and not o.open:
                return tuple(k for k, _ in o.items)
            if isinstance(o, HXml):
                return o.children
            if isinstance(o, HInst) and isinstance(o.cls, Class) and o.cls.record and all(f in o.attrs for f in o.cls.record):
                return tuple(o.attrs[f] for f in o.cls.record)
        return None

    def len_of(self, st, v):
        it = self.items_of(st, v)
        if it is not None:
            return K(len(it))
        if isinstance(v, T) and v.op == "cat" and self.kind(v) in ("str", "bytes"):
            tot = (0, {})
            for a in v.args:
                tot = lin_add(tot, lin_of(self.len_of(st, a)) or (0, {T("len", a): 1}))
            return mk_lin(*tot)
        if isinstance(v, T) and v.op == "slice":
            b, lo, hi = v.args
            if hi == NONE:
                L = lin_add(lin_of(self.len_of(st, b)), lin_of(lo), -1)
                # valid when the slice start is inside the sequence; callers compare it with 0 only
                return mk_lin(*L) if st._decide_pos(mk_lin(*lin_add((0, {}), L, -1))) is not True else K(0)
        return T("len", self.freeze(st, v))

    def known_slice(self, st, b, *bounds):
        """the slice of a list or tuple whose elements are known, the elements themselves kept"""
        o = st.heap.get(b.oid) if isinstance(b, Ref) else None
        if isinstance(o, HList) and o.kind == "list":
            its = o.items
        elif isinstance(b, T) and b.op == "tuple":
            its = b.args
        else:
            return None
        if any(isinstance(x, T) and x.op == "star" for x in its) or not all(
                isinstance(x, K) and (x.v is None or isinstance(x.v, int)) for x in bounds):
            return None
        r = list(its)[slice(*[x.v for x in bounds])]
        return T("tuple", *r) if isinstance(b, T) else st.new(HList(r))

    def mk_slice(self, st, b, lo, hi):
        r = self.known_slice(st, b, lo, hi)
        if r is not None:
            return r
        b = self.freeze(st, b)
        lo = K(0) if lo == NONE else lo
        if isinstance(b, K) and isinstance(lo, K) and isinstance(hi, K):
            try:
                return K(b.v[lo.v:hi.v])
            except Exception:
                pass
        if isinstance(b, T) and b.op in ("tuple", "list") and isinstance(lo, K) and isinstance(hi, K) and not any(
                isinstance(x, T) and x.op == "star" for x in b.args):
            r = b.args[slice(lo.v, hi.v)]
            return T("tuple", *r) if b.op == "tuple" else st.new(HList(r))
        if isinstance(b, T) and b.op == "slice":
            bb, l1, h1 = b.args
            if lin_of(l1) is not None and lin_of(lo) is not None and not (isinstance(lo, K) and lo.v < 0) and not (
                    isinstance(hi, K) and isinstance(hi.v, int) and hi.v < 0):
                nlo = mk_lin(*lin_add(lin_of(l1), lin_of(lo)))
                if hi == NONE:
                    return self.mk_slice(st, bb, nlo, h1)
                if h1 == NONE and lin_of(hi) is not None:
                    return self.mk_slice(st, bb, nlo, mk_lin(*lin_add(lin_of(l1), lin_of(hi))))
        # data[a + len(data[a:b]):] is data[b:]
        L = lin_of(lo)
        if L is not None:
            for t, c in list(L[1].items()):
                if c == 1 and isinstance(t, T) and t.op == "len" and isinstance(t.args[0], T) and t.args[0].op == "slice" \
                        and t.args[0].args[0] == b and t.args[0].args[2] != NONE:
                    sl = t.args[0]
                    rest = lin_add(L, (0, {t: 1}), -1)
                    if lin_add(rest, lin_of(sl.args[1]), -1) == (0, {}):
                        return self.mk_slice(st, b, sl.args[2], hi)
        if lo == K(0) and hi == NONE:
            return b
        if isinstance(hi, T) and hi == T("len", b):
            hi = NONE
            if lo == K(0):
                return b
        if lo == NONE:
            lo = K(0)
        return T("slice", b, lo, hi)

    def cat(self, st, parts):
        out = []
        for x in parts:
            if isinstance(x, T) and x.op == "cat":
                out.extend(x.args)
            else:
                out.append(x)
        res = []
        for x in out:
            if isinstance(x, K) and isinstance(x.v, (str, bytes)):
                if not x.v:
                    continue
                if res and isinstance(res[-1], K) and type(res[-1].v) is type(x.v):
                    res[-1] = K(res[-1].v + x.v)
                    continue
            res.append(x)
        if not res:
            for x in out:
                if isinstance(x, K):
                    return x
            return K("")
        if len(res) == 1:
            return res[0]
        return T("cat", *res)

    def str_of(self, st, v):
        if isinstance(v, K):
            try:
                return K(str(v.v))
            except Exception:
                return T("str", v)
        if isinstance(v, T) and (v.op in ("str",) or self.kind(v) == "str"):
            return v
        return T("str", self.freeze(st, v))

    def fmt_percent(self, st, fmt, arg):
        import re
        s = fmt.v
        if isinstance(arg, T) and arg.op == "tuple":
            args = list(arg.args)
        else:
            args = [arg]
        if all(isinstance(a, K) for a in args):
            try:
                return K(s % (tuple(a.v for a in args) if isinstance(arg, T) else args[0].v))
            except Exception:
                pass
        toks = re.split(r"(%(?:\([^)]*\))?[-+ #0-9.]*[sdrxXif%])", s if isinstance(s, str) else s.decode("latin1"))
        parts, i = [], 0
        if isinstance(s, bytes):
            return T("fmt", fmt, *[self.freeze(st, a) for a in args])
        for t in toks:
            if t.startswith("%") and len(t) > 1:
                if t == "%%":
                    parts.append(K("%"))
                    continue
                if t.startswith("%("):
                    return T("fmt", fmt, *[self.freeze(st, a) for a in args])
                if i >= len(args):
                    return T("fmt", fmt, *[self.freeze(st, a) for a in args])
                a = args[i]
                i += 1
                if t in ("%s", "%d", "%i"):
                    parts.append(self.str_of(st, a))
                elif isinstance(a, K):
                    parts.append(K(t % a.v))
                else:
                    parts.append(T("fmt", K(t), self.freeze(st, a)))
            elif t:
                parts.append(K(t))
        return self.cat(st, parts) if parts else K("")

    # ------------------------------------------------------------------ exceptions
    def exc_is(self, st, v, handler):
        """is raised value v caught by handler value? True/False/None"""
        names = []
        if isinstance(handler, T) and handler.op == "tuple":
            rs = [self.exc_is(st, v, h) for h in handler.args]
            if any(r is True for r in rs):
                return True
            if any(r is None for r in rs):
                return None
            return False
        hn = handler.cls if isinstance(handler, ClsV) else handler.name if isinstance(handler, Ext) else None
        if hn is None:
            return None
        anc = self.exc_ancestors(st, v)
        key = hn.qual if isinstance(hn, Class) else self._excname(hn)
        if key in anc:
            return True
        if "psa.AnyError" in anc and key not in ("GeneratorExit", "KeyboardInterrupt", "SystemExit", "BaseException"):
            return None if key != "Exception" else True
        return False

    @staticmethod
    def _excname(n):
        n = ALIASES.get(n, n)
        if n.startswith("builtins."):
            n = n[9:]
        if n in ("IOError", "EnvironmentError", "socket.error"):
            n = "OSError"
        return n

    def exc_ancestors(self, st, v):
        out = set()
        work = []
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HInst):
            c = st.heap[v.oid].cls
            work.append(c)
        elif isinstance(v, T) and v.op == "exc":
            work.append(v.args[0])
        elif isinstance(v, ClsV):
            work.append(v.cls)
        elif isinstance(v, Ext):
            work.append(v.name)
        else:
            work.append("psa.AnyError")
        while work:
            c = work.pop()
            if isinstance(c, Class):
                out.add(c.qual)
                for b in self.p.mro(c)[1:]:
                    if isinstance(b, Class):
                        out.add(b.qual)
                    else:
                        work.append(b)
                continue
            c = self._excname(c)
            if c in out:
                continue
            out.add(c)
            if c in EXC_BASES:
                work.extend(EXC_BASES[c])
            elif hasattr(builtins, c) and isinstance(getattr(builtins, c), type):
                out.update(x.__name__ for x in getattr(builtins, c).__mro__)
            else:
                out.update(("Exception", "BaseException"))
        return out

    def exc_name(self, st, r):
        """short name of the raised exception's class"""
        v = r.v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HInst):
            c = st.heap[v.oid].cls
            return c.name if isinstance(c, Class) else str(c)
        if isinstance(v, T) and v.op == "exc":
            return v.args[0] if isinstance(v.args[0], str) else repr(v.args[0])
        if isinstance(v, ClsV):
            return v.cls.name
        if isinstance(v, Ext):
            return self._excname(v.name)
        return "?"

    def mk_exc(self, name, *args):
        return T("exc", self._excname(name), *args)

    # ------------------------------------------------------------------ materialisation by annotation
    def materialize(self, st, ann, module, name):
        """abstract value for an unknown value `name` of annotated type"""
        r = self._ann_kind(ann, module)
        if r is None:
            return name
        k, x = r
        if k == "cls":
            return st.new(HInst(x, {}, sym=True, name=name))
        if k == "dict":
            return st.new(HDict((), open=True, name=name, elem=x))
        if k == "list":
            return st.new(HList((T("star", name),), name=name))
        if k == "int":
            self.numeric.add(name)
        return name

    def _ann_kind(self, ann, module):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            n = ann.id if isinstance(ann, ast.Name) else ann.attr
            if n in ("Dict", "dict"):
                return ("dict", None)
            if n in ("List", "list"):
                return ("list", None)
            if n == "int":
                return ("int", None)
            c = self.p.resolve_expr_class(module, ann)
            if isinstance(c, Class):
                return ("cls", c)
            return None
        if isinstance(ann, ast.Subscript):
            n = ann.value.attr if isinstance(ann.value, ast.Attribute) else getattr(ann.value, "id", "")
            if n in ("Dict", "dict", "MutableMapping", "Mapping"):
                el = ann.slice.elts[1] if isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2 else None
                return ("dict", (el, module) if el is not None else None)
            if n in ("List", "list"):
                return ("list", None)
            if n == "Optional":
                r = self._ann_kind(ann.slice, module)
                return r if r and r[0] == "cls" else None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            for x, y in ((ann.left, ann.right), (ann.right, ann.left)):
                if isinstance(y, ast.Constant) and y.value is None:
                    r = self._ann_kind(x, module)
                    return r if r and r[0] == "cls" else None
        return None

    # ------------------------------------------------------------------ attributes
    def attr(self, st, v, name, ctx, node=None):
        """-> [(st, value|Raised)]"""
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HInst):
                return self.inst_attr(st, v, o, name, ctx, node)
            if isinstance(o, HXml):
                if name == "text":
                    return [(st, o.text)]
                if name == "tag":
                    return [(st, o.tag)]
                if name == "attrib":
                    return [(st, o.attrib)]
                if name == "tail":
                    return [(st, NONE)]
                return [(st, Meth(v, name))]
            if isinstance(o, HList) and name not in LIST_NAMES or isinstance(o, HDict) and not o.open and name not in DICT_NAMES:
                return [(st, Raised(self.mk_exc("AttributeError", K(name)), ctx.module.name if ctx else None, getattr(node, "lineno", 0)))]
            return [(st, Meth(v, name))]
        if isinstance(v, ModV):
            return [self.global_name(st, v.k[0], name)]
        if isinstance(v, Ext) and name in ("__name__", "__qualname__") and v.name.startswith("builtins."):
            return [(st, K(v.name[9:]))]
        if isinstance(v, Ext):
            return [(st, Ext(ALIASES.get(v.name + "." + name, self.norm_ext(v.name + "." + name))))]
        if isinstance(v, ClsV):
            return self.cls_attr(st, v.cls, name)
        if isinstance(v, SuperV):
            after, self_ = v.k
            cls = None
            if isinstance(self_, Ref) and isinstance(st.heap[self_.oid], HInst):
                cls = st.heap[self_.oid].cls
            if not isinstance(cls, Class):
                cls = after
            m = self.p.find_member(cls, name, after=after)
            if m and m[0] == "method":
                return [(st, FnV(m[1], None if m[1].static else self_, None, None))]
            if m and m[0] == "prop":
                return self.call_func(st, FnV(m[1], self_, None, None), [], {}, ctx, node)
            return [(st, Ext("super." + name))]
        if isinstance(v, T):
            g = st.globals.get(("tattr", v, name))
            if g is not None:
                return [(st, g)]
            h = self.cfg.attrs.get(name)
            if h is not None:
                g = h(self, st, v)
                if g is not None:
                    return [(st, g)]
            if v.op == "exc" and name == "args":
                return [(st, T("tuple", *v.args[1:]))]
            if v.op == "exc" and name == "__class__":
                return [(st, T("attr", v, name))]
            return [(st, T("attr", v, name))]
        if isinstance(v, FnV) and name in ("__name__", "__doc__"):
            return [(st, K(v.func.name))]
        if isinstance(v, K) and name == "value" and isinstance(v.v, (int, str)):
            return [(st, v)]  # an Enum member is represented by its value
        if isinstance(v, K) and not hasattr(v.v, name):
            return [(st, Raised(self.mk_exc("AttributeError", K(name)), ctx.module.name if ctx else None, getattr(node, "lineno", 0)))]
        return [(st, Meth(v, name))]

    @staticmethod
    def norm_ext(n):
        if n.startswith("xml.etree.ElementTree."):
            return "ET." + n[len("xml.etree.ElementTree."):]
        if n == "xml.etree.ElementTree":
            return "ET"
        return n

    def inst_attr(self, st, v, o, name, ctx, node=None):
        if name in o.attrs:
            return [(st, o.attrs[name])]
        if name == "__class__":
            return [(st, ClsV(o.cls) if isinstance(o.cls, Class) else T("attr", o.name or v, name))]
        if name == "__dict__":
            at = dict(o.ctor or {})
            at.update(o.attrs)
            return [(st, st.new(HDict([(K(k), x) for k, x in at.items()], open=bool(o.sym), name=T("attr", o.name or v, "__dict__") if o.sym else None)))]
        m = self.p.find_member(o.cls, name) if isinstance(o.cls, Class) else None
        if m:
            if m[0] == "method":
                f = m[1]
                if f.static:
                    return [(st, FnV(f, None, None, None))]
                if f.classm:
                    return [(st, FnV(f, ClsV(o.cls), None, None))]
                return [(st, FnV(f, v, None, None))]
            if m[0] == "prop":
                return self.call_func(st, FnV(m[1], v, None, None), [], {}, ctx or Ctx(None, None, m[1].module), node)
            s, x = self.class_expr(st, m[1], name, m[2])
            if isinstance(x, PropV):
                g = x.k[0]
                if not isinstance(g, FnV):
                    return [(s, Raised(self.mk_exc("AttributeError", K(name)), ctx.module.name if ctx else None, getattr(node, "lineno", 0)))]
                return self.call(s, FnV(g.func, v, *g.k[2:]), [], {}, ctx or Ctx(None, None, m[1].module), node)
            return [(s, self.bound(x, v, m[1], name))]
        if o.ctor and name in o.ctor:
            return [(st, o.ctor[name])]
        if o.sym or o.ctor is not None or not isinstance(o.cls, Class) or any(not isinstance(b, Class) and b != "object" for b in self.p.mro(o.cls)):
            nm = T("attr", o.name if o.name is not None else v, name)
            val = nm
            if isinstance(o.cls, Class):
                a = self.p.ann_of(o.cls, name)
                if a:
                    val = self.materialize(st, a[1], a[0].module, nm)
                else:
                    c = self.p.ctor_of(o.cls, name)
                    if c:
                        rc = self.p.resolve_expr_class(c[0].module, c[1].func)
                        if isinstance(rc, Class):
                            val = st.new(HInst(rc, {}, sym=True, name=nm))
            o2 = st.heap[v.oid]
            st.heap[v.oid] = o2.with_(attrs={**o2.attrs, name: val})
            return [(st, val)]
        if self.p.find_member(o.cls, "__getattr__"):
            f = self.p.find_member(o.cls, "__getattr__")[1]
            return self.call_func(st, FnV(f, v, None, None), [K(name)], {}, ctx or Ctx(None, None, f.module), node)
        return [(st, Raised(self.mk_exc("AttributeError", K(name)), ctx.module.name if ctx else None, getattr(node, "lineno", 0)))]

    def cls_attr(self, st, cls, name):
        m = self.p.find_member(cls, name)
        if name == "__name__":
            return [(st, K(cls.name))]
        if m:
            if m[0] == "method":
                f = m[1]
                return [(st, FnV(f, ClsV(cls) if f.classm else None, None, None))]
            if m[0] == "prop":
                return [(st, FnV(m[1], None, None, None))]
            return [self.class_expr(st, m[1], name, m[2])]
        return [(st, T("attr", ClsV(cls), name))]

    def class_expr(self, st, cls, name, expr):
        key = ("cattr", cls.qual, name)
        if key in st.globals:
            return (st, st.globals[key])
        if name in cls.nested:
            return (st, ClsV(cls.nested[name]))
        ctx = Ctx(None, None, cls.module, cls)
        outs = self.ev(expr, st, ctx)
        st, v = outs[0]
        if isinstance(v, Raised):
            v = T("attr", ClsV(cls), name)
        st.globals[key] = v
        return (st, v)

    def global_name(self, st, module, name):
        r = self.p.lookup(module, name)
        if r is None:
            if hasattr(builtins, name):
                return (st, Ext("builtins." + name))
            return (st, T("global", module.name, name))
        if isinstance(r, Func):
            return (st, FnV(r, None, None, None))
        if isinstance(r, Class):
            return (st, ClsV(r))
        if r[0] == "ext":
            return (st, Ext(self.norm_ext(ALIASES.get(r[1], r[1]))))
        if r[0] == "module":
            return (st, ModV(r[1]))
        key = ("glob", r[1].name, id(r[2]))
        if key in st.globals:
            return (st, st.globals[key])
        outs = self.ev(r[2], st, Ctx(None, None, r[1]))
        st, v = outs[0]
        if isinstance(v, Raised):
            v = T("global", module.name, name)
        if isinstance(v, T) and v.op == "ret":
            v = T("global", r[1].name, name)
        st.globals[key] = v
        return (st, v)

    def bound(self, x, v, cls, name):
        """a function or partialmethod found in the class body, as a method of v"""
        if isinstance(x, FnV) and x.self_ is None and not x.func.static:
            f = x.func
            if f.cls is None and f.nested:
                f = self.__dict__.setdefault("_made", {}).setdefault((id(f), cls.qual, name), copy.copy(f))
                f.qual = "%s.%s" % (cls.qual, name)
            return FnV(f, v, *x.k[2:])
        if isinstance(x, PartialMV):
            return PartialV(self.bound(x.k[0], v, cls, name), *x.k[1:])
        return x

    def made_property(self, st, cls, name):
        m = self.p.find_member(cls, name)
        if m and m[0] == "attr" and isinstance(m[2], (ast.Call, ast.Name)):
            x = self.class_expr(st, m[1], name, m[2])[1]
            return x if isinstance(x, PropV) else None
        return None

    def bi_property(self, st, args, kw, ctx, node):
        a = list(args) + [NONE] * 2
        return [(st, PropV(kw.get("fget", a[0]), kw.get("fset", a[1])))]

    def set_attr(self, st, v, name, val, ctx, node):
        """-> [(st, None|Raised)]"""
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HInst):
                if isinstance(o.cls, Class):
                    f = self.p.find_setter(o.cls, name)
                    if f is not None:
                        return [(s, r if isinstance(r, Raised) else None) for s, r in self.call_func(st, FnV(f, v, None, None), [val], {}, ctx, node)]
                    pv = self.made_property(st, o.cls, name)
                    if pv is not None and isinstance(pv.k[1], FnV):
                        g = pv.k[1]
                        return [(s, r if isinstance(r, Raised) else None) for s, r in self.call(st, FnV(g.func, v, *g.k[2:]), [val], {}, ctx, node)]
                st.heap[v.oid] = o.with_(attrs={**o.attrs, name: val})
                self.event(st, "set", name, v, [val], {}, ctx, node)
                return [(st, None)]
            if isinstance(o, HXml):
                if name == "text":
                    st.heap[v.oid] = o.with_(text=val)
                elif name == "tag":
                    st.heap[v.oid] = o.with_(tag=val)
                return [(st, None)]
        if isinstance(v, (T, ClsV, Ext, ModV)):
            if isinstance(v, T):
                st.globals[("tattr", v, name)] = val
            self.event(st, "set", name, v, [val], {}, ctx, node)
        return [(st, None)]

    def event(self, st, kind, name, recv, args, kw, ctx, node, res=None):
        ev = Ev(kind, name, recv, args, tuple(kw.items()), res, ctx.module.name if ctx else None, getattr(node, "lineno", 0),
                ctx.func.qual if ctx and ctx.func else None,
                [self.freeze(st, a) for a in args], [(k, self.freeze(st, a)) for k, a in kw.items()],
                self.freeze(st, recv) if recv is not None else None)
        st.emit(ev)
        return ev

    # ------------------------------------------------------------------ items
    def get_item(self, st, c, i, ctx, node):
        if isinstance(i, T) and i.op == "fn" and i.args[0] == "builtins.slice" and len(i.args) in (2, 3):
            return [(st, self.mk_slice(st, c, i.args[1] if len(i.args) == 3 else NONE, i.args[-1]))]
        if isinstance(c, T) and c.op == "rematch" and isinstance(i, K):
            gs = (c.args[0].v,) + c.args[1]
            if isinstance(i.v, int) and 0 <= i.v < len(gs):
                return [(st, K(gs[i.v]))]
        if isinstance(c, Ref):
            o = st.heap[c.oid]
            if isinstance(o, HDict):
                fac = st.globals.get(("factory", c.oid)) if isinstance(c, Ref) else None
                r = self.dict_get(st, c, o, i, ctx, node)
                if fac is not None:
                    out = []
                    for s, v in r:
                        if not isinstance(v, Raised):
                            out.append((s, v))
                            continue
                        for s2, x in self.call(s, fac, [], {}, ctx, node):
                            if not isinstance(x, Raised):
                                s2.heap[c.oid] = s2.heap[c.oid].with_(items=s2.heap[c.oid].items + ((self.freeze(s2, i), x),))
                            out.append((s2, x))
                    return out
                return r
            if isinstance(o, HList) or isinstance(o, HXml):
                items = o.items if isinstance(o, HList) else o.children
                if isinstance(i, K) and isinstance(i.v, int):
                    seg = items[:i.v + 1] if i.v >= 0 else items[i.v:]
                    if not any(isinstance(x, T) and x.op == "star" for x in seg):
                        try:
                            return [(st, items[i.v])]
                        except IndexError:
                            return [(st, Raised(self.mk_exc("IndexError"), ctx.module.name, getattr(node, "lineno", 0)))]
                    return [(st, T("item", self.freeze(st, c), i))]
                return [(st, T("item", self.freeze(st, c), self.freeze(st, i)))]
            if isinstance(o, HInst) and isinstance(o.cls, Class):
                m = self.p.find_member(o.cls, "__getitem__")
                if m:
                    return self.call_func(st, FnV(m[1], c, None, None), [i], {}, ctx, node)
                its = self.items_of(st, c) if o.cls.record else None
                if its is not None and isinstance(i, K) and isinstance(i.v, int):
                    try:
                        return [(st, its[i.v])]
                    except IndexError:
                        return [(st, Raised(self.mk_exc("IndexError"), ctx.module.name, getattr(node, "lineno", 0)))]
        if isinstance(c, T):
            if c.op in ("tuple", "list") and isinstance(i, K) and isinstance(i.v, int):
                if not any(isinstance(x, T) and x.op == "star" for x in c.args):
                    try:
                        return [(st, c.args[i.v])]
                    except IndexError:
                        return [(st, Raised(self.mk_exc("IndexError"), ctx.module.name, getattr(node, "lineno", 0)))]
            g = st.globals.get(("titem", c, i))
            if g is not None:
                return [(st, g)]
            return [(st, T("item", c, self.freeze(st, i)))]
        if isinstance(c, K) and isinstance(i, K):
            try:
                return [(st, K(c.v[i.v]))]
            except (IndexError, KeyError, TypeError) as e:
                return [(st, Raised(self.mk_exc(type(e).__name__), ctx.module.name, getattr(node, "lineno", 0)))]
        if isinstance(c, (Ext, ClsV)):
            return [(st, c)]  # generics
        return [(st, T("item", self.freeze(st, c), self.freeze(st, i)))]

    def dict_get(self, st, c, o, i, ctx, node, default=None):
        fi = self.freeze(st, i)
        und = []
        for k, x in reversed(o.items):
            a = self.eq_atom(st, k, fi)
            if a is True:
                return [(st, x)]
            if a is not False:
                d = st.decide(a) if a.op != "not" else None
                if d is True:
                    return [(st, x)]
                if d is None:
                    und.append((k, x))
        out = []
        if und and not o.open:
            # unknown key of a table known in full: one outcome per distinct value, plus absence
            vals, seen = [], set()
            for k, x in und:
                vals.append((k, x))
            res = T("anyof", fi, tuple(x for _, x in vals))
            if len(vals) <= 4:
                for k, x in vals:
                    s2 = st.copy()
                    a = self.eq_atom(s2, k, fi)
                    if s2.assume(a, True):
                        out.append((s2, x))
                s3 = st
                ok = True
                for k, x in vals:
                    ok = ok and s3.assume(self.eq_atom(s3, k, fi), False)
                if ok:
                    out.append((s3, default if default is not None else Raised(self.mk_exc("KeyError", fi), ctx.module.name, getattr(node, "lineno", 0))))
                return out
            if default is not None:
                s2 = st.copy()
                out.append((s2, default))
            out.append((st, res))
            return out
        if o.open:
            if any(self.eq_atom(st, k, fi) is True for k in o.removed):
                pass
            else:
                nm = T("item", o.name, fi)
                if default is not None:
                    nm = T("dget", o.name, fi, self.freeze(st, default))
                val = nm
                if o.elem is not None:
                    val = self.materialize(st, o.elem[0], o.elem[1], nm)
                if default is None:
                    o = st.heap[c.oid]
                    st.heap[c.oid] = o.with_(items=o.items + ((fi, val),)) if not und else o
                    return [(st, val)]
                return [(st, val)]
        if default is not None:
            return [(st, default)]
        return [(st, Raised(self.mk_exc("KeyError", fi), ctx.module.name, getattr(node, "lineno", 0)))]

    def set_item(self, st, c, i, val, ctx, node):
        if isinstance(c, Ref):
            o = st.heap[c.oid]
            if isinstance(o, HDict):
                fi = self.freeze(st, i)
                items = tuple((k, x) for k, x in o.items if self.eq_atom(st, k, fi) is not True)
                had = [n for n, (k, x) in enumerate(o.items) if self.eq_atom(st, k, fi) is True]
                if had:
                    l = list(o.items)
                    l[had[0]] = (fi, val)
                    items = tuple(l)
                else:
                    items = items + ((fi, val),)
                st.heap[c.oid] = o.with_(items=items, removed=tuple(k for k in o.removed if k != fi))
                self.event(st, "setitem", "[]=", o.name if o.open else c, [fi, val], {}, ctx, node)
                return [(st, None)]
            if isinstance(o, HList):
                if isinstance(i, K) and isinstance(i.v, int):
                    l = list(o.items)
                    seg = l[:i.v + 1] if i.v >= 0 else l[i.v:]
                    if not any(isinstance(x, T) and x.op == "star" for x in seg):
                        try:
                            l[i.v] = val
                        except IndexError:
                            return [(st, Raised(self.mk_exc("IndexError"), ctx.module.name, node.lineno))]
                        st.heap[c.oid] = o.with_(l)
                self.event(st, "setitem", "[]=", c, [i, val], {}, ctx, node)
                return [(st, None)]
            if isinstance(o, HInst) and isinstance(o.cls, Class):
                m = self.p.find_member(o.cls, "__setitem__")
                if m:
                    return [(s, r if isinstance(r, Raised) else None) for s, r in self.call_func(st, FnV(m[1], c, None, None), [i, val], {}, ctx, node)]
        if isinstance(c, T):
            st.globals[("titem", c, self.freeze(st, i))] = val
        self.event(st, "setitem", "[]=", c, [i, val], {}, ctx, node)
        return [(st, None)]

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, st, ctx):
        """evaluate several expressions in order -> [(st, [values]) | (st, Raised)]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, ctx):
                        if isinstance(v, Raised):
                            nxt.append((s2, v))
                            continue
                        it = self.items_of(s2, v)
                        nxt.append((s2, vs + (list(it) if it is not None else [T("star", self.freeze(s2, v))])))
                    continue
                for s2, v in self.ev(n, s, ctx):
                    nxt.append((s2, v if isinstance(v, Raised) else vs + [v]))
            cur = nxt
        return cur

    def ev(self, n, st, ctx):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            return [(st, T("expr", ast.dump(n)))]
        out = m(n, st, ctx)
        if len(out) > self.cfg.max_paths:
            self.truncated += len(out) - self.cfg.max_paths
            out = out[: self.cfg.max_paths]
        return out

    def ev_Constant(self, n, st, ctx):
        return [(st, K(n.value))] if not isinstance(n.value, type(...)) else [(st, NONE)]

    def ev_Name(self, n, st, ctx):
        fid = ctx.fid
        while fid is not None:
            fr = st.frames[fid]
            if n.id in fr:
                v = fr[n.id]
                return [(st, v)]
            fid = fr.get("__parent__")
        if ctx.cls is not None and ctx.func is None and n.id in ctx.cls.attrs:
            return [self.class_expr(st, ctx.cls, n.id, ctx.cls.attrs[n.id])]
        if ctx.cls is not None and ctx.func is None and n.id in ctx.cls.methods:
            return [(st, FnV(ctx.cls.methods[n.id], None, None, None))]
        return [self.global_name(st, ctx.module, n.id)]

    def ev_NamedExpr(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if not isinstance(v, Raised):
                self.bind(s, ctx, n.target.id, v)
            out.append((s, v))
        return out

    def ev_Attribute(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.attr(s, v, n.attr, ctx, n))
        return out

    def ev_Subscript(self, n, st, ctx):
        out = []
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            if sl.step is not None:
                for s, v in self.ev(n.value, st, ctx):
                    if isinstance(v, Raised):
                        out.append((s, v))
                        continue
                    for s2, vs in self.evs([x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)], s, ctx):
                        if isinstance(vs, Raised):
                            out.append((s2, vs))
                        elif isinstance(v, K) and all(isinstance(x, K) for x in vs):
                            out.append((s2, K(v.v[slice(*[x.v for x in vs])])))
                        elif self.known_slice(s2, v, *vs) is not None:
                            out.append((s2, self.known_slice(s2, v, *vs)))
                        else:
                            out.append((s2, T("slice3", self.freeze(s2, v), *vs)))
                return out
            for s, v in self.ev(n.value, st, ctx):
                if isinstance(v, Raised):
                    out.append((s, v))
                    continue
                for s2, vs in self.evs([x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper)], s, ctx):
                    if isinstance(vs, Raised):
                        out.append((s2, vs))
                    else:
                        out.append((s2, self.mk_slice(s2, v, vs[0], vs[1])))
            return out
        for s, vs in self.evs([n.value, n.slice], st, ctx):
            if isinstance(vs, Raised):
                out.append((s, vs))
            else:
                out.extend(self.get_item(s, vs[0], vs[1], ctx, n))
        return out

    def ev_Tuple(self, n, st, ctx):
        out = []
        for s, vs in self.evs(n.elts, st, ctx):
            if isinstance(vs, Raised):
                out.append((s, vs))
            elif all(isinstance(v, K) for v in vs) and False:
                out.append((s, K(tuple(v.v for v in vs))))
            else:
                out.append((s, T("tuple", *vs)))
        return out

    def ev_List(self, n, st, ctx):
        return [(s, vs if isinstance(vs, Raised) else s.new(HList(vs))) for s, vs in self.evs(n.elts, st, ctx)]

    def ev_Set(self, n, st, ctx):
        return [(s, vs if isinstance(vs, Raised) else s.new(HList(vs, "set"))) for s, vs in self.evs(n.elts, st, ctx)]

    def ev_Dict(self, n, st, ctx):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vs in self.evs(nodes, st, ctx):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            it = iter(vs)
            d = []
            opened = None
            for k in n.keys:
                if k is None:
                    x = next(it)
                    o = s.heap.get(x.oid) if isinstance(x, Ref) else None
                    if isinstance(o, HDict):
                        for kk, vv in o.items:
                            d = [e for e in d if e[0] != kk] + [(kk, vv)]
                        if o.open:
                            opened = o.name
                    else:
                        opened = self.freeze(s, x)
                else:
                    kk, vv = self.freeze(s, next(it)), next(it)
                    d = [e for e in d if e[0] != kk] + [(kk, vv)]
            out.append((s, s.new(HDict(d, open=opened is not None, name=opened))))
        return out

    def ev_JoinedStr(self, n, st, ctx):
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        out = []
        for s, vs in self.evs(nodes, st, ctx):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            parts = []
            for nn, v in zip(n.values, vs):
                if isinstance(nn, ast.FormattedValue):
                    spec = "" if nn.format_spec is None else nn.format_spec.values[0].value if len(nn.format_spec.values) == 1 and \
                        isinstance(nn.format_spec.values[0], ast.Constant) else None
                    if isinstance(v, K) and spec is not None and (spec or nn.conversion not in (-1, 115)):
                        x = {-1: lambda q: q, 115: str, 114: repr, 97: ascii}[nn.conversion](v.v)
                        try:
                            parts.append(K(format(x, spec)))
                            continue
                        except (ValueError, TypeError):
                            pass
                    if nn.format_spec is not None or nn.conversion not in (-1, 115):
                        parts.append(T("fmt", K(ast.unparse(nn.format_spec) if nn.format_spec else str(nn.conversion)), self.freeze(s, v)))
                    else:
                        parts.append(self.str_of(s, v))
                else:
                    parts.append(v)
            out.append((s, self.cat(s, parts) if parts else K("")))
        return out

    def ev_FormattedValue(self, n, st, ctx):
        return self.ev_JoinedStr(ast.JoinedStr([n]), st, ctx)

    def ev_IfExp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.test, st, ctx):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            for s2, b in self.truth(s, v):
                out.extend(self.ev(n.body if b else n.orelse, s2, ctx))
        return out

    def ev_BoolOp(self, n, st, ctx):
        isand = isinstance(n.op, ast.And)
        cur = [(st, None)]
        out = []
        for i, e in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(e, s, ctx):
                    if isinstance(v, Raised) or i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == isand:
                            nxt.append((s3, None))
                        else:
                            out.append((s3, K(b) if isinstance(v, T) and (v.op in ATOMS or v.op == "not") else v))
            cur = nxt
        return out

    def ev_UnaryOp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.operand, st, ctx):
            if isinstance(v, Raised):
                out.append((s, v))
            elif isinstance(n.op, ast.Not):
                a = self.truth_atom(s, v)
                out.append((s, self.bval(self._neg(a))))
            elif isinstance(v, K):
                try:
                    out.append((s, K({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v.v))))
                except Exception:
                    out.append((s, T("unary", type(n.op).__name__, v)))
            elif isinstance(n.op, ast.USub) and lin_of(v) is not None:
                out.append((s, mk_lin(*lin_add((0, {}), lin_of(v), -1))))
            else:
                out.append((s, T("unary", type(n.op).__name__, self.freeze(s, v))))
        return out

    def binop(self, st, op, a, b, ctx, node):
        o = type(op)
        if isinstance(a, K) and isinstance(b, K):
            try:
                import operator as P
                f = {ast.Add: P.add, ast.Sub: P.sub, ast.Mult: P.mul, ast.Div: P.truediv, ast.FloorDiv: P.floordiv, ast.Mod: P.mod,
                     ast.Pow: P.pow, ast.BitOr: P.or_, ast.BitAnd: P.and_, ast.BitXor: P.xor, ast.LShift: P.lshift, ast.RShift: P.rshift}[o]
                return K(f(a.v, b.v))
            except Exception as e:
                return Raised(self.mk_exc(type(e).__name__), ctx.module.name, getattr(node, "lineno", 0))
        if o is ast.Mod and isinstance(a, K) and isinstance(a.v, (str, bytes)):
            return self.fmt_percent(st, a, b)
        if o in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor) and isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.heap[a.oid], st.heap[b.oid]
            if isinstance(x, HDict) and isinstance(y, HDict) and o is ast.BitOr and not x.open and not y.open:
                return st.new(HDict(tuple({**dict(x.items), **dict(y.items)}.items())))
            if isinstance(x, HList) and isinstance(y, HList) and x.kind in ("set", "frozenset") and y.kind in ("set", "frozenset"):
                xs, ys = list(x.items), list(y.items)
                if o is ast.BitOr and not any(isinstance(i, T) and i.op == "star" for i in xs + ys):
                    return st.new(x.with_(xs + [i for i in ys if i not in xs]))
                if all(isinstance(i, K) for i in xs + ys):
                    if o is ast.BitAnd:
                        return st.new(x.with_([i for i in xs if i in ys]))
                    if o is ast.Sub:
                        return st.new(x.with_([i for i in xs if i not in ys]))
                    return st.new(x.with_([i for i in xs if i not in ys] + [i for i in ys if i not in xs]))
        if o is ast.Add:
            ia, ib = self.seq_items(st, a), self.seq_items(st, b)
            if ia is not None and ib is not None:
                if isinstance(a, T) and isinstance(b, T):
                    return T("tuple", *(ia + ib))
                return st.new(HList(ia + ib))
            if ia is not None or ib is not None:
                fa = ia if ia is not None else (T("star", self.freeze(st, a)),)
                fb = ib if ib is not None else (T("star", self.freeze(st, b)),)
                return st.new(HList(fa + fb))
            ka, kb = self.kind(a), self.kind(b)
            if ka in ("str", "bytes") or kb in ("str", "bytes"):
                return self.cat(st, [self.freeze(st, a), self.freeze(st, b)])
            if ka in ("int", "float") or kb in ("int", "float"):
                fa, fb = self.freeze(st, a), self.freeze(st, b)
                r = mk_lin(*lin_add(lin_of(fa) or (0, {fa: 1}), lin_of(fb) or (0, {fb: 1})))
                self.mark_num(fa, fb, r)
                return r
            return self.cat(st, [self.freeze(st, a), self.freeze(st, b)])
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if o is ast.Sub and lin_of(fa) is not None and lin_of(fb) is not None:
            r = mk_lin(*lin_add(lin_of(fa), lin_of(fb), -1))
            self.mark_num(fa, fb, r)
            return r
        if o is ast.Mult:
            for x, y, l in ((a, fb, fa), (b, fa, fb)):
                items = self.seq_items(st, x)
                if items is not None and isinstance(y, K) and isinstance(y.v, int) and y.v * len(items) <= 256:
                    r = tuple(items) * max(0, int(y.v))
                    return T("tuple", *r) if isinstance(x, T) else st.new(HList(r))
            for x, y in ((fa, fb), (fb, fa)):
                if isinstance(x, K) and isinstance(x.v, (int, float)) and self.kind(y) not in ("str", "bytes", "tuple") and lin_of(y) is not None:
                    L = lin_of(y)
                    r = mk_lin(L[0] * x.v, {t: c * x.v for t, c in L[1].items()})
                    self.mark_num(y, r)
                    return r
            if repr(fb) < repr(fa):
                fa, fb = fb, fa
        if o in (ast.BitOr, ast.BitAnd) and repr(fb) < repr(fa):
            fa, fb = fb, fa
        return T("bin", o.__name__, fa, fb)

    def mark_num(self, *vs):
        for v in vs:
            if isinstance(v, T) and v.op not in ("cat", "tuple", "str"):
                self.numeric.add(v)

    def seq_items(self, st, v):
        if isinstance(v, T) and v.op == "tuple":
            return v.args
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HList):
            return st.heap[v.oid].items
        return None

    def ev_BinOp(self, n, st, ctx):
        return [(s, vs if isinstance(vs, Raised) else self.binop(s, n.op, vs[0], vs[1], ctx, n)) for s, vs in self.evs([n.left, n.right], st, ctx)]

    def cmp(self, st, op, a, b):
        """-> bool | atom"""
        o = type(op)
        if o in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) and isinstance(a, T) and isinstance(b, T) and a.op == b.op == "tuple":
            try:
                x, y = self.py(st, a), self.py(st, b)
                return x < y if o is ast.Lt else x <= y if o is ast.LtE else x > y if o is ast.Gt else x >= y
            except (ValueError, TypeError):
                pass
        if o in (ast.Is, ast.IsNot):
            if b == NONE:
                r = self.isnone_atom(st, a)
            elif a == NONE:
                r = self.isnone_atom(st, b)
            elif isinstance(a, K) and isinstance(b, K):
                r = a == b
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.oid == b.oid
            elif any(isinstance(x, Ref) and isinstance(st.heap[x.oid], HList) and st.heap[x.oid].kind == "object" for x in (a, b)):
                r = False  # a fresh object() is nothing but itself
            else:
                r = self.eq_atom(st, a, b)
            return self._neg(r) if o is ast.IsNot else r
        if o in (ast.Eq, ast.NotEq):
            r = self.eq_atom(st, a, b)
            return self._neg(r) if o is ast.NotEq else r
        if o in (ast.In, ast.NotIn):
            r = self.in_atom(st, a, b)
            return self._neg(r) if o is ast.NotIn else r
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if isinstance(fa, K) and isinstance(fb, K):
            try:
                import operator as P
                return {ast.Lt: P.lt, ast.LtE: P.le, ast.Gt: P.gt, ast.GtE: P.ge}[o](fa.v, fb.v)
            except Exception:
                return T("truth", T("cmp", o.__name__, fa, fb))
        la, lb = lin_of(fa), lin_of(fb)
        if la is None or lb is None:
            if o in (ast.Gt, ast.GtE):
                fa, fb, o = fb, fa, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[o]
            if o is ast.LtE:
                return self._neg(T("truth", T("cmp", "Lt", fb, fa)))
            return T("truth", T("cmp", "Lt", fa, fb))
        self.mark_num(fa, fb)
        if o is ast.Gt:
            L, neg = lin_add(la, lb, -1), False
        elif o is ast.Lt:
            L, neg = lin_add(lb, la, -1), False
        elif o is ast.LtE:
            L, neg = lin_add(la, lb, -1), True
        else:
            L, neg = lin_add(lb, la, -1), True
        v = mk_lin(*L)
        r = self.pos_atom(v)
        return self._neg(r) if neg else r

    def in_atom(self, st, a, b):
        fa = self.freeze(st, a)
        items = self.items_of(st, b)
        if isinstance(b, K) and isinstance(b.v, (str, bytes)):
            if isinstance(fa, K):
                try:
                    return fa.v in b.v
                except TypeError:
                    return False
            return T("in", fa, b)
        if items is not None:
            fi = [self.freeze(st, x) for x in items]
            if fa in fi:
                return True
            if isinstance(fa, K) and all(isinstance(x, K) for x in fi):
                return any(x.v == fa.v for x in fi)
            if all(isinstance(x, K) for x in fi):
                if not fi:
                    return False
                d = st.dom.get(fa)
                ks = frozenset(fi)
                if d is not None:
                    if d <= ks:
                        return True
                    if not (d & ks):
                        return False
                if isinstance(fa, T):
                    return T("inset", fa, ks)
                return False
            if isinstance(fa, (ClsV, Ext, FnV)) and all(isinstance(x, (ClsV, Ext, FnV, K)) for x in fi):
                return fa in fi
            return T("in", fa, self.freeze(st, b))
        if isinstance(b, Ref) and isinstance(st.heap[b.oid], HDict):
            o = st.heap[b.oid]
            for k, _ in o.items:
                if self.eq_atom(st, k, fa) is True:
                    return True
            if any(self.eq_atom(st, k, fa) is True for k in o.removed):
                return False
            return T("in", fa, o.name)
        return T("in", fa, self.freeze(st, b))

    def ev_Compare(self, n, st, ctx):
        out = []
        for s, vs in self.evs([n.left] + list(n.comparators), st, ctx):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            if len(n.ops) == 1:
                # user-defined __eq__
                r = self.cmp(s, n.ops[0], vs[0], vs[1])
                if not isinstance(r, bool) and r.op in ("inset",) or (not isinstance(r, bool) and r.op == "not" and r.args[0].op == "inset"):
                    for s2, b in self.fork_atom(s, r):
                        out.append((s2, K(b)))
                else:
                    out.append((s, self.bval(r)))
                continue
            cur = [(s, True)]
            for i, op in enumerate(n.ops):
                nxt = []
                for s2, b in cur:
                    if not b:
                        nxt.append((s2, False))
                        continue
                    nxt.extend(self.fork_atom(s2, self.cmp(s2, op, vs[i], vs[i + 1])))
                cur = nxt
            out.extend((s2, K(b)) for s2, b in cur)
        return out

    def ev_Lambda(self, n, st, ctx):
        f = self.lambda_func(n, ctx)
        return [(st, FnV(f, None, self.closure(n, st, ctx), None))]

    def closure(self, n, st, ctx):
        """the frame a nested function is defined in, with the values its defaults have at this point"""
        a = n.args
        ds = list(zip([x.arg for x in a.posonlyargs + a.args][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        vals = {}
        for nm, d in ds:
            if not isinstance(d, ast.Constant):
                outs = self.ev(d, st, ctx)
                if len(outs) == 1 and outs[0][0] is st and not isinstance(outs[0][1], Raised):
                    vals[nm] = outs[0][1]
        if not vals:
            return ctx.fid
        fid = ("d", st.uid())
        st.frames[fid] = {"__parent__": ctx.fid, "__defaults__": vals}
        return fid

    def lambda_func(self, n, ctx):
        cache = self.__dict__.setdefault("_lam", {})
        f = cache.get(id(n))
        if f is None:
            name = getattr(n, "name", "<lambda>")
            f = Func(ctx.module, name, n, None, nested=True)
            if ctx.func is not None:
                f.qual = ctx.func.qual + "." + name
                f.cls = None
            cache[id(n)] = f
        return f

    def ev_Await(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def ev_Yield(self, n, st, ctx):
        outs = self.ev(n.value, st, ctx) if n.value is not None else [(st, NONE)]
        res = []
        for s, v in outs:
            if isinstance(v, Raised):
                res.append((s, v))
            elif ctx.ycont is not None:
                res.extend(ctx.ycont(s, v))
            else:
                fr = s.frames[ctx.fid]
                s.frames[ctx.fid] = {**fr, "__yields__": fr.get("__yields__", ()) + (v,)}
                res.append((s, NONE))
        return res

    def ev_YieldFrom(self, n, st, ctx):
        loop = self.__dict__.setdefault("_yf", {}).get(id(n))
        if loop is None:
            nm = "__yf%d__" % len(self._yf)
            loop = ast.For(ast.Name(nm, ast.Store()), n.value, [ast.Expr(ast.Yield(ast.Name(nm, ast.Load())))], [])
            ast.copy_location(loop, n)
            ast.fix_missing_locations(loop)
            self._yf[id(n)] = loop
        return [(s, sig[1] if sig is not None and sig[0] == "raise" else NONE) for s, sig in self.st_For(loop, st, ctx)]

    def _comp(self, gens, st, ctx, body):
        """run comprehension generators; body(st) -> [(st, list|Raised)] accumulates; returns [(st, [items]|Raised)]"""
        if not gens:
            return body(st)
        g = gens[0]
        out = []
        for s, it in self.ev(g.iter, st, ctx):
            if isinstance(it, Raised):
                out.append((s, it))
                continue
            for s1, elems in self.iterate(s, it, ctx, g.iter):
                if isinstance(elems, Raised):
                    out.append((s1, elems))
                    continue
                cur = [(s1, [])]
                for e in elems:
                    nxt = []
                    for s2, acc in cur:
                        if isinstance(acc, Raised):
                            nxt.append((s2, acc))
                            continue
                        for s3, sig in self.assign(s2, g.target, e, ctx):
                            if sig is not None:
                                nxt.append((s3, sig))
                                continue
                            conds = [(s3, True)]
                            for c in g.ifs:
                                c2 = []
                                for s4, ok in conds:
                                    if ok is not True:
                                        c2.append((s4, ok))
                                        continue
                                    for s5, cv in self.ev(c, s4, ctx):
                                        if isinstance(cv, Raised):
                                            c2.append((s5, cv))
                                        else:
                                            c2.extend(self.truth(s5, cv))
                                conds = c2
                            for s4, ok in conds:
                                if isinstance(ok, Raised):
                                    nxt.append((s4, ok))
                                elif not ok:
                                    nxt.append((s4, acc))
                                else:
                                    for s5, r in self._comp(gens[1:], s4, ctx, body):
                                        nxt.append((s5, r if isinstance(r, Raised) else acc + r))
                    cur = nxt
                out.extend(cur)
        return out

    def _comp_ctx(self, st, ctx):
        fid = ("c", st.uid())
        st.frames[fid] = {"__parent__": ctx.fid}
        c = Ctx(ctx.func, fid, ctx.module, ctx.cls, ctx.ycont, ctx.depth)
        return c

    def ev_ListComp(self, n, st, ctx, kind="list"):
        c = self._comp_ctx(st, ctx)

        def body(s):
            return [(s2, v if isinstance(v, Raised) else [v]) for s2, v in self.ev(n.elt, s, c)]
        return [(s, r if isinstance(r, Raised) else s.new(HList(r, kind))) for s, r in self._comp(n.generators, st, c, body)]

    def ev_SetComp(self, n, st, ctx):
        return self.ev_ListComp(n, st, ctx, "set")

    def ev_GeneratorExp(self, n, st, ctx):
        return self.ev_ListComp(n, st, ctx)

    def ev_DictComp(self, n, st, ctx):
        c = self._comp_ctx(st, ctx)

        def body(s):
            return [(s2, vs if isinstance(vs, Raised) else [(self.freeze(s2, vs[0]), vs[1])]) for s2, vs in self.evs([n.key, n.value], s, c)]
        return [(s, r if isinstance(r, Raised) else s.new(HDict(r))) for s, r in self._comp(n.generators, st, c, body)]

    # ------------------------------------------------------------------ iteration
    def iterate(self, st, it, ctx, node):
        """-> [(st, [elements] | Raised)]"""
        items = self.items_of(st, it)
        if items is not None:
            return [(st, list(items))]
        if isinstance(it, Ref):
            o = st.heap[it.oid]
            if isinstance(o, HGen):
                return [(s, r) for s, r in self.gen_items(st, it, ctx, node)]
            if isinstance(o, HList):
                cur = [(st, [])]
                for x in o.items:
                    if isinstance(x, T) and x.op == "star":
                        nxt = []
                        for s, acc in cur:
                            for s2, el in self.opaque_iter(s, x.args[0]):
                                nxt.append((s2, acc + el))
                        cur = nxt
                    else:
                        cur = [(s, acc + [x]) for s, acc in cur]
                return cur
            if isinstance(o, HDict):
                return [(s, [k for k, _ in o.items] + el) for s, el in self.opaque_iter(st, o.name)]
        if isinstance(it, T) and it.op == "iterof":
            return [(st, list(it.args))]
        if isinstance(it, T) and it.op == "range":
            return self.range_iter(st, it)
        if isinstance(it, T) and it.op == "enum":
            return [(s, [T("tuple", K(i + it.args[1]), e) for i, e in enumerate(el)]) for s, el in self.iterate(st, it.args[0], ctx, node)]
        if isinstance(it, T) and it.op == "meth" and it.args[0] == "items":
            return [(s, [T("tuple", T("key", it.args[1], i), T("val", it.args[1], i)) for i in range(len(el))]) for s, el in self.opaque_iter(st, it)]
        m = self.iter_method(st, it)
        if m is not None:
            out = []
            for s, v in self.call_func(st, FnV(m, it, None, None), [], {}, ctx, node):
                if isinstance(v, Raised):
                    out.append((s, v))
                elif v == it or self.iter_method(s, v) is not None:
                    out.extend(self.iterate(s, s.new(HCallIter(Meth(v, "__next__"), None)), ctx, node))
                else:
                    out.extend(self.iterate(s, v, ctx, node))
            return out
        if isinstance(it, Ref) and isinstance(st.heap[it.oid], HCallIter):
            o, out, cur = st.heap[it.oid], [], [(st, [])]
            for k in range(self.cfg.while_max + 1):
                nxt = []
                for s, acc in cur:
                    for s2, v in self.call_next(s, o, ctx, node):
                        if v is None or isinstance(v, Raised):
                            out.append((s2, acc if v is None else v))
                        else:
                            nxt.append((s2, acc + [v]))
                cur = nxt
            self.cut += len(cur)
            return out
        if self.not_iterable(st, it):
            return [(st, Raised(self.mk_exc("TypeError"), ctx.module.name, getattr(node, "lineno", 0)))]
        return self.opaque_iter(st, self.freeze(st, it))

    def not_iterable(self, st, it):
        return isinstance(it, K) and (it.v is None or isinstance(it.v, (bool, int, float))) or \
            isinstance(it, Ref) and isinstance(st.heap[it.oid], HInst) and self.no_method(st, it, "__iter__")

    def no_method(self, st, ref, name):
        """an instance of a package class, all of whose bases are known, without such a method"""
        o = st.heap[ref.oid]
        if not isinstance(o.cls, Class) or o.sym:
            return False
        return all(isinstance(c, Class) and name not in c.methods and "__getitem__" not in c.methods or c == "object" for c in self.p.mro(o.cls))

    def opaque_iter(self, st, name):
        out = []
        key = ("iter", name)
        if key in st.globals:  # same collection iterated before on this path: same elements
            return [(st, list(st.globals[key]))]
        ns = self.cfg.iters
        elem = self.cfg_elem(st, name)
        for i, n in enumerate(ns):
            s = st.copy() if i < len(ns) - 1 else st
            if n == 0:
                if s.facts.get(T("truth", name)) is True:
                    continue
            elif s.facts.get(T("truth", name)) is False:
                continue
            els = []
            for j in range(n):
                nm = T("elem", name, j)
                els.append(elem(s, nm) if elem else nm)
            s.globals[key] = tuple(els)
            out.append((s, els))
        return out

    def cfg_elem(self, st, name):
        f = getattr(self.cfg, "elem", None)
        if f:
            r = f(self, st, name)
            if r:
                return r
        if isinstance(name, T) and name.op == "meth" and name.args[0] == "values":
            r = st.globals.get(("delem", name.args[1]))
            if r:
                return lambda s, nm: self.materialize(s, r[0], r[1], nm)
        return None

    def range_iter(self, st, it):
        a, b, step = it.args
        out = []
        n = max(self.cfg.iters)
        cur = [(st, [], a)]
        for _ in range(n + 1):
            nxt = []
            for s, acc, i in cur:
                at = self.pos_atom(mk_lin(*lin_add(lin_of(b), lin_of(i), -1)))
                for s2, more in self.fork_atom(s, at):
                    if more:
                        if len(acc) >= n:
                            self.cut += 1
                            continue
                        nxt.append((s2, acc + [i], mk_lin(*lin_add(lin_of(i), lin_of(step)))))
                    else:
                        out.append((s2, acc))
            cur = nxt
        return out

    def gen_items(self, st, ref, ctx, node):
        """collect all items of an unstarted in-package generator (or remaining items of a started one)"""
        o = st.heap[ref.oid]
        if o.items is not None:
            rest = list(o.items[o.pos:])
            st.heap[ref.oid] = HGen(o.func, o.fid, o.items, len(o.items))
            return [(st, rest)]
        c = Ctx(o.func, o.fid, o.func.module, o.func.cls, None, (ctx.depth if ctx else 0) + 1)
        out = []
        for s, sig in self.block(o.func.node.body, st, c):
            if sig is not None and sig[0] == "raise":
                out.append((s, sig[1]))
                continue
            ys = list(s.frames[o.fid].get("__yields__", ()))
            s.heap[ref.oid] = HGen(o.func, o.fid, tuple(ys), len(ys))
            out.append((s, ys))
        return out

    # ------------------------------------------------------------------ calls
    def ev_Call(self, n, st, ctx):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            fr = st.frames.get(ctx.fid, {})
            if n.args:
                outs = []
                for s, vs in self.evs(n.args, st, ctx):
                    if isinstance(vs, Raised):
                        outs.append((s, vs))
                    elif isinstance(vs[0], ClsV):
                        outs.append((s, SuperV(vs[0].cls, vs[1] if len(vs) > 1 else NONE)))
                    else:
                        outs.append((s, T("super")))
                return outs
            cls = ctx.func.cls if ctx.func else None
            ps, _ = ctx.func.params() if ctx.func else ([], [])
            if cls is not None and ps:
                return [(st, SuperV(cls, fr.get(ps[0], NONE)))]
            return [(st, T("super"))]
        out = []
        for s, fv in self.ev(n.func, st, ctx):
            if isinstance(fv, Raised):
                out.append((s, fv))
                continue
            if isinstance(fv, Ext) and self.is_logger(fv) and not self.cfg.debug_logs:
                # logging has no effect on the program; its arguments are still evaluated
                pass
            nodes = list(n.args) + [k.value for k in n.keywords]
            for s2, vs in self.evs_call(n.args, n.keywords, s, ctx):
                if isinstance(vs, Raised):
                    out.append((s2, vs))
                    continue
                args, kw = vs
                out.extend(self.call(s2, fv, args, kw, ctx, n))
        return out

    def is_logger(self, fv):
        return False

    def evs_call(self, argnodes, keywords, st, ctx):
        out = []
        for s, vs in self.evs(list(argnodes), st, ctx):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            cur = [(s, {})]
            for k in keywords:
                nxt = []
                for s1, kw in cur:
                    if isinstance(kw, Raised):
                        nxt.append((s1, kw))
                        continue
                    for s2, v in self.ev(k.value, s1, ctx):
                        if isinstance(v, Raised):
                            nxt.append((s2, v))
                        elif k.arg is None:
                            o = s2.heap.get(v.oid) if isinstance(v, Ref) else None
                            d = dict(kw)
                            if isinstance(o, HDict):
                                for kk, vv in o.items:
                                    if isinstance(kk, K) and isinstance(kk.v, str):
                                        d[kk.v] = vv
                                if o.open:
                                    d["**"] = o.name
                            else:
                                d["**"] = self.freeze(s2, v)
                            nxt.append((s2, d))
                        else:
                            nxt.append((s2, {**kw, k.arg: v}))
                cur = nxt
            for s1, kw in cur:
                out.append((s1, kw if isinstance(kw, Raised) else (list(vs), kw)))
        return out

    def call(self, st, fv, args, kw, ctx, node):
        """-> [(st, value|Raised)]"""
        if isinstance(fv, FnV):
            return self.call_func(st, fv, args, kw, ctx, node)
        if isinstance(fv, ClsV):
            return self.instantiate(st, fv.cls, args, kw, ctx, node)
        if isinstance(fv, PartialV):
            f, a, k = fv.k
            return self.call(st, f, list(a) + args, {**dict(k), **kw}, ctx, node)
        if isinstance(fv, Ext):
            return self.call_ext(st, fv.name, args, kw, ctx, node)
        if isinstance(fv, Meth):
            return self.call_meth(st, fv.recv, fv.name, args, kw, ctx, node)
        if isinstance(fv, T):
            if fv.op == "attr" and isinstance(fv.args[1], str):
                return self.call_meth(st, fv.args[0], fv.args[1], args, kw, ctx, node)
            if fv.op == "anyof" and self.cfg.dyn is None:
                pass
            if self.cfg.dyn is not None:
                r = self.cfg.dyn(self, st, fv, args, kw, ctx, node)
                if r is not None:
                    return r
            return self.opaque(st, "dyn", "<dynamic>", fv, args, kw, ctx, node)
        if isinstance(fv, Ref):
            o = st.heap[fv.oid]
            if isinstance(o, HInst) and isinstance(o.cls, Class):
                m = self.p.find_member(o.cls, "__call__")
                if m:
                    return self.call_func(st, FnV(m[1], fv, None, None), args, kw, ctx, node)
            return self.opaque(st, "dyn", "<call>", fv, args, kw, ctx, node)
        return self.opaque(st, "dyn", "<call>", fv, args, kw, ctx, node)

    def opaque(self, st, kind, name, recv, args, kw, ctx, node, pure=False, result=None):
        fargs = [self.freeze(st, a) for a in args]
        fkw = [(k, self.freeze(st, a)) for k, a in kw.items()]
        frecv = self.freeze(st, recv) if recv is not None else None
        ev = Ev(kind, name, recv, args, tuple(kw.items()), None, ctx.module.name if ctx.module else None, getattr(node, "lineno", 0),
                ctx.func.qual if ctx.func else None, fargs, fkw, frecv)
        if result is None:
            parts = ([frecv] if frecv is not None else []) + fargs + [T("kw", k, v) for k, v in fkw]
            if pure:
                result = T("meth", name, *parts) if kind == "meth" else T("fn", name, *parts)
            else:
                result = T("ret", st.uid(), name, *parts)
        ev.res = result
        out = []
        for x in self.cfg.raises(ev, st):
            s2 = st.copy()
            ev2 = Ev(kind, name, recv, args, tuple(kw.items()), None, ev.mod, ev.line, ev.fn, fargs, fkw, frecv)
            exc = x[0](self, s2) if isinstance(x, tuple) else x if isinstance(x, T) else self.mk_exc(x, K(name))
            ev2.exc = exc
            s2.emit(ev2)
            out.append((s2, Raised(exc, ev.mod, ev.line)))
        st.emit(ev)
        out.append((st, result))
        return out

    def bind(self, st, ctx, name, v):
        fid = ctx.fid
        fr = st.frames[fid]
        nl = fr.get("__nonlocal__")
        if nl and name in nl:
            p = fr.get("__parent__")
            while p is not None:
                pf = st.frames[p]
                if name in pf:
                    st.frames[p] = {**pf, name: v}
                    return
                p = pf.get("__parent__")
        st.frames[fid] = {**fr, name: v}

    def bind_args(self, st, f, self_, args, kw, ctx, node, fid=None):
        """-> [(st, {name: value} | Raised)]"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if self_ is not None:
            args = [self_] + args
        kw = dict(kw)
        rest = []
        star = None
        for i, v in enumerate(args):
            if isinstance(v, T) and v.op == "star":
                star = v
                break
            if i < len(pos):
                vals[pos[i]] = v
            else:
                rest.append(v)
        if star is not None:
            j = 0
            for p in pos:
                if p not in vals and p not in kw:
                    vals[p] = T("item", star.args[0], K(j))
                    j += 1
        unk = kw.pop("**", None)
        for k, v in list(kw.items()):
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
                del kw[k]
        # defaults
        cur = [(st, vals)]
        dn = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        dctx = Ctx(None, None, f.module, f.cls)
        for nm, d in dn:
            if nm in vals:
                continue
            if unk is not None:
                vals[nm] = T("dget", unk, K(nm), K("<default>"))
                continue
            dv = st.frames[fid].get("__defaults__") if fid is not None else None
            if dv is not None and nm in dv:
                vals[nm] = dv[nm]
                continue
            if f.nested and ctx.fid is not None:
                outs = self.ev(d, st, Ctx(ctx.func, ctx.fid, ctx.module, ctx.cls))
            else:
                outs = self.ev(d, st, dctx)
            vals[nm] = outs[0][1]
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in vals:
                if unk is not None:
                    vals[p] = T("item", unk, K(p))
                else:
                    return [(st, Raised(self.mk_exc("TypeError", K("missing argument %s of %s" % (p, f.qual))), ctx.module.name, getattr(node, "lineno", 0)))]
        if rest and a.vararg is None:
            return [(st, Raised(self.mk_exc("TypeError", K("too many arguments for %s" % f.qual)), ctx.module.name, getattr(node, "lineno", 0)))]
        if a.vararg is not None:
            vals[a.vararg.arg] = T("tuple", *(rest + ([star] if star is not None else [])))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = st.new(HDict([(K(k), v) for k, v in kw.items()], open=unk is not None, name=unk))
        elif kw:
            return [(st, Raised(self.mk_exc("TypeError", K("unexpected keyword %s for %s" % (sorted(kw)[0], f.qual))), ctx.module.name, getattr(node, "lineno", 0)))]
        return [(st, vals)]

    def call_func(self, st, fv, args, kw, ctx, node, force=False):
        f = fv.func
        h = self.cfg.boundary.get(f.qual)
        if h is not None and not force:
            if h == "opaque":
                return self.boundary_event(st, fv, args, kw, ctx, node)
            r = h(self, st, fv, args, kw, ctx, node)
            if r is not None:
                return r
        if time.monotonic() > DEADLINE:
            raise AnalysisError("out of time in %s" % f.qual)
        if ctx.depth > self.cfg.max_depth:
            return self.boundary_event(st, fv, args, kw, ctx, node)
        if f.wrapped:
            w = self.decorated(st, fv, ctx, node)
            if w is not None:
                args = ([fv.self_] if fv.self_ is not None else []) + list(args)
                return [x for s, v in w for x in ([(s, v)] if isinstance(v, Raised) else self.call(s, v, args, kw, ctx, node))]
        if f.module is not self.prelude:
            self.functions.add(f.qual)
            self.p.consulted.add(f.module.name)
        out = []
        for s, vals in self.bind_args(st, f, fv.self_, args, kw, ctx, node, fv.fid):
            if isinstance(vals, Raised):
                out.append((s, vals))
                continue
            fid = s.uid()
            vals = dict(vals)
            vals["__parent__"] = fv.fid
            s.frames[fid] = vals
            if f.gen:
                out.append((s, s.new(HGen(f, fid))))
                continue
            c = Ctx(f, fid, f.module, f.cls, None, ctx.depth + 1)
            if isinstance(f.node, ast.Lambda):
                out.extend(self.ev(f.node.body, s, c))
                continue
            for s2, sig in self.block(f.node.body, s, c):
                if sig is None:
                    out.append((s2, NONE))
                elif sig[0] == "return":
                    out.append((s2, sig[1]))
                elif sig[0] == "raise":
                    out.append((s2, sig[1]))
        if len(out) > self.cfg.max_paths:
            self.truncated += len(out) - self.cfg.max_paths
            out = out[: self.cfg.max_paths]
        return out

    def plain(self, f):
        """the function below its decorators"""
        c = self.__dict__.setdefault("_plain", {})
        g = c.get(id(f))
        if g is None:
            g = c[id(f)] = copy.copy(f)
            g.wrapped = False
            c[id(f), "keep"] = f
        return g

    def decorated(self, st, fv, ctx, node):
        """what the package's own decorators make of a function; None when it has none of those (others keep the function)"""
        f = fv.func
        dctx = ctx if fv.fid is not None and ctx.fid == fv.fid else Ctx(None, fv.fid, f.module, f.cls, None, ctx.depth)
        mine = []
        for d in reversed(getattr(f.node, "decorator_list", [])):
            root = d.func if isinstance(d, ast.Call) else d
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name):
                continue
            if fv.fid is not None:
                vs = self.ev(root, st.copy(), dctx)
                own = len(vs) == 1 and isinstance(vs[0][1], (FnV, ClsV, ModV, PartialV))
            else:
                r = self.p.lookup(f.module, root.id)
                own = isinstance(r, (Func, Class)) or isinstance(r, tuple) and r[0] == "module" or \
                    f.cls is not None and root.id in f.cls.methods and not root.id == f.name
                if own and not isinstance(r, (Func, Class)) and not isinstance(r, tuple):
                    mine.append((d, f.cls.methods[root.id]))
                    continue
            if own:
                mine.append((d, None))
        if not mine:
            return None
        cur = [(st, FnV(self.plain(f), None, fv.fid, None))]
        for d, meth in mine:
            nxt = []
            for s, v in cur:
                for s1, dv in ([(s, FnV(meth, None, None, None))] if meth is not None and not isinstance(d, ast.Call) else self.ev(d, s, dctx)):
                    if isinstance(v, Raised) or isinstance(dv, Raised):
                        nxt.append((s1, v if isinstance(v, Raised) else dv))
                    else:
                        nxt.extend(self.call(s1, dv, [v], {}, ctx, node))
            cur = nxt
        return cur

    def boundary_event(self, st, fv, args, kw, ctx, node, result=None, name=None, pure=False):
        """make a call to an in-package function an event with arguments bound by parameter name"""
        f = fv.func
        out = []
        for s, vals in self.bind_args(st, f, fv.self_, args, kw, ctx, node):
            if isinstance(vals, Raised):
                out.append((s, vals))
                continue
            ps, kws = f.params()
            recv = None
            if fv.self_ is not None and ps:
                recv = vals.pop(ps[0], None)
            out.extend(self.opaque(s, "pkg", name or f.qual, recv, [], vals, ctx, node, result=result, pure=pure))
        return out

    def instantiate(self, st, cls, args, kw, ctx, node, force=False):
        h = self.cfg.boundary.get(cls.qual)
        if h is not None and not force:
            r = h(self, st, ClsV(cls), args, kw, ctx, node)
            if r is not None:
                return r
        m = self.p.find_member(cls, "__init__")
        if self.cfg.shallow(cls) and not force:
            if m and m[0] == "method":
                out = []
                for s, vals in self.bind_args(st, m[1], NONE, args, kw, ctx, node):
                    if isinstance(vals, Raised):
                        out.append((s, vals))
                        continue
                    ps, _ = m[1].params()
                    vals.pop(ps[0], None)
                    out.append((s, s.new(HInst(cls, {}, ctor=vals))))
                return out
            return [(st, st.new(HInst(cls, {}, ctor={})))]
        ref = st.new(HInst(cls, {}))
        if m and m[0] == "method":
            return [(s, r if isinstance(r, Raised) else ref) for s, r in self.call_func(st, FnV(m[1], ref, None, None), args, kw, ctx, node, force=force)]
        isexc = "Exception" in self.exc_ancestors(st, ClsV(cls))
        if isexc:
            o = st.heap[ref.oid]
            st.heap[ref.oid] = o.with_(attrs={**o.attrs, "args": T("tuple", *args)})
        return [(st, ref)]

    # ------------------------------------------------------------------ external callables
    def call_ext(self, st, name, args, kw, ctx, node):
        h = self.cfg.ext.get(name)
        if h is not None:
            r = h(self, st, None, args, kw, ctx, node)
            if r is not None:
                return r
        pre = prelude.EXTERNAL.get(name)
        if pre is not None:
            d = self.prelude.names[pre.__name__]
            if isinstance(d, Class):
                return self.instantiate(st, d, args, kw, ctx, node)
            return self.call_func(st, FnV(d, None, None, None), args, kw, ctx, node)
        if name in CONSUMERS and any(self.drained(st, a) for a in args):
            return [x for s, a in self.drain(st, args, ctx, node)
                    for x in ([(s, a)] if isinstance(a, Raised) else self.call_ext(s, name, a, kw, ctx, node))]
        if name == "collections.deque" and len(args) <= 2:
            return self._to_list(st, args[:1], "list", ctx, node)
        if name in FOLD and name not in self.cfg.ext:
            r = self.fold(st, name, args, kw, ctx, node)
            if r is not None:
                return r
        if name.startswith("builtins."):
            m = getattr(self, "bi_" + name[9:], None)
            if m is not None:
                r = m(st, args, kw, ctx, node)
                if r is not None:
                    return r
            tn, dot, meth = name[9:].partition(".")
            if dot and args and inspect.isroutine(getattr(getattr(builtins, tn, None), meth, None)) \
                    and type(inspect.getattr_static(getattr(builtins, tn), meth)).__name__ in ("method_descriptor", "wrapper_descriptor"):
                return self.call_meth(st, args[0], meth, args[1:], kw, ctx, node)  # str.strip(x) is x.strip()
            c = getattr(builtins, name[9:], None)
            if isinstance(c, type) and issubclass(c, BaseException):
                return [(st, T("exc", name[9:], *[self.freeze(st, a) for a in args]))]
        if name in ("ET.Element", "ET.SubElement"):
            return self.xml_new(st, name, args, kw, ctx, node)
        if name in ("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys") and args:
            its = self.items_of(st, args[0])
            if its is not None:
                v = args[1] if len(args) > 1 else kw.get("value", NONE)
                return [(st, st.new(HDict(tuple({self.freeze(st, x): v for x in its}.items()))))]
        if name == "collections.OrderedDict":
            return self.bi_dict(st, args, kw, ctx, node)
        if name == "collections.defaultdict":
            out = self.bi_dict(st, args[1:], kw, ctx, node)
            for s, v in out:
                if args and args[0] != NONE:
                    s.globals[("factory", v.oid)] = args[0]
            return out
        if name in ("typing.cast",) and len(args) == 2:
            return [(st, args[1])]
        if name == "copy.deepcopy" and args:
            return [(st, self.deep_copy(st, args[0], {}))]
        if name in ("copy.copy",) and args:
            return [(st, self.shallow_copy(st, args[0]))]
        if name == "re.sub":
            r = self.re_sub(st, args, kw, ctx, node)
            if r is not None:
                return r
        if name in ("struct.unpack", "struct.unpack_from", "struct.calcsize") and args and all(isinstance(a, K) for a in args) and not kw:
            import struct
            try:
                r = getattr(struct, name[7:])(*[a.v for a in args])
            except Exception:
                return [(st, Raised(self.mk_exc("struct.error"), ctx.module.name, getattr(node, "lineno", 0)))]
            return [(st, K(r) if isinstance(r, int) else T("tuple", *[K(x) for x in r]))]
        if name == "builtins.int.from_bytes" and args and all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kw.values()):
            try:
                return [(st, K(int.from_bytes(*[a.v for a in args], **{k: a.v for k, a in kw.items()})))]
            except Exception:
                pass
        if name == "re.escape" and len(args) == 1 and isinstance(args[0], K) and not kw:
            return [(st, K(re.escape(args[0].v)))]
        if name in ("re.split", "re.findall", "re.finditer", "re.search", "re.match", "re.fullmatch"):
            r = self.re_known(st, name[3:], args, kw)
            if r is not None:
                return r
        if name in ("binascii.hexlify", "binascii.unhexlify", "base64.b64encode", "base64.b64decode") and len(args) == 1 and isinstance(args[0], K) and not kw:
            import base64
            import binascii
            try:
                return [(st, K(getattr(base64 if name.startswith("base64") else binascii, name.split(".")[1])(args[0].v)))]
            except TypeError:
                return [(st, Raised(self.mk_exc("TypeError"), ctx.module.name, getattr(node, "lineno", 0)))]
            except Exception:
                return [(st, Raised(self.mk_exc("ValueError"), ctx.module.name, getattr(node, "lineno", 0)))]
        if name == "ET.fromstring" and len(args) == 1 and isinstance(args[0], K) and isinstance(args[0].v, str):
            import xml.etree.ElementTree as ET_
            try:
                ET_.fromstring(args[0].v)
            except ET_.ParseError:
                return [(st, Raised(self.mk_exc("ET.ParseError"), ctx.module.name, getattr(node, "lineno", 0)))]
            except Exception:
                pass
        if name == "functools.partial" and args:
            return [(st, PartialV(args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]
        if name == "functools.partialmethod" and args:
            return [(st, PartialMV(args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]
        if name == "re.compile" and args:
            return [(st, T("regex", *[self.freeze(st, a) for a in args]))]
        if name == "logging.getLogger":
            return [(st, T("logger"))]
        if name == "super.__init__":
            return [(st, NONE)]
        if name == "struct.pack" and all(isinstance(a, K) for a in args) and args:
            import struct
            try:
                return [(st, K(struct.pack(*[a.v for a in args])))]
            except Exception:
                pass
        last = name.rsplit(".", 1)[-1]
        if EXC_BASES.get(name) or (last.endswith(("Error", "Exception", "Warning")) and last[:1].isupper()):
            return [(st, T("exc", name, *[self.freeze(st, a) for a in args]))]
        pure = name.startswith(PURE_EXT_PREFIX)
        return self.opaque(st, "ext", name, None, args, kw, ctx, node, pure=pure)

    def endless(self, st, v):
        """a started-or-not itertools.count / repeat(x)"""
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(o, HGen) and o.items is None and o.func is not None and o.func.module is self.prelude:
            return o.func.name == "count" or o.func.name == "repeat" and st.frames[o.fid].get("times") == NONE
        return False

    def endless_next(self, st, v, ctx, node):
        o = st.heap[v.oid]
        fr = st.frames[o.fid]
        if o.func.name == "repeat":
            return fr["x"]
        st.frames[o.fid] = {**fr, "start": self.binop(st, ast.Add(), fr["start"], fr["step"], ctx, node)}
        return fr["start"]

    def drained(self, st, v):
        """an iterator whose elements have to be produced before they can be used: a generator, a package object with __iter__"""
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(o, HGen):
            return not self.endless(st, v)
        return isinstance(o, HCallIter) or self.iter_method(st, v) is not None

    def iter_method(self, st, v):
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if not isinstance(o, HInst) or not isinstance(o.cls, Class) or o.cls.record:
            return None
        m = self.p.find_member(o.cls, "__iter__")
        return m[1] if m and m[0] == "method" else None

    def drain(self, st, args, ctx, node):
        """the arguments with their iterators run to the end: [(state, args | Raised)]"""
        cur = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Raised):
                    nxt.append((s, acc))
                elif self.drained(s, a):
                    for s1, el in self.iterate(s, a, ctx, node):
                        nxt.append((s1, el if isinstance(el, Raised) else acc + [s1.new(HList(el))]))
                else:
                    nxt.append((s, acc + [a]))
            cur = nxt
        return cur

    def py(self, st, v, d=0):
        """the Python value of a fully known one; ValueError otherwise"""
        if isinstance(v, K):
            return v.v
        if d > 6:
            raise ValueError
        if isinstance(v, T) and v.op == "tuple":
            return tuple(self.py(st, x, d + 1) for x in v.args)
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(o, HList) and o.kind in ("list", "set", "frozenset"):
            return {"list": list, "set": set, "frozenset": frozenset}[o.kind](self.py(st, x, d + 1) for x in o.items)
        if isinstance(o, HDict) and not o.open:
            return {self.py(st, k, d + 1): self.py(st, x, d + 1) for k, x in o.items}
        raise ValueError

    def lift(self, st, v):
        """the engine's value for a Python one; ValueError otherwise"""
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return K(v)
        if isinstance(v, bytearray):
            return K(bytes(v))
        if isinstance(v, tuple):
            return T("tuple", *[self.lift(st, x) for x in v])
        if isinstance(v, (list, set)):
            return st.new(HList([self.lift(st, x) for x in v], type(v).__name__))
        raise ValueError

    def fold(self, st, name, args, kw, ctx, node):
        try:
            a, k = [self.py(st, x) for x in args], {n: self.py(st, x) for n, x in kw.items()}
        except (ValueError, TypeError):
            return None
        try:
            r = getattr(builtins, name[9:])(*a, **k)
        except Exception as e:
            return [(st, Raised(self.mk_exc(type(e).__name__), ctx.module.name, getattr(node, "lineno", 0)))]
        try:
            return [(st, self.lift(st, r))]
        except ValueError:
            return None

    def shallow_copy(self, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HInst):
                return st.new(o.with_(attrs=dict(o.attrs), root=False))
            if isinstance(o, HList):
                return st.new(o.with_(o.items))
            if isinstance(o, HDict):
                return st.new(o.with_())
            if isinstance(o, HXml):
                return st.new(o.with_())
        return v

    def deep_copy(self, st, v, memo):
        if isinstance(v, tuple):
            return tuple(self.deep_copy(st, x, memo) for x in v)
        if isinstance(v, T) and v.op == "tuple":
            return T("tuple", *[self.deep_copy(st, x, memo) for x in v.args])
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = st.heap[v.oid]
        r = memo[v.oid] = self.shallow_copy(st, v)
        if r == v:
            return v
        dc = lambda x: self.deep_copy(st, x, memo)
        if isinstance(o, HInst):
            st.heap[r.oid] = st.heap[r.oid].with_(attrs={k: dc(x) for k, x in o.attrs.items()})
        elif isinstance(o, HList):
            st.heap[r.oid] = st.heap[r.oid].with_([dc(x) for x in o.items])
        elif isinstance(o, HDict):
            n = st.heap[r.oid].with_()
            n.items = tuple((dc(k), dc(x)) for k, x in o.items)
            st.heap[r.oid] = n
        elif isinstance(o, HXml):
            st.heap[r.oid] = st.heap[r.oid].with_(attrib=dc(o.attrib), children=tuple(dc(c) for c in o.children))
        return r

    def re_sub(self, st, args, kw, ctx, node):
        """substitution in a known text by a known pattern: [(st, value)], None if not known"""
        import re
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(("pattern", "repl", "string", "count", "flags")):
            if n in kw and len(args) == i:
                args.append(kw.pop(n))
        if kw or len(args) != 3:
            return None
        pat, repl, text = args
        flags = 0
        if isinstance(pat, T) and pat.op == "regex":
            flags = self.re_flags(pat.args[1]) if len(pat.args) > 1 else 0
            if flags is None or len(pat.args) > 2:
                return None
            pat = pat.args[0]
        if not (isinstance(pat, K) and isinstance(text, K) and isinstance(text.v, (str, bytes)) and type(pat.v) is type(text.v)):
            return None
        try:
            rx = re.compile(pat.v, flags)
            if isinstance(repl, K):
                return [(st, K(rx.sub(repl.v, text.v)))]
            ms = list(rx.finditer(text.v))
        except Exception:
            return None
        if len(ms) > 4096:
            return None
        cur, pos = [(st, [])], 0
        for m in ms:
            tok = T("rematch", K(m.group(0)), tuple(m.groups()), K(m.start()), K(m.end()))
            nxt = []
            for s, parts in cur:
                if isinstance(parts, Raised):
                    nxt.append((s, parts))
                    continue
                for s2, v in self.call(s, repl, [tok], {}, ctx, node):
                    nxt.append((s2, v if isinstance(v, Raised) else parts + [K(text.v[pos:m.start()]), v]))
            cur, pos = nxt, m.end()
        out = []
        for s, parts in cur:
            if isinstance(parts, Raised):
                out.append((s, parts))
                continue
            parts = [x for x in parts + [K(text.v[pos:])] if not (isinstance(x, K) and not x.v)]
            if all(isinstance(x, K) for x in parts):
                try:
                    out.append((s, K(type(text.v)().join(x.v for x in parts))))
                except TypeError:
                    out.append((s, Raised(self.mk_exc("TypeError"), ctx.module.name, getattr(node, "lineno", 0))))
            else:
                out.append((s, self.cat(s, parts)))
        return out

    def xml_new(self, st, name, args, kw, ctx, node):
        args = list(args)
        kw = dict(kw)
        parent = None
        if name == "ET.SubElement":
            parent = args.pop(0) if args else kw.pop("parent", NONE)
        tag = args.pop(0) if args else kw.pop("tag", NONE)
        attrib = args.pop(0) if args else kw.pop("attrib", None)
        items = []
        opened = None
        if isinstance(attrib, Ref) and isinstance(st.heap[attrib.oid], HDict):
            items = list(st.heap[attrib.oid].items)
            if st.heap[attrib.oid].open:
                opened = st.heap[attrib.oid].name
        elif attrib is not None and attrib != NONE:
            opened = self.freeze(st, attrib)
        if "**" in kw:
            opened = kw.pop("**")
        items += [(K(k), v) for k, v in kw.items()]
        d = st.new(HDict(items, open=opened is not None, name=opened))
        x = st.new(HXml(tag, d))
        if isinstance(parent, Ref) and isinstance(st.heap.get(parent.oid), HXml):
            o = st.heap[parent.oid]
            st.heap[parent.oid] = o.with_(children=o.children + (x,))
        elif parent is not None:
            self.event(st, "xmlappend", "append", parent, [x], {}, ctx, node)
        return [(st, x)]

    # ------------------------------------------------------------------ methods of builtin-like values
    def call_meth(self, st, recv, name, args, kw, ctx, node):
        if name in CONSUMER_METHS and any(self.drained(st, a) for a in args):
            return [x for s, a in self.drain(st, args, ctx, node)
                    for x in ([(s, a)] if isinstance(a, Raised) else self.call_meth(s, recv, name, a, kw, ctx, node))]
        h = self.cfg.ext.get("." + name)
        if h is not None:
            r = h(self, st, recv, args, kw, ctx, node)
            if r is not None:
                return r
        if isinstance(recv, Ref):
            o = st.heap[recv.oid]
            if isinstance(o, HList):
                r = self.list_meth(st, recv, o, name, args, kw, ctx, node)
                if r is not None:
                    return r
            elif isinstance(o, HDict):
                r = self.dict_meth(st, recv, o, name, args, kw, ctx, node)
                if r is not None:
                    return r
            elif isinstance(o, HXml):
                r = self.xml_meth(st, recv, o, name, args, kw, ctx, node)
                if r is not None:
                    return r
            elif isinstance(o, HGen) and name in ("__next__", "send"):
                return self.bi_next(st, [recv], {}, ctx, node)
        if isinstance(recv, T) and recv.op == "logger":
            if name == "isEnabledFor":
                return [(st, TRUE if self.cfg.debug_logs else FALSE)]
            self.event(st, "log", name, recv, args, kw, ctx, node)
            return [(st, NONE)]
        if isinstance(recv, T) and recv.op == "regex" and name == "sub":
            r = self.re_sub(st, [recv] + list(args), kw, ctx, node)
            if r is not None:
                return r
        if isinstance(recv, T) and recv.op == "regex" and name in ("split", "findall", "finditer", "search", "match", "fullmatch"):
            r = self.re_known(st, name, [recv] + list(args), kw)
            if r is not None:
                return r
        if isinstance(recv, T) and recv.op == "rematch" and all(isinstance(a, K) for a in args):
            gs = (recv.args[0].v,) + recv.args[1]
            if name == "group" and len(args) <= 1:
                return [(st, K(gs[args[0].v if args else 0]))]
            if name == "groups" and not args:
                return [(st, T("tuple", *[K(x) for x in recv.args[1]]))]
            if name in ("start", "end") and not args:
                return [(st, recv.args[2 if name == "start" else 3])]
        if isinstance(recv, K):
            if isinstance(recv.v, (str, bytes, int, float, tuple)) and hasattr(recv.v, name):
                if name == "join" and len(args) == 1:
                    it = self.items_of(st, args[0])
                    if it is not None:
                        parts = []
                        for i, x in enumerate(it):
                            if i and recv.v:
                                parts.append(recv)
                            parts.append(self.freeze(st, x))
                        return [(st, self.cat(st, parts) if parts else K(recv.v[:0]))]
                if name == "format" and isinstance(recv.v, str):
                    r = self.fmt_format(st, recv, args, kw)
                    if r is not None:
                        return [(st, r)]
                if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], T) and args[0].op == "tuple" and all(isinstance(x, K) for x in args[0].args):
                    args = [K(tuple(x.v for x in args[0].args))]
                if all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kw.values()):
                    try:
                        r = getattr(recv.v, name)(*[a.v for a in args], **{k: a.v for k, a in kw.items()})
                    except Exception as e:
                        return [(st, Raised(self.mk_exc(type(e).__name__), ctx.module.name, getattr(node, "lineno", 0)))]
                    if isinstance(r, list):
                        return [(st, st.new(HList([K(x) for x in r])))]
                    if isinstance(r, tuple):
                        return [(st, T("tuple", *[K(x) for x in r]))]
                    try:
                        return [(st, K(r))]
                    except TypeError:
                        pass
            return self.opaque(st, "meth", name, recv, args, kw, ctx, node, pure=True)
        pure = name in PURE_METH
        if name == "update" and isinstance(recv, T) and len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], HDict):
            for k, v in st.heap[args[0].oid].items:
                st.globals[("titem", recv, k)] = v
                self.event(st, "setitem", "[]=", recv, [k, v], {}, ctx, node)
            return [(st, NONE)]
        if name == "setdefault":
            pure = False
        return self.opaque(st, "meth", name, recv, args, kw, ctx, node, pure=pure)

    def fmt_format(self, st, fmt, args, kw):
        import string
        parts = []
        i = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(fmt.v):
                if lit:
                    parts.append(K(lit))
                if fld is None:
                    continue
                if fld == "":
                    v = args[i]
                    i += 1
                elif fld.isdigit():
                    v = args[int(fld)]
                else:
                    v = kw[fld]
                if (spec or conv) and isinstance(v, K) and "{" not in (spec or ""):
                    parts.append(K(("{" + ("!" + conv if conv else "") + (":" + spec if spec else "") + "}").format(v.v)))
                    continue
                parts.append(self.str_of(st, v) if not spec and conv in (None, "s") else T("fmt", K(spec or conv), self.freeze(st, v)))
        except Exception:
            return None
        return self.cat(st, parts) if parts else K("")

    def list_meth(self, st, ref, o, name, args, kw, ctx, node):
        items = list(o.items)
        star = any(isinstance(x, T) and x.op == "star" for x in items)

        def put(new, res=NONE, log=True):
            st.heap[ref.oid] = o.with_(new)
            if log:
                self.event(st, "mut", name, o.name if o.name is not None else ref, args, kw, ctx, node)
            return [(st, res)]
        if name in ("append", "add"):
            if name == "add" and args[0] in items:
                return [(st, NONE)]
            return put(items + [args[0]])
        if name == "popleft" and items and not star:
            return put(items[1:], items[0])
        if name == "popleft" and not items:
            return [(st, Raised(self.mk_exc("IndexError"), ctx.module.name, getattr(node, "lineno", 0)))]
        if name == "appendleft":
            return put([args[0]] + items)
        if name == "count" and not star and all(isinstance(x, K) for x in items + list(args)):
            return [(st, K(items.count(args[0])))]
        if name in ("extend", "update"):
            out = []
            a = args[0]
            if isinstance(a, Ref) and isinstance(st.heap[a.oid], HList):
                return put(items + list(st.heap[a.oid].items))
            it = self.items_of(st, a)
            if it is not None:
                return put(items + list(it))
            if isinstance(a, Ref) and isinstance(st.heap[a.oid], HGen):
                for s, r in self.gen_items(st, a, ctx, node):
                    if isinstance(r, Raised):
                        out.append((s, r))
                    else:
                        s.heap[ref.oid] = s.heap[ref.oid].with_(items + r)
                        out.append((s, NONE))
                return out
            return put(items + [T("star", self.freeze(st, a))])
        if name == "insert" and isinstance(args[0], K):
            i = args[0].v
            if not star or i == 0:
                items.insert(i, args[1])
                return put(items)
        if name == "pop":
            i = args[0].v if args and isinstance(args[0], K) else (-1 if not args else None)
            if i is not None:
                if not items:
                    return [(st, Raised(self.mk_exc("IndexError"), ctx.module.name, node.lineno))]
                seg = items[:i + 1] if i >= 0 else items[i:]
                if not any(isinstance(x, T) and x.op == "star" for x in seg):
                    try:
                        v = items.pop(i)
                    except IndexError:
                        return [(st, Raised(self.mk_exc("IndexError"), ctx.module.name, node.lineno))]
                    return put(items, v)
            return put(items, T("ret", st.uid(), "pop", self.freeze(st, ref)))
        if name == "popleft":
            return self.list_meth(st, ref, o, "pop", [K(0)], {}, ctx, node)
        if name == "clear":
            return put([])
        if name == "copy":
            return [(st, st.new(HList(items, o.kind)))]
        if name == "reverse" and not star:
            return put(items[::-1])
        if name == "index" and not star and args:
            for i, x in enumerate(items):
                if self.eq_atom(st, x, args[0]) is True:
                    return [(st, K(i))]
        if name in ("remove", "discard") and args:
            for i, x in enumerate(items):
                if self.eq_atom(st, x, args[0]) is True:
                    return put(items[:i] + items[i + 1:])
        return self.opaque(st, "meth", name, ref, args, kw, ctx, node, pure=name in PURE_METH)

    def dict_meth(self, st, ref, o, name, args, kw, ctx, node):
        if name == "get":
            return self.dict_get(st, ref, o, args[0], ctx, node, default=args[1] if len(args) > 1 else kw.get("default", NONE))
        if name == "pop":
            fi = self.freeze(st, args[0])
            hit = [(k, x) for k, x in o.items if self.eq_atom(st, k, fi) is True]
            items = tuple((k, x) for k, x in o.items if self.eq_atom(st, k, fi) is not True)
            st.heap[ref.oid] = o.with_(items=items, removed=o.removed + (fi,))
            self.event(st, "mut", "pop", o.name if o.open else ref, args, kw, ctx, node)
            if hit:
                return [(st, hit[0][1])]
            if o.open:
                return [(st, T("dget", o.name, fi, self.freeze(st, args[1]) if len(args) > 1 else K("<none>")))]
            if len(args) > 1:
                return [(st, args[1])]
            return [(st, Raised(self.mk_exc("KeyError"), ctx.module.name, node.lineno))]
        if name == "update":
            items = dict(o.items)
            if args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], HDict):
                for k, v in st.heap[args[0].oid].items:
                    items[k] = v
            for k, v in kw.items():
                items[K(k)] = v
            st.heap[ref.oid] = o.with_(items=tuple(items.items()))
            self.event(st, "mut", "update", o.name if o.open else ref, args, kw, ctx, node)
            return [(st, NONE)]
        if name == "setdefault":
            fi = self.freeze(st, args[0])
            for k, x in o.items:
                if self.eq_atom(st, k, fi) is True:
                    return [(st, x)]
            if not o.open:
                v = args[1] if len(args) > 1 else NONE
                st.heap[ref.oid] = o.with_(items=o.items + ((fi, v),))
                return [(st, v)]
            out = []
            s2 = st.copy()
            a = T("in", fi, o.name)
            if s2.assume(a, True):
                out.extend(self.dict_get(s2, ref, s2.heap[ref.oid], fi, ctx, node))
            if st.assume(a, False):
                v = args[1] if len(args) > 1 else NONE
                st.heap[ref.oid] = o.with_(items=o.items + ((fi, v),))
                out.append((st, v))
            return out
        if name == "clear":
            st.heap[ref.oid] = HDict(())
            self.event(st, "mut", "clear", o.name if o.open else ref, args, kw, ctx, node)
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.new(o.with_()))]
        if name in ("items", "keys", "values"):
            if not o.open:
                if name == "items":
                    return [(st, T("tuple", *[T("tuple", k, v) for k, v in o.items]))]
                return [(st, T("tuple", *[(k if name == "keys" else v) for k, v in o.items]))]
            r = T("meth", name, o.name)
            if name == "values" and o.elem is not None:
                st.globals[("delem", o.name)] = o.elem
            if o.items and name == "values":
                return [(st, st.new(HList([v for _, v in o.items] + [T("star", r)])))]
            return [(st, r)]
        return None

    def xml(self, st, tag, attrib=None, text=NONE, children=()):
        """a known XML tree (helper for rules)"""
        d = st.new(HDict([(K(k), v) for k, v in (attrib or {}).items()]))
        return st.new(HXml(K(tag) if isinstance(tag, str) else tag, d, text, tuple(children)))

    def xml_select(self, st, ref, path, ns=None):
        """elements an ElementTree path selects in a fully known tree, in document order; None if not decidable"""
        import re

        def kids(r):
            cs = st.heap[r.oid].children
            for c in cs:
                if not (isinstance(c, Ref) and isinstance(st.heap.get(c.oid), HXml) and isinstance(st.heap[c.oid].tag, K)):
                    return None
            return cs

        def desc(r):
            out = []
            cs = kids(r)
            if cs is None:
                return None
            for c in cs:
                d = desc(c)
                if d is None:
                    return None
                out += [c] + d
            return out
        toks = re.findall(r"//|/|\[[^\]]*\]|(?:\{[^}]*\})?[^/\[\]]+", path)
        cur, deep = [ref], False
        for t in toks:
            if t == "/":
                continue
            if t == "//":
                deep = True
                continue
            if t == ".":
                continue
            if t.startswith("["):
                m = re.fullmatch(r"\[@([^=]+)=(['\"])(.*)\2\]", t)
                if not m:
                    return None
                nxt = []
                for r in cur:
                    ad = st.heap[r.oid].attrib
                    its = st.heap[ad.oid].items if isinstance(ad, Ref) else ()
                    vals = [v for k, v in its if k == K(m.group(1))]
                    if vals and not isinstance(vals[-1], K):
                        return None
                    if vals and vals[-1] == K(m.group(3)):
                        nxt.append(r)
                cur = nxt
                continue
            m = re.fullmatch(r"(\w+):(.+)", t)
            if m and not t.startswith("{"):
                if not ns or m.group(1) not in ns:
                    return None
                t = "{%s}%s" % (ns[m.group(1)], m.group(2))
            nxt = []
            for r in cur:
                cs = desc(r) if deep else kids(r)
                if cs is None:
                    return None
                nxt += [c for c in cs if t == "*" or st.heap[c.oid].tag.v == t]
            cur, deep = nxt, False
        return cur

    def xml_meth(self, st, ref, o, name, args, kw, ctx, node):
        if name in ("find", "findall", "findtext", "iterfind") and args and isinstance(args[0], K) and isinstance(args[0].v, str):
            nsv = args[1] if len(args) > 1 and name != "findtext" else args[2] if len(args) > 2 else kw.get("namespaces", NONE)
            ns = {}
            if isinstance(nsv, Ref) and isinstance(st.heap[nsv.oid], HDict) and not st.heap[nsv.oid].open:
                ns = {k.v: v.v for k, v in st.heap[nsv.oid].items if isinstance(k, K) and isinstance(v, K)}
            sel = self.xml_select(st, ref, args[0].v, ns)
            if sel is not None:
                if name == "find":
                    return [(st, sel[0] if sel else NONE)]
                if name == "findtext":
                    t = st.heap[sel[0].oid].text if sel else (args[1] if len(args) > 1 else kw.get("default", NONE))
                    return [(st, K("") if sel and t == NONE else t)]
                return [(st, st.new(HList(list(sel))))]
        if name == "append":
            st.heap[ref.oid] = o.with_(children=o.children + (args[0],))
            return [(st, NONE)]
        if name == "extend":
            it = self.items_of(st, args[0])
            if it is not None:
                st.heap[ref.oid] = o.with_(children=o.children + tuple(it))
                return [(st, NONE)]
        if name == "insert" and isinstance(args[0], K):
            l = list(o.children)
            l.insert(args[0].v, args[1])
            st.heap[ref.oid] = o.with_(children=l)
            return [(st, NONE)]
        if name == "set":
            return [(s, r if isinstance(r, Raised) else NONE) for s, r in self.set_item(st, o.attrib, args[0], args[1], ctx, node)]
        if name == "get":
            d = st.heap[o.attrib.oid]
            return self.dict_get(st, o.attrib, d, args[0], ctx, node, default=args[1] if len(args) > 1 else NONE)
        return None

    # ------------------------------------------------------------------ builtins
    def bi_len(self, st, a, kw, ctx, node):
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HInst) and isinstance(st.heap[v.oid].cls, Class):
            m = self.p.find_member(st.heap[v.oid].cls, "__len__")
            if m:
                return self.call_func(st, FnV(m[1], v, None, None), [], {}, ctx, node)
        r = self.len_of(st, v)
        self.mark_num(r)
        return [(st, r)]

    def bi_vars(self, st, a, kw, ctx, node):
        if len(a) == 1 and isinstance(a[0], Ref) and isinstance(st.heap[a[0].oid], HInst):
            return self.inst_attr(st, a[0], st.heap[a[0].oid], "__dict__", ctx, node)
        return [(st, T("fn", "vars", *[self.freeze(st, x) for x in a]))]

    def bi_str(self, st, a, kw, ctx, node):
        if not a:
            return [(st, K(""))]
        if isinstance(a[0], Ref) and isinstance(st.heap[a[0].oid], HInst) and isinstance(st.heap[a[0].oid].cls, Class):
            m = self.p.find_member(st.heap[a[0].oid].cls, "__str__")
            if m and m[0] == "method" and not st.heap[a[0].oid].sym:
                return self.call_func(st, FnV(m[1], a[0], None, None), [], {}, ctx, node)
        return [(st, self.str_of(st, a[0]))]

    def bi_int(self, st, a, kw, ctx, node):
        if a and isinstance(a[0], K):
            try:
                return [(st, K(int(*[x.v for x in a])))]
            except Exception as e:
                return [(st, Raised(self.mk_exc(type(e).__name__), ctx.module.name, getattr(node, "lineno", 0)))]
        out = self.opaque(st, "ext", "builtins.int", None, a, kw, ctx, node, pure=True)
        self.mark_num(out[-1][1])
        return out

    def bi_bool(self, st, a, kw, ctx, node):
        if not a:
            return [(st, FALSE)]
        return [(st, self.bval(self.truth_atom(st, a[0])))]

    def bi_isinstance(self, st, a, kw, ctx, node):
        return [(st, self.bval(self.isinst(st, a[0], a[1])))]

    def isinst(self, st, v, c):
        cs = list(c.args) if isinstance(c, T) and c.op == "tuple" else [c]
        names = []
        for x in cs:
            if isinstance(x, ClsV):
                names.append(x.cls.qual)
            elif isinstance(x, Ext):
                n = x.name[9:] if x.name.startswith("builtins.") else x.name
                names.append({"types.GeneratorType": "generator"}.get(n, n))
            elif isinstance(x, T) and x.op == "fn" and x.args[0] == "builtins.type":
                names.append("NoneType")
            else:
                names.append(repr(x))
        names = tuple(sorted(set(names)))
        if isinstance(v, K):
            from .state import _ktype
            return any(_ktype(v.v, n) for n in names)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HInst) and isinstance(o.cls, Class):
                anc = {b.qual if isinstance(b, Class) else b for b in self.p.mro(o.cls)}
                for n in names:
                    if n in anc:
                        return True
                if not o.sym:
                    return False
                # symbolic instance of a declared type: subclasses possible
                for n in names:
                    try:
                        c2 = self.p.cls(n) if "." in n else None
                    except AnalysisError:
                        c2 = None
                    if c2 is not None and o.cls in self.p.mro(c2):
                        return T("isinst", o.name, names)
                return False
            if isinstance(o, HList):
                return o.kind in names
            if isinstance(o, HDict):
                return "dict" in names
            if isinstance(o, HXml):
                return "ET.Element" in names
            if isinstance(o, HGen):
                return "generator" in names or "collections.abc.Iterator" in names or "typing.Iterator" in names
        if isinstance(v, (FnV, ClsV)):
            return any(n in ("type", "types.FunctionType") for n in names) and isinstance(v, ClsV)
        if isinstance(v, T):
            if v.op == "tuple":
                return "tuple" in names
            if v.op == "pyobj":  # a value of a known class of the standard library
                return v.args[0] in names
            if v.op == "exc":
                return any(self._excname(n) in self.exc_ancestors(st, v) for n in names)
            k = self.kind(v)
            if k in ("str", "bytes", "bool"):
                return k in names or (k == "bool" and "int" in names)
            if v.op in ("len",):
                return "int" in names
            if v.op == "regex":
                return False
            made = v.args[1] if v.op == "ret" and len(v.args) > 1 else None
            if isinstance(made, str) and made in names and made.rsplit(".", 1)[-1][:1].isupper():
                return True
        return T("isinst", v, names)

    def bi_issubclass(self, st, a, kw, ctx, node):
        if isinstance(a[0], ClsV):
            cs = list(a[1].args) if isinstance(a[1], T) and a[1].op == "tuple" else [a[1]]
            anc = self.p.mro(a[0].cls)
            if all(isinstance(c, (ClsV, Ext)) for c in cs):
                return [(st, K(any((c.cls in anc) if isinstance(c, ClsV) else (c.name.replace("builtins.", "") in anc) for c in cs)))]
        return None

    def bi_hasattr(self, st, a, kw, ctx, node):
        if isinstance(a[0], Ref) and isinstance(a[1], K) and isinstance(st.heap[a[0].oid], HInst):
            o = st.heap[a[0].oid]
            if a[1].v in o.attrs or (isinstance(o.cls, Class) and self.p.find_member(o.cls, a[1].v)) or (o.ctor and a[1].v in o.ctor):
                return [(st, TRUE)]
            if not o.sym and isinstance(o.cls, Class) and o.ctor is None:
                return [(st, FALSE)]
        return None

    def bi_getattr(self, st, a, kw, ctx, node):
        if len(a) >= 2 and isinstance(a[1], K):
            outs = []
            for s, v in self.attr(st, a[0], a[1].v, ctx, node):
                if isinstance(v, Raised) and len(a) > 2 and self.exc_name(s, v) == "AttributeError":
                    v = a[2]
                outs.append((s, v))
            return outs
        if len(a) >= 2 and isinstance(a[1], T) and isinstance(a[0], (ClsV, Ref)):
            return [(st, T("attr_dyn", self.freeze(st, a[0]), a[1]))]
        return None

    def bi_setattr(self, st, a, kw, ctx, node):
        if len(a) == 3 and isinstance(a[1], K):
            return [(s, r if isinstance(r, Raised) else NONE) for s, r in self.set_attr(st, a[0], a[1].v, a[2], ctx, node)]
        self.event(st, "set", "<dynamic>", a[0], a[1:], {}, ctx, node)
        return [(st, NONE)]

    def bi_range(self, st, a, kw, ctx, node):
        if len(a) == 1:
            lo, hi, stp = K(0), a[0], K(1)
        elif len(a) == 2:
            lo, hi, stp = a[0], a[1], K(1)
        else:
            lo, hi, stp = a[:3]
        if all(isinstance(x, K) for x in (lo, hi, stp)):
            r = range(lo.v, hi.v, stp.v)
            if len(r) <= 600:
                if len(r) > 12 and getattr(self.cfg, "short_ranges", True):
                    # long constant ranges: first, second and last element represent the progression
                    self.cut += 1
                    return [(st, T("constrange", lo, hi, stp))]
                return [(st, T("tuple", *[K(i) for i in r]))]
        self.mark_num(lo, hi, stp)
        return [(st, T("range", lo, hi, stp))]

    def bi_enumerate(self, st, a, kw, ctx, node):
        start = a[1] if len(a) > 1 else kw.get("start", K(0))
        it = self.items_of(st, a[0])
        if it is not None and isinstance(start, K):
            return [(st, T("tuple", *[T("tuple", K(i + start.v), x) for i, x in enumerate(it)]))]
        return [(st, T("enum", self.freeze(st, a[0]) if not (isinstance(a[0], Ref)) else a[0], start.v if isinstance(start, K) else 0))]

    def bi_zip(self, st, a, kw, ctx, node):
        its = [self.items_of(st, x) for x in a]
        if all(i is not None for i in its) and its:
            return [(st, T("tuple", *[T("tuple", *x) for x in zip(*its)]))]
        if not a or all(self.endless(st, x) for x in a) or not any(i is not None or self.endless(st, x) for i, x in zip(its, a)):
            return None
        cur = [(st, [])]
        for x in a:
            nxt = []
            for s, rows in cur:
                if isinstance(rows, Raised) or self.endless(s, x):
                    nxt.append((s, rows if isinstance(rows, Raised) else rows + [None]))
                else:
                    nxt.extend((s1, el if isinstance(el, Raised) else rows + [el]) for s1, el in self.iterate(s, x, ctx, node))
            cur = nxt
        out = []
        for s, rows in cur:
            if isinstance(rows, Raised):
                out.append((s, rows))
                continue
            n = min(len(r) for r in rows if r is not None)
            res = []
            for i in range(n):
                res.append(T("tuple", *[self.endless_next(s, x, ctx, node) if r is None else r[i] for x, r in zip(a, rows)]))
            out.append((s, T("tuple", *res)))
        return out

    def bi_reversed(self, st, a, kw, ctx, node):
        it = self.items_of(st, a[0])
        if it is not None:
            return [(st, T("tuple", *reversed(it)))]
        return None

    def _to_list(self, st, a, kind, ctx, node):
        if not a:
            return [(st, st.new(HList((), kind)) if kind != "tuple" else T("tuple"))]
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HGen):
            return [(s, r if isinstance(r, Raised) else (s.new(HList(r, kind)) if kind != "tuple" else T("tuple", *r))) for s, r in self.gen_items(st, v, ctx, node)]
        if self.drained(st, v):
            return [(s, r if isinstance(r, Raised) else (s.new(HList(r, kind)) if kind != "tuple" else T("tuple", *r))) for s, r in self.iterate(st, v, ctx, node)]
        it = self.seq_items(st, v)
        if it is None:
            it = self.items_of(st, v)
        if it is None:
            if isinstance(v, Ref) and isinstance(st.heap[v.oid], HDict):
                o = st.heap[v.oid]
                it = tuple(k for k, _ in o.items) + (T("star", o.name),)
            else:
                it = (T("star", self.freeze(st, v)),)
        return [(st, st.new(HList(it, kind)) if kind != "tuple" else T("tuple", *it))]

    def bi_list(self, st, a, kw, ctx, node):
        return self._to_list(st, a, "list", ctx, node)

    def bi_tuple(self, st, a, kw, ctx, node):
        return self._to_list(st, a, "tuple", ctx, node)

    def bi_set(self, st, a, kw, ctx, node):
        return self._to_list(st, a, "set", ctx, node)

    bi_frozenset = bi_set

    def bi_object(self, st, a, kw, ctx, node):
        return [(st, st.new(HList([], "object")))]

    def bi_sorted(self, st, a, kw, ctx, node):
        it = self.items_of(st, a[0])
        if it is None or set(kw) - {"key", "reverse"} or not isinstance(kw.get("reverse", FALSE), K):
            return None
        keys = []
        for x in it:
            if kw.get("key", NONE) != NONE:
                r = self.call(st.copy(), kw["key"], [x], {}, ctx, node)
                if len(r) != 1 or isinstance(r[0][1], Raised):
                    return None
                x = r[0][1]
            if isinstance(x, T) and x.op == "tuple" and x.args and isinstance(x.args[0], K):
                x = x.args[0]
                if x in keys:
                    return None
            if not isinstance(x, K):
                return None
            keys.append(x)
        try:
            order = sorted(range(len(it)), key=lambda i: keys[i].v, reverse=bool(kw.get("reverse", FALSE).v))
        except TypeError:
            return None
        return [(st, st.new(HList([it[i] for i in order])))]

    def bi_dict(self, st, a, kw, ctx, node):
        items, op = [], None
        if a:
            v = a[0]
            o = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if isinstance(o, HDict):
                items, op = list(o.items), (o.name if o.open else None)
            else:
                it = self.items_of(st, v)
                prs = [self.items_of(st, x) for x in it] if it is not None else None
                if prs is not None and all(p is not None and len(p) == 2 for p in prs):
                    items = [tuple(p) for p in prs]
                else:
                    op = self.freeze(st, v)
        d = dict(items)
        for k, v in kw.items():
            if k == "**":
                op = v
            else:
                d[K(k)] = v
        return [(st, st.new(HDict(tuple(d.items()), open=op is not None, name=op)))]

    def bi_next(self, st, a, kw, ctx, node):
        v = a[0]
        if self.endless(st, v):
            return [(st, self.endless_next(st, v, ctx, node))]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HInst) and isinstance(st.heap[v.oid].cls, Class):
            m = self.p.find_member(st.heap[v.oid].cls, "__next__")
            if m:
                out = []
                for s, r in self.call_func(st, FnV(m[1], v, None, None), [], {}, ctx, node):
                    out.append((s, a[1] if len(a) > 1 and isinstance(r, Raised) and self.exc_name(s, r) == "StopIteration" else r))
                return out
        stop = lambda s: (s, a[1] if len(a) > 1 else Raised(self.mk_exc("StopIteration"), ctx.module.name, getattr(node, "lineno", 0)))
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HGen):
            o = st.heap[v.oid]
            if o.items is None:
                out = []
                for s, r in self.gen_items(st, v, ctx, node):
                    if isinstance(r, Raised):
                        out.append((s, r))
                        continue
                    s.heap[v.oid] = HGen(o.func, o.fid, tuple(r), 0)
                    out.extend(self.bi_next(s, a, kw, ctx, node))
                return out
            if o.pos < len(o.items):
                st.heap[v.oid] = HGen(o.func, o.fid, o.items, o.pos + 1)
                return [(st, o.items[o.pos])]
            return [stop(st)]
        fz = self.freeze(st, v)
        if isinstance(fz, T) and fz.op == "iterv":
            fz = fz.args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HList) and self.items_of(st, v) is not None:
            # a generator expression, whose position is its own
            o = st.heap[v.oid]
            n = st.globals.get(("nextat", v.oid), 0)
            if n >= len(o.items):
                return [stop(st)]
            st.globals["nextat", v.oid] = n + 1
            return [(st, o.items[n])]
        key = ("next", fz)
        items = self.items_of(st, fz) if isinstance(fz, T) else None
        n = st.globals.get(key, 0)
        if st.globals.get(("nextdone", fz)):
            return [stop(st)]
        if items is not None:
            if n < len(items):
                st.globals[key] = n + 1
                return [(st, items[n])]
            return [stop(st)]
        out = []
        limit = max(self.cfg.iters)
        s2 = st.copy()
        s2.globals[("nextdone", fz)] = True
        if n < limit:
            st.globals[key] = n + 1
            out.append((st, T("elem", fz, n)))
        else:
            self.cut += 1
        out.append(stop(s2))
        return out

    def bi_iter(self, st, a, kw, ctx, node):
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HGen):
            return [(st, v)]
        if len(a) == 1:
            it = self.seq_items(st, v)
            if it is None:
                it = self.items_of(st, v)
            if it is not None and not any(isinstance(x, T) and x.op == "star" for x in it):
                return [(st, st.new(HGen(None, None, tuple(it), 0)))]
            if self.not_iterable(st, v):
                return [(st, Raised(self.mk_exc("TypeError"), ctx.module.name, getattr(node, "lineno", 0)))]
            return [(st, T("iterv", self.freeze(st, v)))]
        if len(a) == 2:
            return [(st, st.new(HCallIter(v, a[1])))]
        return None

    def bi_type(self, st, a, kw, ctx, node):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Ref) and isinstance(st.heap[v.oid], HInst) and isinstance(st.heap[v.oid].cls, Class) and not st.heap[v.oid].sym:
                return [(st, ClsV(st.heap[v.oid].cls))]
            if isinstance(v, K) and v.v is not None:
                return [(st, Ext("builtins." + type(v.v).__name__))]
            if isinstance(v, Ref):
                o = st.heap[v.oid]
                if isinstance(o, HList):
                    return [(st, Ext("builtins." + o.kind))]
                if isinstance(o, HDict) and not o.open:
                    return [(st, Ext("builtins.dict"))]
                if isinstance(o, HXml):
                    return [(st, Ext("ET.Element"))]
            if isinstance(v, T) and v.op == "tuple":
                return [(st, Ext("builtins.tuple"))]
            if isinstance(v, T) and v.op == "exc" and isinstance(v.args[0], str) and hasattr(builtins, v.args[0]):
                return [(st, Ext("builtins." + v.args[0]))]
            if isinstance(v, T) and v.op == "pyobj":
                return [(st, Ext(v.args[0] if "." in v.args[0] else "builtins." + v.args[0]))]
            if isinstance(v, T) and self.kind(v) in ("str", "bytes"):
                return [(st, Ext("builtins." + self.kind(v)))]
        return None

    def bi_ord(self, st, a, kw, ctx, node):
        return self._const_call(st, ord, a, kw, ctx, node)

    def bi_chr(self, st, a, kw, ctx, node):
        return self._const_call(st, chr, a, kw, ctx, node)

    def _const_call(self, st, f, a, kw, ctx, node):
        if kw or not a or not all(isinstance(x, K) for x in a):
            return None
        try:
            return [(st, K(f(*[x.v for x in a])))]
        except Exception as e:
            return [(st, Raised(self.mk_exc(type(e).__name__), ctx.module.name, getattr(node, "lineno", 0)))]

    def bi_min(self, st, a, kw, ctx, node):
        return self._minmax(st, a, kw, "min")

    def bi_max(self, st, a, kw, ctx, node):
        return self._minmax(st, a, kw, "max")

    def _minmax(self, st, a, kw, which):
        if kw.get("key", NONE) != NONE and set(kw) <= {"key"} and a:
            its = self.items_of(st, a[0]) if len(a) == 1 else a
            keys = []
            for x in its or ():
                r = self.call(st.copy(), kw["key"], [x], {}, Ctx(None, None, self.prelude), None)
                if len(r) != 1 or not isinstance(r[0][1], K):
                    return None
                keys.append(r[0][1].v)
            if keys:
                try:
                    i = (min if which == "min" else max)(range(len(keys)), key=keys.__getitem__)
                except TypeError:
                    return None
                return [(st, its[i])]
        if len(a) == 2 and not kw:
            x, y = self.freeze(st, a[0]), self.freeze(st, a[1])
            if isinstance(x, K) and isinstance(y, K):
                return [(st, K(min(x.v, y.v) if which == "min" else max(x.v, y.v)))]
            if lin_of(x) is not None and lin_of(y) is not None:
                self.mark_num(x, y)
                out = []
                for s, b in self.fork_atom(st, self.pos_atom(mk_lin(*lin_add(lin_of(y), lin_of(x), -1)))):  # y > x
                    out.append((s, (x if b else y) if which == "min" else (y if b else x)))
                return out
        return None

    def re_flags(self, v):
        n = v.v if isinstance(v, K) else getattr(re, v.name[3:], None) if isinstance(v, Ext) and v.name.startswith("re.") else None
        return int(n) if isinstance(n, int) else None

    def re_known(self, st, name, args, kw):
        """a known pattern applied to a known text"""
        if kw or len(args) != 2:
            return None
        pat, text = args
        flags = 0
        if isinstance(pat, T) and pat.op == "regex":
            flags = self.re_flags(pat.args[1]) if len(pat.args) > 1 else 0
            if flags is None or len(pat.args) > 2:
                return None
            pat = pat.args[0]
        if not (isinstance(pat, K) and isinstance(text, K) and isinstance(text.v, (str, bytes)) and type(pat.v) is type(text.v)):
            return None
        tok = lambda m: NONE if m is None else T("rematch", K(m.group(0)), tuple(m.groups()), K(m.start()), K(m.end()))
        try:
            rx = re.compile(pat.v, flags)
            r = getattr(rx, name)(text.v)
        except Exception:
            return None
        if name == "split":
            return [(st, st.new(HList([K(x) for x in r])))]
        if name == "findall":
            return [(st, st.new(HList([T("tuple", *[K(y) for y in x]) if isinstance(x, tuple) else K(x) for x in r])))]
        if name == "finditer":
            return [(st, T("tuple", *[tok(m) for m in r]))]
        return [(st, tok(r))]

    def bi_filter(self, st, a, kw, ctx, node):
        it = self.items_of(st, a[1]) if len(a) == 2 else None
        if it is None:
            return None
        cur = [(st, [])]
        for x in it:
            nxt = []
            for s, keep in cur:
                for s1, v in ([(s, x)] if a[0] == NONE else self.call(s, a[0], [x], {}, ctx, node)):
                    if isinstance(keep, Raised) or isinstance(v, Raised):
                        nxt.append((s1, keep if isinstance(keep, Raised) else v))
                        continue
                    for s2, b in self.truth(s1, v):
                        nxt.append((s2, keep + [x] if b else keep))
            cur = nxt
        return [(s, k if isinstance(k, Raised) else T("tuple", *k)) for s, k in cur]

    def bi_any(self, st, a, kw, ctx, node, want=True):
        it = self.items_of(st, a[0])
        if it is None:
            return None
        cur, out = [st], []
        for x in it:
            nxt = []
            for s in cur:
                for s2, b in self.truth(s, x):
                    (out.append((s2, K(want))) if b == want else nxt.append(s2))
            cur = nxt
        return out + [(s, K(not want)) for s in cur]

    def bi_all(self, st, a, kw, ctx, node):
        return self.bi_any(st, a, kw, ctx, node, want=False)

    def bi_callable(self, st, a, kw, ctx, node):
        if isinstance(a[0], (FnV, ClsV, Meth, PartialV)):
            return [(st, TRUE)]
        if isinstance(a[0], K):
            return [(st, FALSE)]
        return None

    def bi_bytes(self, st, a, kw, ctx, node):
        if not a:
            return [(st, K(b""))]
        return None

    def bi_bytearray(self, st, a, kw, ctx, node):
        if not a:
            return [(st, K(b""))]
        return None

    def bi_print(self, st, a, kw, ctx, node):
        self.event(st, "log", "print", None, a, kw, ctx, node)
        return [(st, NONE)]

    def bi_sum(self, st, a, kw, ctx, node):
        it = self.items_of(st, a[0])
        if it is not None:
            cur = a[1] if len(a) > 1 else K(0)
            for x in it:
                cur = self.binop(st, ast.Add(), cur, x, ctx, node)
            return [(st, cur)]
        return None

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        """-> [(st, sig)]; sig None | ('return', v) | ('raise', Raised) | ('break',) | ('continue',)"""
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in cur:
                for s2, sig in self.stmt(s, x, ctx):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, sig))
            cur = nxt
            if len(cur) > self.cfg.max_paths:
                self.truncated += len(cur) - self.cfg.max_paths
                cur = cur[: self.cfg.max_paths]
            if not cur:
                break
        return out + [(x, None) for x in cur]

    def stmt(self, n, st, ctx):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            return [(st, None)]
        return m(n, st, ctx)

    def st_Expr(self, n, st, ctx):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, ("raise", v) if isinstance(v, Raised) else None) for s, v in self.ev(n.value, st, ctx)]

    def st_Pass(self, n, st, ctx):
        return [(st, None)]

    def st_Break(self, n, st, ctx):
        return [(st, ("break",))]

    def st_Continue(self, n, st, ctx):
        return [(st, ("continue",))]

    def st_Return(self, n, st, ctx):
        if n.value is None:
            return [(st, ("return", NONE))]
        return [(s, ("raise", v) if isinstance(v, Raised) else ("return", v)) for s, v in self.ev(n.value, st, ctx)]

    def st_Nonlocal(self, n, st, ctx):
        fr = st.frames[ctx.fid]
        st.frames[ctx.fid] = {**fr, "__nonlocal__": tuple(fr.get("__nonlocal__", ())) + tuple(n.names)}
        return [(st, None)]

    def st_Global(self, n, st, ctx):
        return [(st, None)]

    def st_Import(self, n, st, ctx):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            dotted = a.name if a.asname else a.name.split(".")[0]
            m = self.p.module(dotted)
            self.bind(st, ctx, nm, ModV(m) if m else Ext(self.norm_ext(dotted)))
        return [(st, None)]

    def st_ImportFrom(self, n, st, ctx):
        base = n.module or ""
        if n.level:
            base = "pypsrp" + ("." + base if base else "")
        for a in n.names:
            sub = self.p.module(base + "." + a.name)
            m = self.p.module(base)
            if sub:
                v = ModV(sub)
            elif m:
                st, v = self.global_name(st, m, a.name)
            else:
                d = base + "." + a.name
                v = Ext(self.norm_ext(ALIASES.get(d, d)))
            self.bind(st, ctx, a.asname or a.name, v)
        return [(st, None)]

    def st_FunctionDef(self, n, st, ctx):
        f = self.lambda_func(n, ctx)
        fid = self.closure(n, st, ctx)
        fv = FnV(f, None, fid, None)
        if f.wrapped:
            w = self.decorated(st, fv, ctx, n)
            if w is not None:
                out = []
                for s, v in w:
                    if isinstance(v, Raised):
                        out.append((s, ("raise", v)))
                    else:
                        self.bind(s, ctx, n.name, v)
                        out.append((s, None))
                return out
            fv = FnV(self.plain(f), None, fid, None)
        if f.prop:
            fv = PropV(fv, NONE)
        elif f.setter_of:
            old = self.ev(ast.Name(f.setter_of, ast.Load()), st, ctx)[0][1]
            if isinstance(old, PropV):
                fv = PropV(old.k[0], fv)
        self.bind(st, ctx, n.name, fv)
        return [(st, None)]

    def st_ClassDef(self, n, st, ctx):
        cache = self.__dict__.setdefault("_cls", {})
        c = cache.get(id(n))
        if c is None:
            c = cache[id(n)] = Class(ctx.module, n)
            if ctx.func is not None:
                c.qual = "%s.%s" % (ctx.func.qual, n.name)
        self.bind(st, ctx, n.name, ClsV(c))
        return [(st, None)]

    def st_Assert(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.test, st, ctx):
            if isinstance(v, Raised):
                out.append((s, ("raise", v)))
                continue
            for s2, b in self.truth(s, v):
                out.append((s2, None if b else ("raise", Raised(self.mk_exc("AssertionError"), ctx.module.name, n.lineno))))
        return out

    def st_Delete(self, n, st, ctx):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                if isinstance(t, ast.Subscript):
                    for s2, vs in self.evs([t.value, t.slice], s, ctx) if not isinstance(t.slice, ast.Slice) else [(s, None)]:
                        if isinstance(vs, Raised):
                            nxt.append((s2, ("raise", vs)))
                            continue
                        if vs is None:
                            nxt.append((s2, None))
                            continue
                        c, i = vs
                        if isinstance(c, Ref) and isinstance(s2.heap[c.oid], HDict):
                            o = s2.heap[c.oid]
                            fi = self.freeze(s2, i)
                            if not o.open and not any(self.eq_atom(s2, k, fi) is not False for k, _ in o.items):
                                nxt.append((s2, ("raise", Raised(self.mk_exc("KeyError"), ctx.module.name, n.lineno))))
                                continue
                            s2.heap[c.oid] = o.with_(items=tuple((k, x) for k, x in o.items if self.eq_atom(s2, k, fi) is not True), removed=o.removed + (fi,))
                            self.event(s2, "delitem", "del", o.name if o.open else c, [i], {}, ctx, n)
                        elif isinstance(c, Ref) and isinstance(s2.heap[c.oid], HList):
                            for s3, r in self.list_meth(s2, c, s2.heap[c.oid], "pop", [i], {}, ctx, n):
                                nxt.append((s3, ("raise", r) if isinstance(r, Raised) else None))
                            continue
                        else:
                            self.event(s2, "delitem", "del", c, [i], {}, ctx, n)
                        nxt.append((s2, None))
                elif isinstance(t, ast.Attribute):
                    for s2, v in self.ev(t.value, s, ctx):
                        if isinstance(v, Raised):
                            nxt.append((s2, ("raise", v)))
                            continue
                        self.event(s2, "delattr", t.attr, v, [], {}, ctx, n)
                        nxt.append((s2, None))
                else:
                    if isinstance(t, ast.Name) and ctx.fid is not None:
                        fr = dict(s.frames[ctx.fid])
                        fr.pop(t.id, None)
                        s.frames[ctx.fid] = fr
                    nxt.append((s, None))
            cur = nxt
        return cur

    def assign(self, st, target, val, ctx):
        """-> [(st, None | Raised)]"""
        if isinstance(target, ast.Name):
            self.bind(st, ctx, target.id, val)
            return [(st, None)]
        if isinstance(target, ast.Attribute):
            out = []
            for s, v in self.ev(target.value, st, ctx):
                if isinstance(v, Raised):
                    out.append((s, v))
                else:
                    out.extend(self.set_attr(s, v, target.attr, val, ctx, target))
            return out
        if isinstance(target, ast.Subscript):
            if isinstance(target.slice, ast.Slice):
                return [(st, None)]
            out = []
            for s, vs in self.evs([target.value, target.slice], st, ctx):
                if isinstance(vs, Raised):
                    out.append((s, vs))
                else:
                    out.extend(self.set_item(s, vs[0], vs[1], val, ctx, target))
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            items = self.items_of(st, val)
            n = len(target.elts)
            if any(isinstance(e, ast.Starred) for e in target.elts):
                k = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)][0]
                if items is not None and len(items) >= n - 1:
                    vals = list(items[:k]) + [st.new(HList(items[k:len(items) - (n - 1 - k)]))] + list(items[len(items) - (n - 1 - k):])
                else:
                    fz = self.freeze(st, val)
                    vals = [T("item", fz, K(i)) if i < k else (st.new(HList((T("star", self.mk_slice(st, fz, K(k), NONE)),))) if i == k else T("item", fz, K(i - n))) for i in range(n)]
            elif items is not None and len(items) == n:
                vals = list(items)
            elif items is not None:
                return [(st, Raised(self.mk_exc("ValueError", K("unpack")), ctx.module.name, target.lineno))]
            else:
                fz = self.freeze(st, val)
                vals = []
                for i in range(n):
                    r = self.get_item(st, fz, K(i), ctx, target)
                    vals.append(r[0][1])
            cur = [(st, None)]
            for e, v in zip(target.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                nxt = []
                for s, sig in cur:
                    nxt.extend(self.assign(s, e, v, ctx) if sig is None else [(s, sig)])
                cur = nxt
            return cur
        return [(st, None)]

    def st_Assign(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Raised):
                out.append((s, ("raise", v)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, sig in cur:
                    if sig is not None:
                        nxt.append((s2, sig))
                    else:
                        nxt.extend((s3, ("raise", r) if r is not None else None) for s3, r in self.assign(s2, t, v, ctx))
                cur = nxt
            out.extend(cur)
        return out

    def st_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [(st, None)]
        return self.st_Assign(ast.Assign([n.target], n.value, lineno=n.lineno), st, ctx)

    def st_AugAssign(self, n, st, ctx):
        load = ast.copy_location(_as_load(n.target), n)
        out = []
        for s, vs in self.evs([load, n.value], st, ctx):
            if isinstance(vs, Raised):
                out.append((s, ("raise", vs)))
                continue
            a, b = vs
            if isinstance(n.op, ast.Add) and isinstance(a, Ref) and isinstance(s.heap[a.oid], HList):
                for s2, r in self.list_meth(s, a, s.heap[a.oid], "extend", [b], {}, ctx, n):
                    out.append((s2, ("raise", r) if isinstance(r, Raised) else None))
                continue
            r = self.binop(s, n.op, a, b, ctx, n)
            if isinstance(r, Raised):
                out.append((s, ("raise", r)))
                continue
            out.extend((s2, ("raise", x) if x is not None else None) for s2, x in self.assign(s, n.target, r, ctx))
        return out

    def st_If(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.test, st, ctx):
            if isinstance(v, Raised):
                out.append((s, ("raise", v)))
                continue
            for s2, b in self.truth(s, v):
                out.extend(self.block(n.body if b else n.orelse, s2, ctx))
        return out

    def st_While(self, n, st, ctx):
        out = []
        cur = [st]
        for k in range(self.cfg.while_max + 1):
            nxt = []
            for s in cur:
                for s1, v in self.ev(n.test, s, ctx):
                    if isinstance(v, Raised):
                        out.append((s1, ("raise", v)))
                        continue
                    for s2, b in self.truth(s1, v):
                        if not b:
                            out.extend(self.block(n.orelse, s2, ctx) if n.orelse else [(s2, None)])
                            continue
                        if k == self.cfg.while_max:
                            self.cut += 1
                            s2.marks = s2.marks + ("cut",)
                            continue
                        for s3, sig in self.block(n.body, s2, ctx):
                            if sig is None or sig[0] == "continue":
                                nxt.append(s3)
                            elif sig[0] == "break":
                                out.append((s3, None))
                            else:
                                out.append((s3, sig))
            cur = nxt
            if len(cur) > self.cfg.max_paths:
                self.truncated += len(cur) - self.cfg.max_paths
                cur = cur[: self.cfg.max_paths]
            if not cur:
                break
        return out

    def st_For(self, n, st, ctx):
        out = []
        for s, it in self.ev(n.iter, st, ctx):
            if isinstance(it, Raised):
                out.append((s, ("raise", it)))
                continue
            m = self.iter_method(s, it)
            if m is not None:
                its = []
                for s1, v in self.call_func(s, FnV(m, it, None, None), [], {}, ctx, n):
                    if isinstance(v, Raised):
                        out.append((s1, ("raise", v)))
                    elif v == it or self.iter_method(s1, v) is not None:
                        its.append((s1, s1.new(HCallIter(Meth(v, "__next__"), None))))
                    else:
                        its.append((s1, v))
            else:
                its = [(s, it)]
            for s, it in its:
                out.extend(self.for_over(n, s, it, ctx))
        return out

    def for_over(self, n, st, it, ctx):
        out = []
        for s in [st]:
            if isinstance(it, Ref) and isinstance(s.heap[it.oid], HGen) and s.heap[it.oid].items is None:
                out.extend(self.for_gen(n, s, it, ctx))
                continue
            if isinstance(it, Ref) and isinstance(s.heap[it.oid], HCallIter):
                out.extend(self.for_call(n, s, it, ctx))
                continue
            if isinstance(it, T) and it.op == "constrange":
                lo, hi, stp = [x.v for x in it.args]
                r = range(lo, hi, stp)
                elems_l = [(s, [K(r[0]), K(r[1]), K(r[-1])])]
            else:
                elems_l = self.iterate(s, it, ctx, n)
            for s1, elems in elems_l:
                if isinstance(elems, Raised):
                    out.append((s1, ("raise", elems)))
                    continue
                cur = [s1]
                for e in elems:
                    nxt = []
                    for s2 in cur:
                        for s3, r in self.assign(s2, n.target, e, ctx):
                            if r is not None:
                                out.append((s3, ("raise", r)))
                                continue
                            for s4, sig in self.block(n.body, s3, ctx):
                                if sig is None or sig[0] == "continue":
                                    nxt.append(s4)
                                elif sig[0] == "break":
                                    out.append((s4, None))
                                else:
                                    out.append((s4, sig))
                    cur = nxt
                    if len(cur) > self.cfg.max_paths:
                        self.truncated += len(cur) - self.cfg.max_paths
                        cur = cur[: self.cfg.max_paths]
                for s2 in cur:
                    out.extend(self.block(n.orelse, s2, ctx) if n.orelse else [(s2, None)])
        return out

    def call_next(self, st, o, ctx, node):
        """one step of iter(callable, sentinel): [(state, value | None at the end | Raised)]"""
        out = []
        for s, v in self.bi_next(st, [o.fn.recv], {}, ctx, node) if o.sentinel is None else self.call(st, o.fn, [], {}, ctx, node):
            if isinstance(v, Raised):
                out.append((s, None if o.sentinel is None and self.exc_name(s, v) == "StopIteration" else v))
                continue
            if o.sentinel is None:
                out.append((s, v))
                continue
            for s2, same in self.fork_atom(s, self.eq_atom(s, v, o.sentinel)):
                out.append((s2, None if same else v))
        return out

    def for_call(self, n, st, ref, ctx):
        o = st.heap[ref.oid]
        out, cur = [], [st]
        for k in range(self.cfg.while_max + 1):
            nxt = []
            for s in cur:
                for s1, v in self.call_next(s, o, ctx, n):
                    if isinstance(v, Raised):
                        out.append((s1, ("raise", v)))
                    elif v is None:
                        out.extend(self.block(n.orelse, s1, ctx) if n.orelse else [(s1, None)])
                    elif k == self.cfg.while_max:
                        self.cut += 1
                        s1.marks = s1.marks + ("cut",)
                    else:
                        for s2, r in self.assign(s1, n.target, v, ctx):
                            if r is not None:
                                out.append((s2, ("raise", r)))
                                continue
                            for s3, sig in self.block(n.body, s2, ctx):
                                if sig is None or sig[0] == "continue":
                                    nxt.append(s3)
                                else:
                                    out.append((s3, None) if sig[0] == "break" else (s3, sig))
            cur = nxt
            if not cur:
                break
        return out

    def for_gen(self, n, st, ref, ctx):
        """for-loop over an in-package generator: the loop body runs at each yield"""
        o = st.heap[ref.oid]
        PEND = ("pend", ctx.fid, id(n), st.uid())

        def cont(s, v):
            res = []
            for s2, r in self.assign(s, n.target, v, ctx):
                if r is not None:
                    res.append((s2, r))
                    continue
                for s3, sig in self.block(n.body, s2, ctx):
                    if sig is None or sig[0] == "continue":
                        res.append((s3, NONE))
                    else:
                        s3.globals[PEND] = sig
                        res.append((s3, Raised(self.mk_exc("GeneratorExit"))))
            return res
        c = Ctx(o.func, o.fid, o.func.module, o.func.cls, cont, ctx.depth + 1)
        out = []
        for s, sig in self.block(o.func.node.body, st, c):
            p = s.globals.pop(PEND, None)
            if p is not None:
                out.append((s, None if p[0] == "break" else p))
            elif sig is not None and sig[0] == "raise":
                out.append((s, sig))
            else:
                s.heap[ref.oid] = HGen(o.func, o.fid, (), 0)
                out.extend(self.block(n.orelse, s, ctx) if n.orelse else [(s, None)])
        return out

    def st_With(self, n, st, ctx):
        return self._with(n.items, n.body, st, ctx, n)

    def _with(self, items, body, st, ctx, n):
        if not items:
            return self.block(body, st, ctx)
        it = items[0]
        out = []
        for s, v in self.ev(it.context_expr, st, ctx):
            if isinstance(v, Raised):
                out.append((s, ("raise", v)))
                continue
            o = s.heap.get(v.oid) if isinstance(v, Ref) else None
            if isinstance(o, HGen) and o.items is None:
                out.extend(self.with_gen(s, v, it, items, body, ctx, n))
                continue
            # enter
            if isinstance(o, HInst) and isinstance(o.cls, Class) and self.p.find_member(o.cls, "__enter__"):
                f = self.p.find_member(o.cls, "__enter__")[1]
                entered = self.call_func(s, FnV(f, v, None, None), [], {}, ctx, n)
                xf = self.p.find_member(o.cls, "__exit__")
                xf = FnV(xf[1], v, None, None) if xf else None
            else:
                self.event(s, "enter", "__enter__", v, [], {}, ctx, n)
                entered = [(s, v)]
                xf = None
            for s1, ev_ in entered:
                if isinstance(ev_, Raised):
                    out.append((s1, ("raise", ev_)))
                    continue
                bound = self.assign(s1, it.optional_vars, ev_, ctx) if it.optional_vars is not None else [(s1, None)]
                for s2, r in bound:
                    if r is not None:
                        out.append((s2, ("raise", r)))
                        continue
                    for s3, sig in self._with(items[1:], body, s2, ctx, n):
                        raised = sig is not None and sig[0] == "raise"
                        if xf is not None:
                            ea = [T("exctype", sig[1].v), sig[1].v, T("tb")] if raised else [NONE, NONE, NONE]
                            for s4, xr in self.call_func(s3, xf, ea, {}, ctx, n):
                                if isinstance(xr, Raised):
                                    out.append((s4, ("raise", xr)))
                                elif raised:
                                    for s5, b in self.truth(s4, xr):
                                        out.append((s5, None if b else sig))
                                else:
                                    out.append((s4, sig))
                        else:
                            self.event(s3, "exit", "__exit__", v, [K(raised)], {}, ctx, n)
                            if raised and isinstance(v, T) and v.op in ("fn", "ret") and "contextlib.suppress" in v.args:
                                sup = [self.exc_is(s3, sig[1].v, a) for a in v.args if isinstance(a, (Ext, ClsV))]
                                if any(x is True for x in sup):
                                    out.append((s3, None))
                                    continue
                            out.append((s3, sig))
        return out

    def with_gen(self, st, ref, it, items, body, ctx, n):
        o = st.heap[ref.oid]
        PEND = ("pendw", ctx.fid, id(n), st.uid())

        def cont(s, v):
            res = []
            bound = self.assign(s, it.optional_vars, v, ctx) if it.optional_vars is not None else [(s, None)]
            for s2, r in bound:
                if r is not None:
                    res.append((s2, r))
                    continue
                for s3, sig in self._with(items[1:], body, s2, ctx, n):
                    if sig is None:
                        res.append((s3, NONE))
                    elif sig[0] == "raise":
                        res.append((s3, sig[1]))
                    else:
                        s3.globals[PEND] = sig
                        res.append((s3, NONE))
            return res
        c = Ctx(o.func, o.fid, o.func.module, o.func.cls, cont, ctx.depth + 1)
        out = []
        for s, sig in self.block(o.func.node.body, st, c):
            p = s.globals.pop(PEND, None)
            if sig is not None and sig[0] == "raise":
                out.append((s, sig))
            elif p is not None:
                out.append((s, p))
            else:
                out.append((s, None))
        return out

    def st_Raise(self, n, st, ctx):
        if n.exc is None:
            fid = ctx.fid
            while fid is not None:
                cur = st.frames[fid].get("__exc__")
                if cur is not None:
                    return [(st, ("raise", cur))]
                fid = st.frames[fid].get("__parent__")
            return [(st, ("raise", Raised(self.mk_exc("psa.AnyError"), ctx.module.name, n.lineno)))]
        out = []
        for s, v in self.ev(n.exc, st, ctx):
            if isinstance(v, Raised):
                out.append((s, ("raise", v)))
                continue
            if isinstance(v, (ClsV, Ext)):
                for s2, v2 in self.call(s, v, [], {}, ctx, n):
                    out.append((s2, ("raise", v2 if isinstance(v2, Raised) else Raised(v2, ctx.module.name, n.lineno))))
            else:
                out.append((s, ("raise", Raised(v, ctx.module.name, n.lineno))))
        return out

    def st_Try(self, n, st, ctx):
        res = []
        for s, sig in self.block(n.body, st, ctx):
            if sig is None:
                res.extend(self.block(n.orelse, s, ctx) if n.orelse else [(s, None)])
            elif sig[0] == "raise" and not (isinstance(sig[1].v, T) and sig[1].v.op == "exc" and sig[1].v.args[0] == "GeneratorExit" and sig[1].mod is None):
                res.extend(self.handle(n.handlers, s, sig, ctx))
            else:
                res.append((s, sig))
        if not n.finalbody:
            return res
        out = []
        for s, sig in res:
            for s2, fsig in self.block(n.finalbody, s, ctx):
                out.append((s2, fsig if fsig is not None else sig))
        return out

    def handle(self, handlers, st, sig, ctx):
        cur = [st]
        out = []
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    hits = [(s, True)]
                else:
                    hits = []
                    for s1, hv in self.ev(h.type, s, ctx):
                        if isinstance(hv, Raised):
                            out.append((s1, ("raise", hv)))
                            continue
                        r = self.exc_is(s1, sig[1].v, hv)
                        if r is None:
                            s2 = s1.copy()
                            hits.append((s1, True))
                            hits.append((s2, False))
                        else:
                            hits.append((s1, r))
                for s1, ok in hits:
                    if not ok:
                        nxt.append(s1)
                        continue
                    fr = s1.frames[ctx.fid]
                    old = fr.get("__exc__")
                    new = {**fr, "__exc__": sig[1]}
                    if h.name:
                        new[h.name] = sig[1].v
                    s1.frames[ctx.fid] = new
                    for s2, hsig in self.block(h.body, s1, ctx):
                        fr2 = dict(s2.frames[ctx.fid])
                        fr2["__exc__"] = old
                        s2.frames[ctx.fid] = fr2
                        out.append((s2, hsig))
            cur = nxt
        out.extend((s, sig) for s in cur)
        return out

    st_TryStar = st_Try

    def st_Match(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.subject, st, ctx):
            if isinstance(v, Raised):
                out.append((s, ("raise", v)))
                continue
            cur = [s]
            for case in n.cases:
                nxt = []
                for s1 in cur:
                    for s2, ok in self.match_pat(s1, v, case.pattern, ctx):
                        conds = [(s2, ok)]
                        if ok and case.guard is not None:
                            conds = []
                            for s3, gv in self.ev(case.guard, s2, ctx):
                                if not isinstance(gv, Raised):
                                    conds.extend(self.truth(s3, gv))
                        for s3, ok2 in conds:
                            if ok2:
                                out.extend(self.block(case.body, s3, ctx))
                            else:
                                nxt.append(s3)
                cur = nxt
            out.extend((s1, None) for s1 in cur)
        return out

    def match_pat(self, st, v, p, ctx):
        if isinstance(p, ast.MatchValue):
            res = []
            for s, k in self.ev(p.value, st, ctx):
                res.extend(self.fork_atom(s, self.eq_atom(s, v, k)))
            return res
        if isinstance(p, ast.MatchSingleton):
            return self.fork_atom(st, self.cmp(st, ast.Is(), v, K(p.value)))
        if isinstance(p, ast.MatchOr):
            cur, out = [st], []
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, ok in self.match_pat(s, v, q, ctx):
                        (out.append((s2, True)) if ok else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.bind(st, ctx, p.name, v)
                return [(st, True)]
            out = []
            for s, ok in self.match_pat(st, v, p.pattern, ctx):
                if ok and p.name:
                    self.bind(s, ctx, p.name, v)
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchSequence):
            its = self.items_of(st, v)
            isseq = isinstance(v, T) and v.op == "tuple" or isinstance(v, Ref) and isinstance(st.heap[v.oid], HList) and st.heap[v.oid].kind == "list" \
                or self.record(st, v)
            if isinstance(v, K) or isinstance(v, Ref) and not isseq and its is not None:
                return [(st, False)]
            if isseq and its is not None:
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if len(its) != len(p.patterns) if not star else len(its) < len(p.patterns) - 1:
                    return [(st, False)]
                its = list(its)
                if star:
                    i = star[0]
                    k = len(its) - (len(p.patterns) - 1)
                    its[i:i + k] = [st.new(HList(its[i:i + k]))]
                return self.match_all(st, list(zip(its, p.patterns)), ctx)
        if isinstance(p, ast.MatchStar):
            if p.name:
                self.bind(st, ctx, p.name, v)
            return [(st, True)]
        if isinstance(p, ast.MatchMapping):
            if isinstance(v, (K, FnV, ClsV)) or isinstance(v, T) and v.op == "tuple" or isinstance(v, Ref) and isinstance(st.heap[v.oid], (HList, HXml)):
                return [(st, False)]
            o = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if isinstance(o, HDict) and not o.open:
                d = dict(o.items)
                todo = []
                for kn, q in zip(p.keys, p.patterns):
                    k = self.ev(kn, st, ctx)[0][1]
                    if k not in d:
                        return [(st, False)]
                    todo.append((d.pop(k), q))
                if p.rest:
                    self.bind(st, ctx, p.rest, st.new(HDict(tuple(d.items()))))
                return self.match_all(st, todo, ctx)
        if isinstance(p, ast.MatchClass):
            out = []
            for s, cv in self.ev(p.cls, st, ctx):
                for s1, r in self.bi_isinstance(s, [v, cv], {}, ctx, p):
                    for s2, ok in self.truth(s1, r):
                        if not ok:
                            out.append((s2, False))
                            continue
                        todo = []
                        if p.patterns:
                            if isinstance(cv, ClsV):
                                fs = cv.cls.fields
                                todo = [(self.attr(s2, v, f, ctx)[0][1], q) for f, q in zip(fs, p.patterns)]
                            else:
                                todo = [(v, p.patterns[0])]
                        todo += [(self.attr(s2, v, a, ctx)[0][1], q) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
                        out.extend(self.match_all(s2, todo, ctx))
            return out
        s2 = st.copy()
        for q in ast.walk(p):
            nm = getattr(q, "name", None) or getattr(q, "rest", None)
            if isinstance(nm, str):
                self.bind(st, ctx, nm, T("matched", self.freeze(st, v), nm))
        return [(st, True), (s2, False)]

    def record(self, st, v):
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        return isinstance(o, HInst) and isinstance(o.cls, Class) and bool(o.cls.record)

    def match_all(self, st, todo, ctx):
        """every (value, pattern) pair matches"""
        cur, out = [st], []
        for v, q in todo:
            nxt = []
            for s in cur:
                for s2, ok in self.match_pat(s, v, q, ctx):
                    (nxt.append(s2) if ok else out.append((s2, False)))
            cur = nxt
        return out + [(s, True) for s in cur]


CONSUMERS = frozenset("builtins." + x for x in ("sum", "any", "all", "sorted", "min", "max", "dict", "enumerate", "reversed", "zip", "len", "bytes", "bytearray")) | {
    "collections.OrderedDict", "builtins.dict.fromkeys", "collections.OrderedDict.fromkeys"}
CONSUMER_METHS = frozenset(("join", "extend", "update", "union", "intersection", "difference", "issubset", "extendleft", "writelines"))
FOLD = frozenset("builtins." + x for x in ("bytes", "bytearray", "round", "abs", "pow", "divmod", "repr", "format", "hex", "oct", "bin", "ascii", "max", "min"))


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
