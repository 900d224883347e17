"""Shared set-up of the protocol-level analyses: which calls are the boundary (wire), how replies are modelled."""
from ..interp import Config, Ctx, Interp, Outcome
from ..loader import AnalysisError, Class, Program
from ..state import State
from ..values import (FALSE, NONE, TRUE, ClsV, Ext, FnV, HDict, HInst, HList, HXml, K, Meth, Raised, Ref, T, lin_of, mk_lin,
                      lin_add, subterms)

WINRS = ["open", "close", "command", "receive", "send", "signal", "_get_shell"]
WSMAN_OPS = ["create", "connect", "reconnect", "disconnect", "delete", "enumerate", "get", "put", "pull", "receive", "send", "signal",
             "command", "identify"]


def const_table(prog, qual):
    """integer constants of a constants class: {NAME: value}"""
    import ast
    cls = prog.cls(qual)
    I = Interp(prog)
    out = {}
    for n, e in cls.attrs.items():
        st = State()
        v = I.class_expr(st, cls, n, e)[1]
        if isinstance(v, K) and isinstance(v.v, int) and not isinstance(v.v, bool):
            out[n] = v.v
    return out


_PROG = {}


def program(repo):
    if repo not in _PROG:
        _PROG[repo] = Program(repo)
    return _PROG[repo]


class World:
    """interpreter with the shell/connection methods as wire boundary"""

    def __init__(self, rep, repo, wire_psrp=True):
        self.rep = rep
        self.p = program(repo)
        self.cfg = Config()
        self.I = Interp(self.p, self.cfg)
        self.wire = set()
        self.script = None
        self.starved = 0
        if wire_psrp:
            for m in WINRS:
                self.boundary("shell.WinRS." + m)
            wc = self.p.cls("wsman.WSMan")
            for m in WSMAN_OPS:
                if self.p.find_member(wc, m):
                    self.boundary("wsman.WSMan." + m)
            self.boundary("wsman.WSMan.invoke")
            for m in ("serialize", "deserialize"):
                self.p.func("serializer.Serializer." + m)
                self.cfg.boundary["serializer.Serializer." + m] = "opaque"
        self.pool_states = const_table(self.p, "complex_objects.RunspacePoolState")
        self.ps_states = const_table(self.p, "complex_objects.PSInvocationState")
        self.mtypes = const_table(self.p, "messages.MessageType")
        if not self.pool_states or not self.ps_states or not self.mtypes:
            raise AnalysisError("protocol constant tables not found")

    def boundary(self, qual):
        self.cfg.boundary[qual] = "opaque"
        self.wire.add(qual)

    def wires(self, o, stop=None):
        return [e for e in o.events if e.kind == "pkg" and e.name in self.wire]

    def wnames(self, o):
        return [e.name.split(".", 1)[1] for e in self.wires(o)]

    def done(self):
        self.rep.absorb(self.I)

    # ---------------------------------------------------------------- fragments
    def model_fragmenter(self, counts=(1, 2, 3)):
        """fragment()/fragment_multiple() of n messages yield lists of n distinct fragments of that very message"""
        def h(I, st, fv, args, kw, ctx, node):
            out = []
            for s0, vals in I.bind_args(st, fv.func, fv.self_, args, kw, ctx, node):
                if isinstance(vals, Raised):
                    out.append((s0, vals))
                    continue
                ps, _ = fv.func.params()
                vals = dict(vals)
                me = vals.pop(ps[0], None)
                msg = I.freeze(s0, vals[ps[1]])
                for n in counts:
                    s = s0.copy()
                    tok = s.uid()
                    frs = [T("frag", tok, i, n, msg) for i in range(n)]
                    res = s.new(HList(frs))
                    for s2, v in I.opaque(s, "pkg", fv.func.qual, me, [], vals, ctx, node, result=res):
                        if s2.trace[1].exc is None:
                            s2.trace[1].tok = (tok, n)
                        out.append((s2, v))
            return out
        for m in ("fragment", "fragment_multiple"):
            self.p.func("powershell.Fragmenter." + m)
            self.cfg.boundary["powershell.Fragmenter." + m] = h

    # ---------------------------------------------------------------- scripted replies
    def model_replies(self, script, loop=False):
        """k-th call of Fragmenter.defragment returns script[k] = list of (class name, attrs) messages; beyond the script the
        path waits for ever and is dropped"""
        def h(I, st, fv, args, kw, ctx, node):
            k = st.globals.get("script", 0)
            if k >= len(script) and not loop:
                I.cut += 1
                self.starved += 1
                return []
            st.globals["script"] = k + 1
            msgs = [self.message(st, c, {n: v(I, st) if callable(v) else v for n, v in a.items()}, (k, j))
                    for j, (c, a) in enumerate(script[k % len(script)])]
            res = st.new(HList(msgs))
            return I.boundary_event(st, fv, args, kw, ctx, node, result=res)
        self.p.func("powershell.Fragmenter.defragment")
        self.cfg.boundary["powershell.Fragmenter.defragment"] = h

    def message(self, st, cname, attrs, tag):
        I = self.I
        mc = self.p.cls("messages.Message")
        dc = self.p.cls("messages." + cname) if isinstance(cname, str) else None
        nm = T("msg", *tag)
        if dc is None:
            data = T("attr", nm, "data")
            mt = K(cname)
        else:
            data = st.new(HInst(dc, {k: v for k, v in attrs.items()}, sym=True, name=T("data", *tag)))
            o = I.cls_attr(st, dc, "MESSAGE_TYPE")
            mt = o[0][1]
        return st.new(HInst(mc, {"message_type": mt, "data": data, "destination": K(1)}, sym=True, name=nm))

    def shallow_messages(self):
        mods = {"messages", "complex_objects"}
        self.cfg.shallow = lambda c: c.module.name in mods and not self.is_exc(c)

    def is_exc(self, c):
        return "Exception" in self.I.exc_ancestors(State(), ClsV(c))

    # ---------------------------------------------------------------- objects
    def pool(self, st, state=None, **attrs):
        ref = self.I.abs_inst(st, "powershell.RunspacePool", "pool", **attrs)
        if state is not None:
            self.I.setattr_(st, ref, "state", state)
        return ref

    def ps(self, st, pool=None, state=None, **attrs):
        ref = self.I.abs_inst(st, "powershell.PowerShell", "ps", **attrs)
        if pool is not None:
            self.I.setattr_(st, ref, "runspace_pool", pool)
        if state is not None:
            self.I.setattr_(st, ref, "state", state)
        return ref

    def final(self, o, ref, name):
        return o.st.heap[ref.oid].attrs.get(name)

    def ev_selects_shell(self, ev, o, pool):
        """the request's selectors are the pool shell's (the recorded selector set or one built from its id)"""
        sel = ev.arg(None, "selector_set")
        sh = o.st.heap[pool.oid].attrs.get("shell")
        a = o.st.heap[sh.oid].attrs if isinstance(sh, Ref) else {}
        rec = self.I.freeze(o.st, a["_selector_set"]) if "_selector_set" in a else None
        if sel is not None and (sel == rec or sel == a.get("_selector_set")):
            return True
        return self.names_shell(sel)

    def names_shell(self, sel):
        return any(isinstance(x, K) and x.v == "ShellId" for x in subterms(sel)) if sel is not None else False

    def lib_error(self, o, base="WinRMError"):
        """the path ends in one of the library's own errors"""
        if o.sig != "raise":
            return False
        return any(x.rsplit(".", 1)[-1] == base for x in self.I.exc_ancestors(o.st, o.exc.v))

    def exc(self, o):
        return self.I.exc_name(o.st, o.exc) if o.exc else None


def show(o, w):
    return "%s wire=%s%s" % (o.sig, w.wnames(o), " exc=%s" % w.exc(o) if o.exc else "")


def dict_gone(I, st, ref, key):
    """the dictionary certainly has no entry for key at the end of the path"""
    o = st.heap.get(ref.oid) if isinstance(ref, Ref) else None
    if not isinstance(o, HDict):
        return False
    if any(I.eq_atom(st, k, key) is not False for k, _ in o.items):
        return False
    if not o.open:
        return True
    return any(I.eq_atom(st, k, key) is True for k in o.removed) or st.facts.get(T("in", key, o.name)) is False


def dict_has(I, st, ref, key):
    """value stored under key, or None"""
    o = st.heap.get(ref.oid) if isinstance(ref, Ref) else None
    if isinstance(o, HDict):
        for k, v in o.items:
            if I.eq_atom(st, k, key) is True:
                return v
    return None


def walk(v, rets=False):
    """subterms left to right, depth first; results of calls (ret) are not entered unless asked"""
    yield v
    if isinstance(v, T) and v.op == "ret" and not rets:
        return
    kids = v.args if isinstance(v, T) else v if isinstance(v, tuple) else ()
    for a in kids:
        if isinstance(a, (T, K, tuple, Ref)) or hasattr(a, "k"):
            yield from walk(a, rets)


def opname(t):
    """name of the method or function a term is the result of"""
    if not isinstance(t, T) or t.op not in ("meth", "ret", "fn"):
        return ""
    x = t.args[1] if t.op == "ret" else t.args[0]
    return str(x)


def has(t, x):
    return t is not None and any(y == x for y in subterms(t))


def unwrap(t):
    """(inner, wrappers) of nested one-argument transformations, e.g. decode(b64encode(x))"""
    w = []
    while isinstance(t, T) and t.op in ("meth", "fn", "ret"):
        if t.op == "meth":
            name, x = t.args[0], t.args[1]
        elif t.op == "fn":
            if len(t.args) < 2:
                break
            name, x = t.args[0], t.args[1]
        else:
            break
        w.append(name)
        t = x
    return t, w
