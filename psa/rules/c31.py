"""C31: everything the library raises on purpose derives from one error type."""
import ast
import builtins

from ..interp import EXC_BASES
from ..loader import Func
from .c24 import *

TECHNIQUE = "static analysis: class-hierarchy check, type inference and escape analysis of every raise site, path enumeration of error answers"
BASE = "WinRMError"
# standard errors for bad arguments, missing optional packages and abstract methods
ARGUMENT = ("ValueError", "TypeError", "LookupError", "AttributeError", "NotImplementedError", "ImportError", "AssertionError", "NameError")
FAULT_FIELDS = ("code", "machine", "reason", "provider", "provider_path", "provider_fault")


def run(rep, repo, tier):
    rep.rule("hierarchy", "every exception class of the library derives from %s, or never leaves it" % BASE, 9)
    rep.rule("raise", "what a raise statement raises is a library error, an error caught before, or a standard error for bad arguments", 40)
    rep.rule("answers", "whatever the server answers, an error raised on purpose is a library error", 30)
    rep.rule("protocol", "whatever state a pool or pipeline is in and whatever it is answered, an error raised on purpose is a library error", 60)
    rep.rule("details", "a fault keeps code, machine, reason and provider details, and every library error can be shown", 14)
    w = World(rep, repo, wire_psrp=False)
    hierarchy(rep, repo, w)
    sites(rep, repo, w)
    answers(rep, repo)
    offers(rep, repo)
    protocol(rep, repo, tier)
    details(rep, repo)
    w.done()


def lib(w, c):
    return BASE in {x.rsplit(".", 1)[-1] for x in w.I.exc_ancestors(State(), ClsV(c))}


def classes(w):
    for c in w.p.all_classes():
        roots = {w.I._excname(b) for b in w.p.mro(c) if isinstance(b, str)}
        known = {b for b in roots if b in EXC_BASES or isinstance(getattr(builtins, b, None), type) and issubclass(getattr(builtins, b), BaseException)}
        if known and "Warning" not in w.I.exc_ancestors(State(), ClsV(c)):
            yield c


def hierarchy(rep, repo, w):
    found = False
    for c in classes(w):
        found = found or c.name == BASE
        ok, msg = lib(w, c), "does not derive from %s" % BASE
        if not ok:
            ok, msg = confined_class(rep, repo, c)
        rep.ob("hierarchy", ok, c.qual, c.name, msg)
    if not found:
        rep.ob("hierarchy", False, "exceptions", BASE, "the base error type is gone")


def confined_class(rep, repo, c):
    """an internal signal: raised inside the HTTP library during a liveness check, where it must be turned into an answer"""
    if not init_ok(c):
        return False, "does not derive from %s" % BASE
    try:
        w, outs = alive(rep, repo, script=("pkg:" + c.qual,))
    except AnalysisError as e:
        return False, "does not derive from %s (%s)" % (BASE, e)
    for o in outs:
        if o[0].sig == "raise" and w.exc(o[0]) == c.name:
            return False, "does not derive from %s and leaves the library" % BASE
    w.done()
    return True, ""


def init_ok(c):
    f = c.methods.get("__init__")
    return f is None or len(f.params()[0]) == 1


# ------------------------------------------------------------------ raise sites
class Types:
    """what a raised expression can be: set of Class | dotted name | 'caught' | 'unknown'"""

    def __init__(self, w):
        self.w, self.p = w, w.p
        self.funcs = [(m, q, f) for m, q, f in w.p.all_funcs()]
        self.owner = {}
        for m, q, f in self.funcs:
            for n in own_nodes(f):
                self.owner[n] = (m, q, f)
        self.busy = set()

    def of(self, m, f, e):
        key = (id(f), ast.dump(e))
        if key in self.busy:
            return set()
        self.busy.add(key)
        try:
            return self._of(m, f, e)
        finally:
            self.busy.discard(key)

    def _of(self, m, f, e):
        if isinstance(e, ast.Call):
            t = self.of(m, f, e.func)
            out = set()
            for x in t:
                if isinstance(x, tuple) and x[0] == "func":
                    out |= self.returns(x[1], x[2])
                else:
                    out.add(x)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "with_traceback":
                return self.of(m, f, e.func.value)
            return out or {"unknown"}
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name) and f is not None:
                loc = self.local(m, f, e.id)
                if loc:
                    return loc
            c = self.p.resolve_expr_class(m, e)
            if not isinstance(c, str):
                return {c}
            if isinstance(e, ast.Name):
                r = self.p.lookup(m, e.id)
                if isinstance(r, Func):
                    return {("func", r.module, r.node)}
                if isinstance(r, tuple) and r[0] == "expr":
                    return self.of(r[1], None, r[2])
                if isinstance(getattr(builtins, e.id, None), type):
                    return {e.id}
                if isinstance(r, tuple) and r[0] == "ext":
                    return {r[1]}
                return {"unknown"}
            # a method or attribute of some object: every definition of that name in the package
            if isinstance(e.value, ast.Name) and isinstance(self.p.lookup(m, e.value.id), tuple) and self.p.lookup(m, e.value.id)[0] == "ext":
                return {c}
            got = {("func", mm, ff) for mm, q, ff in self.funcs if ff.name == e.attr}
            if got:
                return got
            out = set()
            for cc in self.p.all_classes():
                if e.attr in cc.attrs:
                    out |= self.of(cc.module, None, cc.attrs[e.attr])
            return out or {"unknown"}
        if isinstance(e, ast.IfExp):
            return self.of(m, f, e.body) | self.of(m, f, e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.of(m, f, v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.of(m, f, e.value)
        if isinstance(e, ast.Subscript):
            v = e.value
            if isinstance(v, ast.Name):
                r = self.p.lookup(m, v.id)
                if isinstance(r, tuple) and r[0] == "expr":
                    v = r[2]
            if isinstance(v, ast.Dict):
                return set().union(*[self.of(m, f, x) for x in v.values])
            if isinstance(v, (ast.Tuple, ast.List)):
                return set().union(*[self.of(m, f, x) for x in v.elts])
            return {"unknown"}
        return {"unknown"}

    def local(self, m, f, name):
        out = set()
        for n in own_nodes(f):
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                out.add("caught")
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and t.id == name and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                        out |= self.of(m, f, n.value)
            elif isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name) and n.target.id == name:
                out |= self.of(m, f, n.value)
        if out:
            return out
        a = f.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if name in ps or name in [x.arg for x in a.kwonlyargs]:
            i = ps.index(name) if name in ps else None
            for mm, q, g in self.funcs:
                for n in own_nodes(g):
                    if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", None)) == f.name:
                        k = [x.value for x in n.keywords if x.arg == name]
                        j = i - 1 if i is not None and isinstance(n.func, ast.Attribute) and ps[:1] in (["self"], ["cls"]) else i
                        if k:
                            out |= self.of(mm, g, k[0])
                        elif j is not None and j < len(n.args):
                            out |= self.of(mm, g, n.args[j])
            return out or {"unknown"}
        return None

    def returns(self, m, f):
        out = set()
        for n in own_nodes(f):
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                out |= self.of(m, f, n.value)
        return out


def own_nodes(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def sites(rep, repo, w):
    ty = Types(w)
    n = {}
    for m, q, f in ty.funcs:
        for r in own_nodes(f):
            if not isinstance(r, ast.Raise):
                continue
            i = n[q] = n.get(q, 0) + 1
            if r.exc is None:
                rep.ob("raise", True, q, "raise %d" % i, "")
                continue
            bad = None
            for t in sorted(ty.of(m, f, r.exc), key=str):
                if isinstance(t, tuple):
                    continue
                if t == "caught":
                    continue
                if t == "unknown":
                    rep.assume("what %s raises at line %d is not known from the source" % (q, r.lineno))
                    continue
                if not isinstance(t, str):
                    if lib(w, t) or any(t is c for c in classes(w)):
                        continue
                    bad = "raises %s, which is no exception" % t.name
                    continue
                anc = w.I.exc_ancestors(State(), Ext(t if t.rsplit(".", 1)[-1] not in dir(builtins) else t.rsplit(".", 1)[-1]))
                if "Warning" in anc:
                    bad = "raises a warning"
                elif set(anc) & set(ARGUMENT):
                    continue
                else:
                    e = escapes(ty, m, q, f, r, t)
                    if e:
                        bad = "raises %s, which leaves the library through %s" % (t, e)
            rep.ob("raise", bad is None, q, "raise %d" % i, "line %d: %s" % (r.lineno, bad) if bad else "")


def parents(tree):
    return {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}


def caught_here(ty, m, f, node, t):
    """a handler around node, inside f, takes t"""
    par = parents(f)
    n = node
    anc = ty.w.I.exc_ancestors(State(), Ext(t))
    while n is not f:
        p = par[n]
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for x in ts:
                    c = "BaseException" if x is None else ty.p.resolve_expr_class(m, x)
                    if isinstance(c, str) and (c in anc or c == t or ty.w.I._excname(c) in {ty.w.I._excname(a) for a in anc} or
                                               c.rsplit(".", 1)[-1] == t.rsplit(".", 1)[-1]):
                        return True
        n = p
    return False


def escapes(ty, m, q, f, node, t, seen=None):
    """name of the public function t can leave through, or None"""
    seen = seen if seen is not None else set()
    if caught_here(ty, m, f, node, t):
        return None
    if id(f) in seen:
        return None
    seen.add(id(f))
    if not f.name.startswith("_") or f.name.startswith("__"):
        return q
    called = False
    for mm, qq, g in ty.funcs:
        for n in own_nodes(g):
            if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", None)) == f.name:
                called = True
                e = escapes(ty, mm, qq, g, n, t, seen)
                if e:
                    return e
    return None if called else q


# ------------------------------------------------------------------ what the server answers
_LINES = {}


def deliberate(w, o):
    """the path ends at a raise statement of the package"""
    mod = w.p.modules.get(o.exc.mod or "")
    if mod is None:
        return False
    if id(mod) not in _LINES:
        _LINES[id(mod)] = [mod, {x for n in ast.walk(mod.tree) if isinstance(n, ast.Raise) and n.exc is not None for x in range(n.lineno, (n.end_lineno or n.lineno) + 1)}]
    return o.exc.line in _LINES[id(mod)][1]


def answers(rep, repo):
    for op in OPS:
        for status in (401, 404, 500):
            w = Http(rep, repo, script=(status,))
            w.wrap_boundary()
            bad, n = None, 0
            for s, ref in w.wsman(given(), ssl=TRUE)[:1]:
                for o in w.op(s, ref, op):
                    n += 1
                    if o.sig == "return":
                        bad = "an error status is reported as success"
                    elif deliberate(w, o) and not w.lib_error(o):
                        bad = "raises %s" % w.exc(o)
            rep.ob("answers", bad is None and n > 0, "wsman.WSMan.%s" % op, "%s %d" % (op, status), bad or ("" if n else "no path"))
            w.done()
    for con, kind, kw in (("an answer to another request", 200, {"ssl": TRUE}), ("a sealed answer", ("enc", 200), {"ssl": FALSE}),
                          ("a CredSSP sealed answer", ("xenc", 200), {"ssl": FALSE, "auth": K("credssp"), "username": USER, "password": PW})):
        other(rep, repo, con, kind, kw)


def other(rep, repo, con, kind, kw):
    w = Http(rep, repo, script=(kind,))
    bad = None
    n = 0
    st = given()
    for t in (USER, PW):
        st.facts[T("isnone", t)] = False
        st.facts[T("truth", t)] = True
    for s, ref in w.wsman(st, **kw)[:1]:
        for o in w.op(s, ref, "get"):
            if o.sig == "raise" and deliberate(w, o):
                n += 1
                if not w.lib_error(o):
                    bad = "raises %s" % w.exc(o)
    rep.ob("answers", bad is None and n > 0, "wsman.WSMan.invoke", con, bad or ("" if n else "no path"))
    w.done()


def offers(rep, repo):
    for auth in ("negotiate", "kerberos", "ntlm"):
        for offer in ("", "Basic", "Kerberos", "NTLM", "Negotiate", "Kerberos, NTLM"):
            x = Shake(rep, repo, {"ssl": TRUE, "auth": K(auth), "username": USER, "password": PW}, offer=offer)
            bad, n = None, 0
            for o, _, _ in x.outs:
                n += 1
                if o.sig == "raise" and deliberate(x.w, o) and not x.w.lib_error(o):
                    bad = "raises %s" % x.w.exc(o)
            rep.ob("answers", bad is None and n > 0, "negotiate.HTTPNegotiateAuth", "%s, server offers '%s'" % (auth, offer), bad or ("" if n else "no path"))
            x.w.done()


POOL_OPS = [("open", []), ("connect", []), ("disconnect", []), ("close", []), ("reset_runspace_state", []), ("get_command_metadata", [T("in_", "names")]),
            ("exchange_keys", []), ("get_available_runspaces", [])]
PS_OPS = [("begin_invoke", []), ("stop", []), ("close", []), ("connect", []), ("connect_async", []), ("poll_invoke", []), ("create_nested_power_shell", [])] + \
    [("merge_" + x, [T("in_", "to")]) for x in ("error", "warning", "verbose", "debug", "information")]


def protocol(rep, repo, tier):
    w0 = World(rep, repo)
    for op, args in POOL_OPS:
        if not w0.p.find_member(w0.p.cls("powershell.RunspacePool"), op):
            continue
        for sname, sval in sorted(w0.pool_states.items(), key=lambda x: x[1]):
            for rname, reply in replies(w0):
                w = pworld(rep, repo, reply)
                st = State()
                pool = w.pool(st, K(sval), _ci_counter=K(7))
                outs = w.I.call_method(st, pool, op, args)
                judge(rep, w, outs, "RunspacePool.%s" % op, "%s in state %s, answered %s" % (op, sname, rname))
    for prop in ("min_runspaces", "max_runspaces"):
        for rname, reply in replies(w0):
            w = pworld(rep, repo, reply)
            st = State()
            pool = w.pool(st, K(w.pool_states["OPENED"]), _ci_counter=K(7))
            w.I.setattr_(st, pool, "_" + prop, T("in_", "old"))
            judge(rep, w, w.I.call_setter(st, pool, prop, T("in_", "new")), "RunspacePool.%s" % prop, "%s, answered %s" % (prop, rname))
    for op, args in PS_OPS:
        if not w0.p.find_member(w0.p.cls("powershell.PowerShell"), op):
            continue
        for sname, sval in sorted(w0.ps_states.items(), key=lambda x: x[1]):
            w = pworld(rep, repo, [])
            st = State()
            pool = w.pool(st, K(w.pool_states["OPENED"]))
            ps = w.ps(st, pool, K(sval))
            judge(rep, w, w.I.call_method(st, ps, op, args), "PowerShell.%s" % op, "%s in state %s" % (op, sname))
    # end_invoke of a pipeline that was already over
    for sname in ("FAILED", "STOPPED", "DISCONNECTED", "COMPLETED"):
        w = pworld(rep, repo, [])
        st = State()
        pool = w.pool(st, K(w.pool_states["OPENED"]))
        ps = w.ps(st, pool, K(w.ps_states[sname]))
        judge(rep, w, w.I.call_method(st, ps, "end_invoke", []), "PowerShell.end_invoke", "end_invoke in state %s" % sname)


def replies(w):
    yield "nothing", []
    yield "opened", [("RunspacePoolStateMessage", {"state": K(w.pool_states["OPENED"])})]
    yield "broken", [("RunspacePoolStateMessage", {"state": K(w.pool_states["BROKEN"])})]
    yield "no", [("RunspaceAvailability", {"ci": K(7), "response": FALSE})]


def pworld(rep, repo, reply):
    w = World(rep, repo)
    w.model_fragmenter((1,))
    w.shallow_messages()
    w.model_replies([reply, [("SessionCapability", {"protocol_version": K("2.3")})]])
    w.cfg.iters = (0, 1)
    return w


def judge(rep, w, outs, where, con):
    bad = None
    for o in outs:
        if o.sig == "raise" and deliberate(w, o) and not w.lib_error(o):
            bad = "raises %s" % w.exc(o)
    rep.ob("protocol", bad is None, where, con, bad or "")
    w.done()


# ------------------------------------------------------------------ details
KEYS = {"code": ("Code", "Value"), "machine": ("Machine",), "reason": ("Message", "Text"), "provider": ("provider",), "provider_path": ("path",),
        "provider_fault": ("ProviderFault",)}


def mentions(t, keys):
    for x in subterms(t):
        if isinstance(x, K) and isinstance(x.v, str) and x.v.rsplit("/", 1)[-1].rsplit(":", 1)[-1].rsplit("}", 1)[-1] in keys:
            return True
    return False


def attrs_of(w, st, ref, names):
    out = {}
    for n in names:
        r = w.I.attr(st, ref, n, Ctx(None, None, w.p.modules["exceptions"]))
        st, v = r[0]
        out[n] = w.I.freeze(st, v) if not isinstance(v, Raised) else None
    return out


def details(rep, repo):
    w = Http(rep, repo, script=(500,))
    bad = dict.fromkeys(FAULT_FIELDS)
    full, n, tied = 0, 0, None
    for s, ref in w.wsman(given(), ssl=TRUE)[:1]:
        for o in w.op(s, ref, "get"):
            if o.sig != "raise" or w.exc(o) != "WSManFaultError":
                continue
            n += 1
            got = attrs_of(w, o.st, o.exc.v, FAULT_FIELDS)
            for k, v in got.items():
                if v != NONE and (v is None or not mentions(v, KEYS[k])):
                    bad[k] = "is %s" % str(v)[:60]
            full += all(got[k] not in (NONE, None) for k in FAULT_FIELDS)
            if got["machine"] not in (NONE, None) and not mentions(got["code"], ("Code",)):
                tied = "the code of the WS-Management fault is not kept"
            if (got["provider"] == NONE) != (got["provider_path"] == NONE):
                tied = "provider and path are not kept together"
    for k in FAULT_FIELDS:
        rep.ob("details", bad[k] is None and n > 0, "wsman.WSMan._parse_wsman_fault", "fault %s" % k, "the fault's %s %s" % (k, bad[k]) if bad[k] else "" if n else "no fault is raised")
    rep.ob("details", tied is None and full > 0, "wsman.WSMan._parse_wsman_fault", "fault with all details", tied or ("" if full else "no path keeps all details of a fault"))
    w.done()
    faults(rep, repo)
    w = World(rep, repo, wire_psrp=False)
    vals = [T("in_", "fault-" + n) for n in FAULT_FIELDS]
    shown(rep, w, "exceptions.WSManFaultError", "all details", vals, dict(zip(FAULT_FIELDS, vals)), vals)
    shown(rep, w, "exceptions.WSManFaultError", "no details", [NONE] * 6, {n: NONE for n in FAULT_FIELDS}, [])
    for i, n in enumerate(FAULT_FIELDS):
        a = [vals[j] if j == i else NONE for j in range(6)]
        shown(rep, w, "exceptions.WSManFaultError", "only %s" % n, a, {n: vals[i]}, [vals[i]])
    c, txt = T("in_", "status"), T("in_", "body")
    shown(rep, w, "exceptions.WinRMTransportError", "status", [K("http"), c, txt], {"code": c, "response_text": txt, "protocol": K("http")}, [c, txt])
    shown(rep, w, "exceptions.WinRMTransportError", "status 500", [K("http"), K(500), txt], {"code": K(500), "response_text": txt, "protocol": K("http")}, [txt])
    for cn, tab in (("InvalidRunspacePoolStateError", w.pool_states), ("InvalidPipelineStateError", w.ps_states)):
        names = sorted(tab, key=tab.get)
        bad = None
        for a in names:
            for exp in (K(tab[names[0]]), T("list", *[K(tab[x]) for x in names])):
                bad = bad or show_one(w, "exceptions." + cn, [K(tab[a]), exp, T("in_", "action")], {"current_state": K(tab[a]), "action": T("in_", "action")}, [T("in_", "action")],
                                      [x.replace("_", "") for x in ([a] + (names if isinstance(exp, T) else names[:1]))])
        rep.ob("details", bad is None, "exceptions." + cn, "every state", bad or "")
    w.done()


def faults(rep, repo):
    """what is read from a fault document with any of its parts missing, empty or present"""
    S, F = "{http://www.w3.org/2003/05/soap-envelope}", "{http://schemas.microsoft.com/wbem/wsman/1/wsmanfault}"
    V = {n: T("in_", n) for n in ("reason", "message", "pfault", "machine", "provider", "ppath")}
    codes = [(None, None), ("s:Sender", None), ("s:Sender", "w:TimedOut"), ("s:Receiver", "42")]
    shapes = []
    for code, sub in codes:
        for reason in (None, "", "reason"):
            shapes.append((code, sub, reason, None))
            for num in (None, "2150858793", "weird"):
                for machine in (None, "machine"):
                    for msg, prov in ((None, None), ("", None), ("message", None), ("message", "full"), ("", "full"), ("message", "bare")):
                        shapes.append((code, sub, reason, (num, machine, msg, prov)))
    w = Http(rep, repo, script=(500,))
    I = w.I
    s0, ref = w.wsman(given(), ssl=TRUE)[0]
    n, bad = 0, {}
    for code, sub, reason, wf in shapes:
        st = s0.copy()
        for t in V.values():
            st.facts[T("isnone", t)] = False
            st.facts[T("truth", t)] = True

        def el(tag, text=NONE, attrs=None, kids=()):
            return I.xml(st, tag, {k: v for k, v in (attrs or {}).items()}, text, list(kids))
        kids = []
        if code is not None:
            kids.append(el(S + "Code", kids=[el(S + "Value", K(code))] + ([el(S + "Subcode", kids=[el(S + "Value", K(sub))])] if sub else [])))
        if reason is not None:
            kids.append(el(S + "Reason", kids=[el(S + "Text", V[reason] if reason else NONE)]))
        want = dict.fromkeys(FAULT_FIELDS, NONE)
        want["code"] = K(sub or code) if code else NONE
        if sub == "42":
            want["code"] = K(42)
        if reason:
            want["reason"] = V["reason"]
        if wf is not None:
            num, machine, msg, prov = wf
            at = {}
            if num:
                at["Code"] = K(num)
                want["code"] = K(int(num)) if num.isdigit() else K(num)
            if machine:
                at["Machine"] = V["machine"]
                want["machine"] = V["machine"]
            mk = []
            if msg is not None:
                pk = []
                if prov == "full":
                    pk = [el(F + "ProviderFault", V["pfault"], {"provider": V["provider"], "path": V["ppath"]})]
                    want.update(provider=V["provider"], provider_path=V["ppath"], provider_fault=V["pfault"])
                elif prov == "bare":
                    pk = [el(F + "ProviderFault", NONE, {})]
                mk = [el(F + "Message", V["message"] if msg else NONE, {}, pk)]
                if msg:
                    want["reason"] = V["message"]
            kids.append(el(S + "Detail", kids=[el(F + "WSManFault", NONE, at, mk)]))
        doc = el(S + "Envelope", kids=[el(S + "Body", kids=[el(S + "Fault", kids=kids)])])
        w.cfg.ext["ET.fromstring"] = lambda I, s, recv, a, k, ctx, node: [(s, doc)]
        con = "code %s/%s, reason %r, WSManFault %s" % (code, sub, reason, wf)
        ran = False
        for o in w.op(st, ref, "get"):
            if not w.http(o):
                continue
            n += not ran
            ran = True
            if w.exc(o) != "WSManFaultError":
                bad.setdefault("made", "%s: the answer ends in %s" % (con, w.exc(o) or "a return"))
                continue
            got = attrs_of(w, o.st, o.exc.v, FAULT_FIELDS)
            for k in FAULT_FIELDS:
                g = I.freeze(o.st, got[k]) if got[k] is not None else None
                while isinstance(g, T) and g.op == "meth" and g.args[0] == "strip":
                    g = g.args[1]
                if g != want[k]:
                    bad.setdefault(k, "%s: is %s" % (con, str(g)[:60]))
    for k in ("made",) + tuple(FAULT_FIELDS):
        rep.ob("details", k not in bad and n >= len(shapes), "wsman.WSMan._parse_wsman_fault", "read from a fault: %s" % k, bad.get(k) or "not analysed")
    w.done()


def shown(rep, w, cn, con, args, fields, text):
    bad = show_one(w, cn, args, fields, text)
    rep.ob("details", bad is None, cn, con, bad or "")


def show_one(w, cn, args, fields, text, words=()):
    st = State()
    for t in text:
        st.facts[T("truth", t)] = True
        st.facts[T("isnone", t)] = False
    args = [st.new(HList(list(a.args))) if isinstance(a, T) and a.op == "list" else a for a in args]
    n = 0
    for o in w.I.construct(st, w.p.cls(cn), args, {}):
        if o.sig != "return":
            return "cannot be made: %s" % w.exc(o)
        got = attrs_of(w, o.st, o.val, fields)
        for k, v in fields.items():
            if got[k] != v:
                return "%s is %s" % (k, str(got[k])[:60])
        for s in w.I.call_method(o.st, o.val, "__str__", [], {}):
            n += 1
            if s.sig != "return":
                return "showing it raises %s" % w.exc(s)
            t = w.I.freeze(s.st, s.val)
            said = "".join(str(x.v) for x in subterms(t) if isinstance(x, K)).upper()
            for x in words:
                if x.upper() not in said:
                    return "its text does not name the state %s" % x
            for x in text:
                if not has(t, x):
                    return "its text does not show %s" % x
    return None if n else "no path"
