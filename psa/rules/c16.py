"""C16: secrets never reach the logs, exception texts or string forms."""
import ast

from .c23 import *
from .c15 import ASK, KEY, CONN as PCONN, SK, meta, new_pool, privates, serializer, world
from .common import World

TECHNIQUE = "static analysis: path enumeration with secrets as marked values (no log, warning, exception or wire argument may depend on one) and package-wide taint of sink arguments"
KPW, SECRET = T("in_", "key-password"), T("in_", "clear-text")
SINKLIKE = ("write", "writelines", "dump", "dumps", "Popen", "system", "putenv", "run", "check_output", "check_call", "syslog", "print", "warn", "warn_explicit", "input")
# what a secret may be handed to: the result no longer counts as the secret
TRUSTED = ("spnego.client", "HTTPBasicAuth", "HttpCredSSPAuth", "load_cert_chain", "HTTPNegotiateAuth", "AES", "Cipher")
HARMLESS = {"len", "isnone", "==", "!=", "is", "isinst", "truth", "not", "type", "hasattr", "cmp", "<", ">", "<=", ">="}


def run(rep, repo, tier):
    rep.rule("http", "no log, warning, exception, URL, header or body of a request depends on a configured password", 40)
    rep.rule("setup", "refusing a configuration names no password", 4)
    rep.rule("handshake", "no log, warning, exception or token header of the authentication depends on the password, except through the security library", 12)
    rep.rule("key", "no log, warning, exception or message depends on the private key or the session key, except the public half", 4)
    rep.rule("secure", "a secure string or the password of a credential leaves only encrypted, and is in no log or error", 6)
    rep.rule("received", "what the server sends, which may hold decrypted secure strings, is in no log, warning or error of the library", 8)
    rep.rule("form", "the string forms of objects that hold secrets do not show them", 6)
    rep.rule("sinks", "no argument of a log call, warning, print or raised exception anywhere is computed from a secret", 60)
    requests_(rep, repo)
    setup(rep, repo)
    handshake(rep, repo)
    keys(rep, repo)
    secure(rep, repo)
    received(rep, repo)
    forms(rep, repo)
    sinks(rep, repo)


# ---------------------------------------------------------------- marked values
def leaks(t, secrets, derived=(), memo=None):
    """t shows one of the secrets, or a result of one of the named operations"""
    if not isinstance(t, (T, tuple)):
        return t in secrets
    memo = {} if memo is None else memo
    if id(t) not in memo:
        memo[id(t)] = (t, False)
        memo[id(t)] = (t, _leaks(t, secrets, derived, memo))
    return memo[id(t)][1]


def _leaks(t, secrets, derived, memo):
    if t in secrets:
        return True
    if isinstance(t, T):
        n = str(opname(t)) or t.op
        if n in derived:
            return True
        if n in HARMLESS or any(n == x or n.endswith("." + x) for x in TRUSTED + ("public_key",)):
            return False
        if t.op == "meth" and "encryptor" in [opname(x) for x in subterms(t)]:
            return False
        if t.op == "inst":
            # the default string form of an object does not show its attributes; own string forms have a rule of their own
            return False
        if t.op == "attr" and t.args[0] not in secrets and isinstance(t.args[0], T) and leaks(t.args[0], secrets, derived, memo):
            return True
        return any(leaks(a, secrets, derived, memo) for a in t.args)
    if isinstance(t, tuple):
        return any(leaks(a, secrets, derived, memo) for a in t)
    return False


def exception_parts(I, st, v):
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HInst):
        o = st.heap[v.oid]
        at = dict(o.ctor or {})
        at.update(o.attrs)
        return [I.freeze(st, x) for k, x in at.items() if k != "__cause__"]
    v = I.freeze(st, v)
    return list(v.args) if isinstance(v, T) and v.op == "exc" else [v]


def spilt(w, o, secrets, derived=(), n0=0, wire=False):
    """where the path shows a secret, or None"""
    for e in o.events[n0:]:
        name = str(e.name).rsplit(".", 1)[-1]
        args = list(e.fargs) + [v for _, v in e.fkw]
        if e.kind == "log" or name in SINKLIKE or str(e.name).startswith(("warnings.", "logging.", "subprocess.", "os.", "sys.")):
            if any(leaks(a, secrets, derived) for a in args):
                return "%s at %s shows it" % ("the log call" if e.kind == "log" and name != "print" else name, e.where)
        if e.kind == "http":
            x = e.res
            for what, v in (("URL", x.url), ("body", x.data), ("headers", x.headers), ("settings", tuple(x.conf.values()))):
                if v is not None and leaks(v, secrets, derived):
                    return "the %s of the request at %s shows it" % (what, e.where)
        if wire and e.kind == "pkg" and (e.name in w.wire or e.name.startswith("powershell.Fragmenter.fragment")):
            for a in args:
                for m in subterms(a):
                    if isinstance(m, T) and m.op == "inst" and any(leaks(x, secrets, derived) for _, x in m.args[2] if not (isinstance(x, T) and x.op == "inst")):
                        return "the message sent at %s shows it" % (e.where,)
                if leaks(a, secrets, derived):
                    return "what is sent at %s shows it" % (e.where,)
    if o.sig == "raise" and any(leaks(x, secrets, derived) for x in exception_parts(w.I, o.st, o.exc.v)):
        return "the exception raised at %s:%s shows it" % (o.exc.module if hasattr(o.exc, "module") else "", getattr(o.exc, "line", ""))
    for k, v in o.st.globals.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] in ("tattr", "titem") and "session" in str(k[1]) and k[2] != "auth" and leaks(w.I.freeze(o.st, v), secrets, derived):
            return "the session's %s shows it" % (k[2],)
    return None


def known(st, *ts):
    for t in ts:
        st.facts[T("isnone", t)] = False
        st.facts[T("truth", t)] = True


def configs():
    up = {"username": USER, "password": PW}
    yield "basic https", dict(up, auth=K("basic"), ssl=TRUE)
    yield "basic http", dict(up, auth=K("basic"), ssl=FALSE, encryption=K("never"))
    for a in ("negotiate", "kerberos", "ntlm", "credssp"):
        yield a + " https", dict(up, auth=K(a), ssl=TRUE)
        yield a + " http", dict(up, auth=K(a), ssl=FALSE)
    yield "certificate", dict(auth=K("certificate"), ssl=TRUE, certificate_pem=PEM, certificate_key_pem=KEYPEM, certificate_key_password=KPW)


def requests_(rep, repo):
    for con, kw in configs():
        for what, script, init in (("answered", (200,), (200,)), ("401", (401,), (401,)), ("fault", (500,), (200,)), ("refused", ("requests.exceptions.ConnectionError",), (200,)),
                                   ("fails first", (200,), ("requests.exceptions.ConnectionError",))):
            w, st, ref = mk(rep, repo, dict(kw, reconnection_retries=K(1)), script=script, init_script=init)
            w.cfg.debug_logs = True
            known(st, USER, PW, PEM, KEYPEM, KPW)
            bad, n = None, 0
            for o in w.op(st, ref, "get"):
                n += bool(w.http(o))
                bad = bad or spilt(w, o, {PW, KPW})
            rep.ob("http", bad is None and n > 0, "wsman._TransportHTTP.send", "%s, %s" % (con, what), bad or "nothing is sent")
            w.done()


def setup(rep, repo):
    cases = [("certificate without TLS", dict(auth=K("certificate"), ssl=FALSE, certificate_pem=PEM, certificate_key_pem=KEYPEM, certificate_key_password=KPW)),
             ("certificate without key", dict(auth=K("certificate"), ssl=TRUE, certificate_pem=PEM, certificate_key_password=KPW)),
             ("basic without name", dict(auth=K("basic"), ssl=TRUE, password=PW)), ("credssp without name", dict(auth=K("credssp"), ssl=TRUE, password=PW)),
             ("unknown authentication", dict(auth=K("other"), ssl=TRUE, username=USER, password=PW)),
             ("unknown encryption", dict(auth=K("basic"), ssl=TRUE, encryption=K("other"), username=USER, password=PW)),
             ("unencryptable", dict(auth=K("basic"), ssl=FALSE, encryption=K("always"), username=USER, password=PW)),
             ("unknown option", dict(auth=K("basic"), ssl=TRUE, username=USER, password=PW, other=T("in_", "other")))]
    for con, kw in cases:
        w = Http(rep, repo)
        w.cfg.debug_logs = True
        w.fault_boundary()
        w.wrap_boundary()
        st = State()
        known(st, USER, PW, PEM, KEYPEM, KPW, T("in_", "other"))
        bad, n = None, 0
        for o in w.I.construct(st, w.p.cls("wsman.WSMan"), [ENDPOINT_SERVER], kw):
            ends = [o] if o.sig == "raise" else w.op(o.st, o.val, "get")
            for e in ends:
                n += 1
                bad = bad or spilt(w, e, {PW, KPW})
        rep.ob("setup", bad is None and n > 0, "wsman._TransportHTTP", con, bad or "nothing analysed")
        w.done()


def handshake(rep, repo):
    for auth in ("negotiate", "kerberos", "ntlm"):
        for offer in ("Negotiate", "Kerberos", "NTLM", None):
            for alg in ("sha256", "unsupported") if auth == "negotiate" else ("sha256",):
                sh = Shake(rep, repo, base(auth), offer=offer, alg=alg)
                bad = None
                for p, a, ev in sh.outs:
                    bad = bad or spilt(sh.w, p, {PW})
                    bad = bad or next(("the header set at %s shows it" % (e.where,) for e in ev if e.name == "[]=" and any(leaks(x, {PW}) for x in e.fargs)), None)
                rep.ob("handshake", bad is None and bool(sh.outs), "negotiate.HTTPNegotiateAuth.response_hook", "%s configured, server offers %s, %s" % (auth, offer, alg), bad or "nothing analysed")
                sh.w.done()


def keys(rep, repo):
    for label, script in (("key at once", [[KEY]]), ("asked again", [[ASK, ASK], [KEY]]), ("times out", [[], [], []]), ("nothing decoded", [[KEY], [KEY]])):
        for meth in ("exchange_keys",) if label != "nothing decoded" else ("exchange_keys", "_receive"):
            w = world(rep, repo, script)
            w.cfg.debug_logs = True
            if label != "times out":
                w.cfg.ext["time.time"] = lambda I, st, recv, a, k, ctx, n: [(st, K(0))]
                w.cfg.ext["time.monotonic"] = w.cfg.ext["time.time"]
            st, pool = new_pool(w)
            bad, n = None, 0
            for o in w.I.call_method(st, pool, meth):
                n += 1
                bad = bad or spilt(w, o, set(privates(o)), ("decrypt",), wire=True)
            rep.ob("key", bad is None and n > 0, "RunspacePool.%s" % meth, label, bad or "nothing analysed")
            w.done()


def inst(I, st, v):
    return I.freeze(st, v)


def clear(t):
    """the secret occurs in the term outside what the encryptor is given"""
    return leaks(t, {SECRET})


def secure(rep, repo):
    for cipher in (NONE, T("nn", "cipher")):
        key = "without a key" if cipher == NONE else "with a key"
        for what in ("secure string", "credential", "credential in a message", "credential in pipeline input", "host response"):
            w = World(rep, repo)
            w.cfg.debug_logs = True
            for m in ("serialize", "deserialize"):
                w.cfg.boundary.pop("serializer.Serializer." + m, None)
            I = w.I
            st, ser = serializer(w, cipher)
            known(st, SECRET, T("in_", "name"))
            I.kinds = getattr(I, "kinds", None)
            st.facts[T("isinst", SECRET, ("Element",))] = False
            st.facts[T("isinst", SECRET, ("str",))] = True
            bad, n = None, 0
            if what == "secure string":
                st, mt = meta(w, st, "SS")
                outs = I.call_method(st, ser, "serialize", [SECRET], {"metadata": mt})
            else:
                c = [o for o in I.construct(st, w.p.cls("complex_objects.PSCredential"), [], {"username": T("in_", "name"), "password": SECRET}) if o.sig == "return"][0]
                st, cred = c.st, c.val
                if what == "credential":
                    outs = I.call_method(st, ser, "serialize", [cred])
                else:
                    data = {"credential in pipeline input": ("messages.PipelineInput", {"data": cred}),
                            "credential in a message": ("messages.UserEvent", {"args": cred, "event_id": K(1)}),
                            "host response": ("messages.PipelineHostResponse", {"ci": K(1), "mi": K(17), "mr": cred})}[what]
                    outs = []
                    if what == "host response":
                        mi = [o for o in I.construct(st, w.p.cls("complex_objects.HostMethodIdentifier"), [], {"value": K(17)}) if o.sig == "return"][0]
                        st, data[1]["mi"] = mi.st, mi.val
                    for d in I.construct(st, w.p.cls(data[0]), [], data[1]):
                        for m in I.construct(d.st, w.p.cls("messages.Message"), [K(2), NONE, NONE, d.val, ser]) if d.sig == "return" else []:
                            if m.sig == "return":
                                outs += I.call_method(m.st, m.val, "pack")
            for o in outs:
                if any(v for k, v in o.st.facts.items() if isinstance(k, T) and k.op == "isinst" and k.args[0] == SECRET and "str" not in k.args[1]):
                    continue
                n += 1
                bad = bad or spilt(w, o, {SECRET})
                if o.sig == "return":
                    if cipher == NONE:
                        bad = bad or "it is emitted without a key"
                    elif clear(I.freeze(o.st, o.val)):
                        bad = bad or "it is emitted in the clear: %s" % str(I.freeze(o.st, o.val))[:200]
                elif cipher != NONE:
                    bad = bad or "fails with %s although there is a key" % w.exc(o)
            rep.ob("secure", bad is None and n > 0, "serializer.Serializer.serialize", "%s %s" % (what, key), bad or "nothing analysed")
            w.done()
    # reading one
    w = World(rep, repo)
    w.cfg.debug_logs = True
    for m in ("serialize", "deserialize"):
        w.cfg.boundary.pop("serializer.Serializer." + m, None)
    st, ser = serializer(w, T("nn", "cipher"))
    known(st, T("nn", "received"))
    el = w.I.xml(st, "SS", text=T("nn", "received"))
    bad, n = None, 0
    for o in w.I.call_method(st, ser, "deserialize", [el]):
        n += 1
        # the clear text is what the decryptor gives
        bad = bad or spilt(w, o, set(), ("decryptor", "update", "finalize"))
    rep.ob("secure", bad is None and n > 0, "serializer.Serializer.deserialize", "reading a secure string", bad or "nothing analysed")
    w.done()


def received(rep, repo):
    for kind in ("pool", "pipeline"):
        cn = "RunspacePoolHostCall" if kind == "pool" else "PipelineHostCall"
        cases = [("host call", cn, lambda I, st: {"ci": K(3), "mi": T("in_", "mi"), "mp": st.new(HList([SECRET]))}),
                 ("event", "UserEvent", lambda I, st: {"args": st.new(HList([SECRET])), "data": SECRET}),
                 ("private data", "ApplicationPrivateData", lambda I, st: {"data": SECRET})]
        if kind == "pipeline":
            cases.append(("output", "PipelineOutput", lambda I, st: {"data": SECRET}))
        for con, cls, attrs in cases:
            for host in (None, "host"):
                w = World(rep, repo)
                w.cfg.debug_logs = True
                w.model_fragmenter((1,))
                w.shallow_messages()
                w.p.func("host.PSHost.run_method")
                w.cfg.boundary["host.PSHost.run_method"] = "opaque"
                I, st = w.I, State()
                known(st, T("in_", "ps-id"), T("in_", "pool-id"), SECRET)
                h = I.abs_inst(st, "host.PSHost", "host") if host else NONE
                pool = w.pool(st, K(w.pool_states["OPENED"]), _ci_counter=K(7), host=h, id=T("in_", "pool-id"))
                msg = [(cls, attrs(I, st))]
                if kind == "pool":
                    w.model_replies([msg + [("RunspaceAvailability", {"ci": K(7), "response": K(3)})]])
                    outs = I.call_method(st, pool, "get_available_runspaces")
                else:
                    w.model_replies([msg, [("PipelineState", {"state": K(w.ps_states["COMPLETED"])})]])
                    ps = w.ps(st, pool, K(w.ps_states["RUNNING"]), id=T("in_", "ps-id"))
                    I.setattr_(st, pool, "pipelines", st.new(HDict([(T("in_", "ps-id"), ps)])))
                    outs = I.call_method(st, ps, "poll_invoke")
                bad, n = None, 0
                for o in outs:
                    n += bool(o.st.globals.get("script"))
                    bad = bad or spilt(w, o, {SECRET})
                rep.ob("received", bad is None and n > 0, "RunspacePool._receive", "%s in a %s, %s" % (con, kind, "a host" if host else "no host"), bad or "nothing is read")
                w.done()


    from .c26 import hostworld, run_call
    for mi in (1, 10, 11, 12, 13, 23, 26, 27, 51, 52, 99):
        for full in (True, False):
            w, st, objs, _ = hostworld(rep, repo, full, full)
            w.cfg.debug_logs = True
            args = [T("in_", "arg%d" % i) for i in range(2)]
            known(st, *args)
            bad, outs = None, run_call(w, st, objs["host"], mi, 2)
            for o, _, _, _ in outs:
                bad = bad or spilt(w, o, set(args))
            rep.ob("received", bad is None and bool(outs), "host.PSHost.run_method", "host call %d, %s interface" % (mi, "an" if full else "no"), bad or "no path")
            w.done()


# ---------------------------------------------------------------- string forms
def forms(rep, repo):
    """str() and repr() of every object of the package that was given a secret"""
    w = Http(rep, repo)
    w.cfg.debug_logs = True
    st0 = State()
    known(st0, USER, PW, PEM, KEYPEM, KPW, SECRET)
    made = []
    I = w.I
    for cls, args, kw, sec in (("wsman.WSMan", [ENDPOINT_SERVER], dict(base("negotiate")), PW), ("wsman._TransportHTTP", [ENDPOINT_SERVER], dict(base("basic")), PW),
                               ("wsman._TransportHTTP", [ENDPOINT_SERVER], dict(auth=K("certificate"), ssl=TRUE, certificate_pem=PEM, certificate_key_pem=KEYPEM, certificate_key_password=KPW), KPW),
                               ("negotiate.HTTPNegotiateAuth", [], {"username": USER, "password": PW}, PW), ("client.Client", [ENDPOINT_SERVER], dict(base("negotiate")), PW),
                               ("complex_objects.PSCredential", [], {"username": USER, "password": SECRET}, SECRET)):
        outs = [o for o in I.construct(st0.copy(), w.p.cls(cls), args, kw) if o.sig == "return"]
        for o in outs[:3]:
            made.append((cls, o.st, o.val, {sec}, ()))
        if not outs:
            rep.ob("form", False, cls, "construction", "the object cannot be constructed")
    wk = world(rep, repo, [[KEY]])
    wk.cfg.ext["time.time"] = lambda I, st, recv, a, k, ctx, n: [(st, K(0))]
    wk.cfg.ext["time.monotonic"] = wk.cfg.ext["time.time"]
    st, pool = new_pool(wk)
    for o in wk.I.call_method(st, pool, "exchange_keys"):
        if o.sig == "return":
            made.append(("powershell.RunspacePool", o.st, pool, set(privates(o)), ("decrypt",)))
            ser = wk.final(o, pool, "_serializer")
            if isinstance(ser, Ref):
                made.append(("serializer.Serializer", o.st, ser, set(privates(o)), ("decrypt",)))
    seen = {}
    for cls, st, ref, sec, der in made:
        for m in ("__str__", "__repr__", "__format__"):
            c = st.heap[ref.oid].cls
            if I.p.find_member(c, m) is None:
                seen.setdefault((cls, m), None)
                continue
            W = wk if der else w
            outs = W.I.call_method(st.copy(), ref, m, [K("")] if m == "__format__" else [])
            for o in outs:
                v = W.I.freeze(o.st, o.val) if o.sig == "return" else None
                if o.sig == "return" and leaks(v, sec, der):
                    seen[(cls, m)] = "it is shown: %s" % str(v)[:120]
                else:
                    seen.setdefault((cls, m), spilt(W, o, sec, der))
    for (cls, m), bad in seen.items():
        rep.ob("form", bad is None, cls, m, bad or "")
    w.done()
    wk.done()


# ---------------------------------------------------------------- taint of sink arguments
NAMES = {"password", "certificate_key_password", "key_password", "passwd", "pwd", "decrypted_key", "_exchange_key", "private_key", "cleartext", "clear_text", "secret", "_password"}
SAFE = {"len", "bool", "type", "isinstance", "id", "hasattr", "callable"}
PASS = {"str", "repr", "format", "to_string", "to_unicode", "to_bytes", "bytes", "encode", "decode", "join", "b64encode", "strip", "replace", "hex", "dumps", "dict", "list", "tuple",
        "vars", "upper", "lower", "get", "items", "values", "copy", "format_map", "sorted", "reversed", "map", "pformat", "hexlify", "quote"}
LOGS = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log", "fatal"}


class Taint:
    def __init__(self, fn, holders):
        self.t, self.holders = set(), holders
        a = fn.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.t |= {p for p in self.params if p in NAMES}
        for _ in range(4):
            n = len(self.t)
            for s in ast.walk(fn):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None and self.hot(s.value):
                    for tg in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        self.bind(tg, s.value)
                elif isinstance(s, (ast.For, ast.comprehension)) and self.hot(s.iter):
                    self.bind(s.target, None)
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("append", "extend", "update", "add", "insert", "setdefault") \
                        and any(self.hot(x) for x in list(s.args) + [k.value for k in s.keywords]) and isinstance(s.func.value, ast.Name):
                    self.t.add(s.func.value.id)
            if len(self.t) == n:
                break

    def bind(self, tg, value):
        if isinstance(tg, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(tg.elts) else [None] * len(tg.elts)
            for t, v in zip(tg.elts, vs):
                if v is None or self.hot(v):
                    self.bind(t, v)
        elif isinstance(tg, ast.Name):
            self.t.add(tg.id)
        elif isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name):
            self.t.add(tg.value.id)
        elif isinstance(tg, ast.Starred):
            self.bind(tg.value, None)

    def hot(self, e):
        """the expression's value shows a secret"""
        if isinstance(e, ast.Name):
            return e.id in self.t
        if isinstance(e, ast.Attribute):
            if e.attr == "__dict__":
                return isinstance(e.value, ast.Name) and e.value.id == "self" and self.holders
            return e.attr in NAMES
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant):
                return e.slice.value in NAMES or self.hot(e.value) and not isinstance(e.slice.value, str)
            return self.hot(e.value) or self.hot(e.slice)
        if isinstance(e, (ast.Compare, ast.Constant, ast.Lambda)):
            return False
        if isinstance(e, ast.BoolOp):
            return any(self.hot(v) for v in e.values)
        if isinstance(e, ast.IfExp):
            return self.hot(e.body) or self.hot(e.orelse)
        if isinstance(e, ast.Dict):
            return any(self.hot(v) for v in e.values if v is not None)
        if isinstance(e, ast.Call):
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name in SAFE:
                return False
            args = list(e.args) + [k.value for k in e.keywords]
            if name in ("get", "pop", "getattr") and any(isinstance(a, ast.Constant) and a.value in NAMES for a in e.args):
                return True
            if name == "vars":
                return self.holders and (not args or isinstance(args[0], ast.Name) and args[0].id == "self")
            if name in ("locals",):
                return bool(self.t)
            if name == "decrypt":
                return True
            if name in ("encryptor", "public_key"):
                return False
            if name in PASS:
                return any(self.hot(a) for a in args) or isinstance(f, ast.Attribute) and self.hot(f.value)
            return False
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.hot(e.elt)
        if isinstance(e, ast.DictComp):
            return self.hot(e.value)
        return any(self.hot(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.FormattedValue, ast.keyword)))


def holders(cls):
    """the class keeps a secret in an attribute"""
    return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in NAMES for x in ast.walk(cls))


def sinks(rep, repo):
    w = World(rep, repo)
    for m in sorted(w.p.modules.values(), key=lambda m: m.name):
        parents = {}
        for c in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(c):
                parents[ch] = c
        n = {}
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            p, cl = parents.get(fn), None
            while p is not None:
                if isinstance(p, ast.ClassDef):
                    cl = p
                    break
                p = parents.get(p)
            where = "%s.%s%s" % (m.name, cl.name + "." if cl else "", fn.name)
            ta = Taint(fn, bool(cl and holders(cl)))
            bad, k = None, 0
            for s in ast.walk(fn):
                args, what = None, None
                if isinstance(s, ast.Raise) and s.exc is not None:
                    args, what = ([*s.exc.args, *[x.value for x in s.exc.keywords]], "exception") if isinstance(s.exc, ast.Call) else ([s.exc], "exception")
                elif isinstance(s, ast.Call):
                    f = s.func
                    nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                    owner = ast.unparse(f.value) if isinstance(f, ast.Attribute) else ""
                    if nm in LOGS and ("log" in owner.lower() or owner == "warnings") or nm in ("print", "warn", "pprint") or owner in ("sys.stderr", "sys.stdout"):
                        args, what = list(s.args) + [x.value for x in s.keywords], "log or warning"
                    elif nm.endswith(("Error", "Exception", "Warning", "Fault")):
                        args, what = list(s.args) + [x.value for x in s.keywords], "exception"
                if args is None:
                    continue
                k += 1
                if any(ta.hot(a) for a in args):
                    bad = "line %d: the %s is computed from a secret" % (s.lineno, what)
            if cl and fn.name in ("__str__", "__repr__", "__format__"):
                k += 1
                for s in ast.walk(fn):
                    if isinstance(s, ast.Return) and s.value is not None and ta.hot(s.value):
                        bad = "line %d: the string form is computed from a secret" % s.lineno
            if k:
                i = n[where] = n.get(where, 0) + 1
                rep.ob("sinks", bad is None, where, "%d sinks" % k, bad or "")
    w.done()
