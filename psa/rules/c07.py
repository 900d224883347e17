"""C07: HTTP and WSMan failures always surface, as the documented exception."""
from .wsm import *

TECHNIQUE = "static analysis: path enumeration with every HTTP status as answer and every request failing, tracing which exception leaves the operation"
TIMEDOUT = 0x80338029
FC = T("in_", "fault-code")
STATUSES = [400, 403, 404, 407, 410, 500, 502, 503]


def run(rep, repo, tier):
    rep.rule("auth", "status 401 ends in AuthenticationError, for the authentication request and every operation", 14)
    rep.rule("status", "any other error status ends in an error: nothing is returned as data", 8)
    rep.rule("fault", "the fault raised is read from this response's body; without a SOAP fault the transport error carries status and body", 8)
    rep.rule("poll", "while polling only the operation-timed-out fault counts as 'no data yet'; every other fault reaches the caller", 6)
    rep.rule("surface", "a fault answered to any other request reaches the caller unchanged", 12)
    for _ in backgrounds(rep):
        for op in OPS:
            unauthorised(rep, repo, op, False)
        unauthorised(rep, repo, "send", True)
        for a in ("basic", "certificate", "credssp", "kerberos", "ntlm"):
            for op in ("create", "receive"):
                unauthorised(rep, repo, op, False, a)
        for i, op in enumerate(OPS):
            status(rep, repo, op, STATUSES if tier != "quick" or op in ("send", "receive") else [STATUSES[i % len(STATUSES)], 500])
        status(rep, repo, "send", [500, 404], enc=True)
        fault(rep, repo)
        poll(rep, repo, "PowerShell")
        poll(rep, repo, "Process")
        surface_shell(rep, repo)
        surface_pool(rep, repo)


def is_body(t, resp, enc=False):
    """the text (or decrypted text) of this response"""
    return any(x in (T("attr", resp, "text"), T("attr", resp, "content")) for x in subterms(t))


CREDS = {"username": T("in_", "u"), "password": T("in_", "p"), "certificate_pem": T("in_", "pem"), "certificate_key_pem": T("in_", "keypem")}


def unauthorised(rep, repo, op, handshake, auth=None):
    w = Http(rep, repo, script=[401], init_script=[401 if handshake else 200])
    w.wrap_boundary()
    bad, n = None, 0
    st = State()
    for t in CREDS.values():
        st.facts[T("isnone", t)] = False
        st.facts[T("truth", t)] = True
    more = dict(CREDS, auth=K(auth), ssl=TRUE) if auth else {}
    for s, ref in w.wsman(st, **dict({"encryption": K("auto" if handshake or auth else "never")}, **more))[:1]:
        for o in w.op(s, ref, op):
            if not w.http(o):
                continue
            n += 1
            if o.sig != "raise" or w.exc(o) != "AuthenticationError":
                bad = "a 401 answer ends in %s" % (w.exc(o) or "a normal return")
    con = "authentication request" if handshake else "%s, %s" % (op, auth) if auth else op
    rep.ob("auth", bad is None and n > 0, "wsman.WSMan.%s" % op, con, bad or ("" if n else "no request is sent"))
    w.done()


def parse_forks(w):
    """the body is either not XML, XML without a fault, or a fault"""
    def fs(I, st, recv, args, kw, ctx, node):
        a = I.freeze(st, args[0]) if args else NONE
        out = []
        s = st.copy()
        out.append((s, Raised(I.mk_exc("ET.ParseError"), ctx.module.name, getattr(node, "lineno", 0))))
        s.globals["parse"] = "fail"
        s = st.copy()
        s.globals["parse"] = "ok"
        out.append((s, T("doc", a)))
        return out

    def find(I, st, recv, args, kw, ctx, node):
        if not (isinstance(recv, T) and recv.op in ("doc", "el")):
            return None
        path = args[0].v if args and isinstance(args[0], K) else None
        v = T("el", recv, K(path))
        if isinstance(path, str) and path.rsplit("/", 1)[-1].split("}")[-1].split(":")[-1] == "Fault" and recv.op == "doc":
            out = []
            for has in (True, False):
                s = st.copy()
                s.globals["fault"] = has
                if has:
                    s.facts[T("isnone", v)] = False
                    s.facts[T("truth", v)] = True
                out.append((s, v if has else NONE))
            return out
        out = [(st, v)]
        st.facts[T("isnone", v)] = False
        if isinstance(path, str) and path.endswith("WSManFault"):
            out.append((st.copy(), NONE))
        return out
    for n in ("ET.fromstring", "ET.XML", "xml.etree.ElementTree.fromstring", "xml.etree.ElementTree.XML"):
        w.cfg.ext[n] = fs
    w.cfg.ext[".find"] = find


def status(rep, repo, op, codes, enc=False):
    st_bad, fl_bad, n, kinds = [], [], 0, set()
    for code in codes:
        w = Http(rep, repo, script=[("enc", code) if enc else code])
        w.wrap_boundary()
        parse_forks(w)
        w.body_truth = True
        for s, ref in w.wsman(State(), encryption=K("auto" if enc else "never"))[:1]:
            for o in w.op(s, ref, op):
                xs = [x for x in w.http(o) if not x.auth_only]
                if not xs:
                    continue
                n += 1
                if o.sig != "raise":
                    st_bad.append("status %d is returned to the caller as data" % code)
                    continue
                name = w.exc(o)
                isfault = o.st.globals.get("parse") == "ok" and o.st.globals.get("fault", None) is True
                kinds.add((name, isfault))
                args = exc_args(w, o)
                if name == "WSManFaultError":
                    if not isfault:
                        fl_bad.append("status %d without a SOAP fault is raised as WSManFaultError: its status and body are lost" % code)
                    elif not any(is_body(t, xs[-1].resp) for t in args):
                        fl_bad.append("the fault raised does not come from this response's body")
                    elif enc and not any(isinstance(t, T) and t.op == "opened" for a in args for t in subterms(a)):
                        fl_bad.append("the fault is read from the undecrypted body")
                elif name == "WinRMTransportError":
                    if isfault:
                        fl_bad.append("a SOAP fault with status %d is raised as a transport error" % code)
                    elif K(code) not in args:
                        fl_bad.append("the transport error does not carry status %d" % code)
                    elif not any(is_body(t, xs[-1].resp) for t in args):
                        fl_bad.append("the transport error does not carry the response body")
                else:
                    fl_bad.append("status %d ends in %s" % (code, name))
        w.done()
    con = "%s%s" % (op, " (encrypted)" if enc else "")
    if not n:
        st_bad.append("no request is sent")
    if not {True, False} <= {k[1] for k in kinds} and not st_bad:
        fl_bad.append("a fault and a body without one are not told apart")
    rep.ob("status", not st_bad, "wsman.WSMan.%s" % op, con, "; ".join(sorted(set(st_bad))[:2]))
    rep.ob("fault", not fl_bad, "wsman.WSMan.%s" % op, con, "; ".join(sorted(set(fl_bad))[:2]))


def exc_args(w, o):
    v = o.exc.v
    if isinstance(v, Ref):
        a = o.st.heap[v.oid].attrs.get("args")
        if a is not None:
            a = w.I.freeze(o.st, a)
            return list(a.args) if isinstance(a, T) and a.op == "tuple" else [a]
        return [w.I.freeze(o.st, v)]
    return [x for x in v.args[1:]] if isinstance(v, T) else []


def fault(rep, repo):
    """empty body with an error status: transport error with that status"""
    w = Http(rep, repo, script=[500])
    w.wrap_boundary()
    parse_forks(w)
    w.body_truth = False
    bad, n = None, 0
    for s, ref in w.wsman(State(), encryption=K("never"))[:1]:
        for o in w.op(s, ref, "get"):
            if o.sig == "return":
                bad = "an error status without a body is returned as data"
            if o.st.globals.get("parse") == "fail" or o.st.globals.get("parse") is None:
                n += 1
                if w.exc(o) != "WinRMTransportError" or K(500) not in exc_args(w, o):
                    bad = bad or "an error status without a body ends in %s" % w.exc(o)
    rep.ob("fault", bad is None and n > 0, "wsman.WSMan.invoke", "empty body", bad or "")
    w.done()


# ------------------------------------------------------------------ faults answered to requests
def failing(w, code, only=None, exc="fault"):
    """every wire request either answers or fails with a WSManFaultError of this code"""
    def make(I, s):
        if exc != "fault":
            return I.mk_exc(exc)
        outs = [o for o in I.construct(s, w.p.cls("exceptions.WSManFaultError"), [code] + [NONE] * 5, {}) if o.sig == "return"]
        v = outs[0].val
        s.globals["thefault"] = v
        return v

    w.cfg.raises = lambda ev, st: [(make,)] if ev.kind == "pkg" and ev.name in w.wire and (only is None or ev.name == only) else ()


def poll(rep, repo, who):
    for label, code in (("timed out", K(TIMEDOUT)), ("other code", FC), ("text code", K("wsman:TimedOut")), ("no code", NONE),
                        ("unexpected selectors", K(0x8033805B)), ("not a fault", "requests.exceptions.ConnectionError")):
        w = World(rep, repo)
        w.shallow_messages()
        w.model_replies([[("PipelineState", {"state": K(w.ps_states["COMPLETED"]), "error_record": NONE})]])
        I = w.I
        st = State()
        failing(w, code if not isinstance(code, str) else None, exc="fault" if not isinstance(code, str) else code)
        if who == "PowerShell":
            pool = w.pool(st)
            obj = w.ps(st, pool, K(w.ps_states["RUNNING"]))
        else:
            obj = I.abs_inst(st, "shell.Process", "proc", state=K("Running"), shell=I.abs_inst(st, "shell.WinRS", "shell", root=False))
        before = {k: I.freeze(st, I.getattr_(st, obj, k)) for k in ("state",)}
        outs = I.call_method(st, obj, "poll_invoke")
        bad, n = None, 0
        for o in outs:
            f = [e for e in w.wires(o) if e.exc is not None]
            if not f:
                continue
            n += 1
            timed = code == K(TIMEDOUT) or code == FC and any(
                v is True and a.op == "==" and FC in a.args and K(TIMEDOUT) in a.args for a, v in o.st.facts.items())
            if timed:
                if o.sig != "return":
                    bad = "the operation-timed-out fault is raised to the poller (%s)" % w.exc(o)
                elif I.freeze(o.st, w.final(o, obj, "state")) != before["state"]:
                    bad = "the operation-timed-out fault changes the recorded state"
            elif o.sig != "raise":
                bad = "a fault other than operation-timed-out is swallowed while polling"
            elif o.exc.v != f[-1].exc:
                bad = "the fault is replaced by %s" % w.exc(o)
        rep.ob("poll", bad is None and n > 0, "%s.poll_invoke" % who, label, bad or ("" if n else "nothing is polled"))
        w.done()


def judge_surface(rep, w, where, con, outs):
    bad, n = None, 0
    for o in outs:
        f = [e for e in w.wires(o) if e.exc is not None]
        if not f:
            continue
        n += 1
        if o.sig != "raise":
            bad = "a fault answered to %s is swallowed" % f[0].name
        elif o.exc.v != f[0].exc:
            bad = "a fault answered to %s is replaced by %s" % (f[0].name, w.exc(o))
    rep.ob("surface", bad is None and n > 0, where, con, bad or ("" if n else "no request is sent"))
    w.done()


def surface_shell(rep, repo):
    args = {"open": [], "close": [], "command": [T("in_", "exe"), NONE], "receive": [], "send": [K("stdin"), T("in_", "data")],
            "signal": [T("in_", "code"), T("in_", "cid")]}
    for m, a in args.items():
        w = World(rep, repo, wire_psrp=False)
        for x in WSMAN_OPS:
            if x in w.p.cls("wsman.WSMan").methods:
                w.boundary("wsman.WSMan." + x)
        w.boundary("wsman.WSMan.invoke")
        failing(w, FC)
        st = State()
        wsm = w.I.abs_inst(st, "wsman.WSMan", "wsman")
        sh = [o for o in w.I.construct(st, w.p.cls("shell.WinRS"), [wsm], {}) if o.sig == "return"][0]
        st, sh = sh.st, sh.val
        w.I.setattr_(st, sh, "opened", K(m != "open"))
        judge_surface(rep, w, "WinRS.%s" % m, m, w.I.call_method(st, sh, m, a))
    for m, a in (("begin_invoke", []), ("send", [T("in_", "data")]), ("signal", [T("in_", "code")])):
        w = World(rep, repo)
        failing(w, FC)
        st = State()
        pr = w.I.abs_inst(st, "shell.Process", "proc", shell=w.I.abs_inst(st, "shell.WinRS", "shell", root=False))
        judge_surface(rep, w, "Process.%s" % m, m, w.I.call_method(st, pr, m, a))


def surface_pool(rep, repo):
    cases = [("open", "BEFORE_OPEN", []), ("close", "OPENED", []), ("connect", "DISCONNECTED", []), ("disconnect", "OPENED", []),
             ("reset_runspace_state", "OPENED", []), ("get_available_runspaces", "OPENED", []), ("exchange_keys", "OPENED", [])]
    for m, s, a in cases:
        w = World(rep, repo)
        w.model_fragmenter((1, 2))
        w.shallow_messages()
        w.model_replies([[]])
        failing(w, FC)
        st = State()
        pool = w.pool(st, K(w.pool_states[s]))
        judge_surface(rep, w, "RunspacePool.%s" % m, m, w.I.call_method(st, pool, m, a))
    for m, s in (("begin_invoke", "NOT_STARTED"), ("stop", "RUNNING"), ("close", "COMPLETED")):
        w = World(rep, repo)
        w.model_fragmenter((1, 2))
        w.shallow_messages()
        w.model_replies([[("PipelineState", {"state": K(w.ps_states["COMPLETED"]), "error_record": NONE})]])
        only = {"stop": "shell.WinRS.signal", "close": "shell.WinRS.signal"}.get(m)
        failing(w, FC, only)
        st = State()
        pool = w.pool(st)
        ps = w.ps(st, pool, K(w.ps_states[s]), _from_disconnect=FALSE)
        w.I.setattr_(st, ps, "commands", st.new(HList([w.I.abs_inst(st, "complex_objects.Command", "cmd", root=False)])))
        judge_surface(rep, w, "PowerShell.%s" % m, m, w.I.call_method(st, ps, m))
