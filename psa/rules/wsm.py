"""The HTTP side: WSMan over a modelled requests.Session; every HTTP exchange of a path is recorded with what was sent."""
from .common import *

SESSION = T("in_", "session")
ENDPOINT_SERVER = T("in_", "server")
OPS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]
# WS-Transfer / WS-Enumeration / MS-WSMV action URIs
WST, WSEN, SHELL = "http://schemas.xmlsoap.org/ws/2004/09/transfer/", "http://schemas.xmlsoap.org/ws/2004/09/enumeration/", \
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/"
ACTIONS = {
    "get": WST + "Get", "put": WST + "Put", "create": WST + "Create", "delete": WST + "Delete", "enumerate": WSEN + "Enumerate",
    "pull": WSEN + "Pull", "command": SHELL + "Command", "connect": SHELL + "Connect", "disconnect": SHELL + "Disconnect",
    "receive": SHELL + "Receive", "reconnect": SHELL + "Reconnect", "send": SHELL + "Send", "signal": SHELL + "Signal",
}
URI, RES = T("in_", "resource-uri"), T("in_", "resource")


class Exchange:
    """one HTTP request of a path: what was sent, how it ended"""
    __slots__ = ("method", "url", "data", "headers", "timeout", "resp", "exc", "auth_only", "prepared", "index", "conf")


# settings that must not change what a rule says: every rule about requests is judged once with the defaults and once with all of
# these configured (minus the ones the rule itself varies)
RICH = {"cert_validation": FALSE, "proxy": K("http://proxy:3128"), "no_proxy": TRUE, "username": K("u"), "password": K("pw"),
        "reconnection_retries": K(3), "port": K(8443), "path": K("some/path"), "connection_timeout": K(7), "read_timeout": K(61),
        "locale": K("fr-FR"), "data_locale": K("de-DE"), "max_envelope_size": K(200000), "operation_timeout": K(45),
        "negotiate_delegate": TRUE, "negotiate_send_cbt": FALSE, "negotiate_service": K("HTTP"), "negotiate_hostname_override": K("other")}
RICH_OP = {"option_set": T("in_", "options"), "selector_set": T("in_", "selectors"), "timeout": K(33)}
BACKGROUND, BACKGROUND_OP = {}, {}


def backgrounds(rep, without=(), op=True):
    """yields twice: with the defaults, and with everything else configured too"""
    for rich in (False, True):
        BACKGROUND.clear()
        BACKGROUND_OP.clear()
        if rich:
            BACKGROUND.update({k: v for k, v in RICH.items() if k not in without})
            if op:
                BACKGROUND_OP.update({k: v for k, v in RICH_OP.items() if k not in without})
            rep.suffix = " (everything configured)"
        yield rich
    BACKGROUND.clear()
    BACKGROUND_OP.clear()
    rep.suffix = ""


class Http(World):
    """`script`: what each HTTP exchange answers: an int status, ("enc", status) for an encrypted body, or an exception name;
    the last entry repeats"""

    def __init__(self, rep, repo, script=(200,), init_script=(200,)):
        World.__init__(self, rep, repo, wire_psrp=False)
        self.script, self.init_script = list(script), list(init_script)
        self.body_truth = True
        self.max_fail = None  # paths with more failed exchanges than this are not forked further
        c = self.cfg
        c.while_max = 12
        c.ext["requests.Session"] = lambda I, st, recv, a, k, ctx, n: self._session(I, st, ctx, n)
        c.ext["requests.sessions.Session"] = c.ext["requests.Session"]
        c.ext["requests.Request"] = self._request
        c.ext["requests.models.Request"] = self._request
        c.ext[".prepare_request"] = self._prepare
        c.ext[".send"] = self._send
        c.ext[".post"] = self._post
        c.ext[".request"] = self._post
        c.ext[".merge_environment_settings"] = self._merge_env
        self.env_ca = [T("in_", "env-ca"), TRUE]
        c.ext[".copy"] = self._copy
        c.ext[".get"] = self._get
        c.ext[".raise_for_status"] = self._raise_for_status
        self.header = "negotiate"
        c.attrs["response_auth_header"] = lambda I, st, v: K(self.header) if self.header and any(
            isinstance(x, T) and x.op == "contexts" for x in subterms(v)) else None

    # ------------------------------------------------------------ model
    def _session(self, I, st, ctx, node):
        n = st.globals.get("nsession", 0)
        st.globals["nsession"] = n + 1
        I.event(st, "session", "requests.Session", None, [], {}, ctx, node)
        v = SESSION if n == 0 else T("in_", "session%d" % n)
        st.facts[T("isnone", v)] = False
        st.facts[T("truth", v)] = True
        return [(st, v)]

    @staticmethod
    def is_session(v):
        return isinstance(v, T) and v.op == "in_" and str(v.args[0]).startswith("session")

    def _request(self, I, st, recv, args, kw, ctx, node):
        names = ["method", "url", "headers", "files", "data"]
        d = dict(zip(names, args))
        d.update(kw)
        hd = d.get("headers", NONE)
        t = T("req", st.uid(), I.freeze(st, d.get("method", NONE)), I.freeze(st, d.get("url", NONE)), I.freeze(st, d.get("data", NONE)), I.freeze(st, hd))
        return [(st, t)]

    def _prepare(self, I, st, recv, args, kw, ctx, node):
        r = args[0] if args else kw.get("request")
        if isinstance(r, T) and r.op == "req":
            return [(st, T("prep", self.is_session(recv), r))]
        return None

    def _post(self, I, st, recv, args, kw, ctx, node):
        if not self.is_session(recv):
            return None
        return self._exchange(I, st, T("req", st.uid(), K("POST"), I.freeze(st, args[0] if args else kw.get("url", NONE)), I.freeze(st, kw.get("data", NONE)),
                                       I.freeze(st, kw.get("headers", NONE))), True, kw.get("timeout", NONE), ctx, node, kw)

    def _send(self, I, st, recv, args, kw, ctx, node):
        if not self.is_session(recv):
            return None
        r = args[0] if args else kw.get("request", NONE)
        if isinstance(r, T) and r.op == "prep":
            return self._exchange(I, st, r.args[1], r.args[0], kw.get("timeout", NONE), ctx, node, kw)
        return self._exchange(I, st, T("req", st.uid(), K("?"), NONE, I.freeze(st, r), NONE), False, kw.get("timeout", NONE), ctx, node, kw)

    def _exchange(self, I, st, req, prepared, timeout, ctx, node, kw=()):
        empty = req.args[3] in (NONE, K(b""), K(""))
        which = "init" if empty else "body"
        sc = self.init_script if empty else self.script
        k = st.globals.get(("nhttp", which), 0)
        st.globals[("nhttp", which)] = k + 1
        step = sc[min(k, len(sc) - 1)]
        out = []
        fails = st.globals.get("nfail", 0)
        if self.max_fail is not None and fails - st.globals.get("nfail0", 0) >= self.max_fail:
            step = 200
        for one in (step if isinstance(step, list) else [step]):
            s = st.copy()
            if isinstance(one, str):
                s.globals["nfail"] = fails + 1
            i = s.globals.get("nhttp", 0)
            s.globals["nhttp"] = i + 1
            resp = T("resp", i)
            exc = None
            if isinstance(one, str):
                if one.startswith("pkg:"):
                    s, exc = [(o.st, o.val) for o in I.construct(s, self.p.cls(one[4:]), [], {}) if o.sig == "return"][0]
                else:
                    exc = I.mk_exc(one)
            else:
                enc, status = one if isinstance(one, tuple) else ("", one)
                s.globals[("tattr", resp, "status_code")] = K(status)
                s.globals[("tattr", resp, "ok")] = K(status < 400)
                s.globals[("ctype", resp)] = {"": K("application/soap+xml;charset=UTF-8"),
                                              "enc": K('multipart/encrypted;protocol="application/HTTP-SPNEGO-session-encrypted";boundary="Encrypted Boundary"'),
                                              "xenc": K('multipart/x-multi-encrypted;protocol="application/HTTP-CredSSP-session-encrypted";boundary="Encrypted Boundary"'),
                                              "none": None}.get(enc, K(enc))
                ct = s.globals[("ctype", resp)]
                for n in ("content-type", "Content-Type") if ct is not None else ():
                    s.globals[("titem", T("attr", resp, "headers"), K(n))] = ct
                if self.body_truth is not None:
                    s.facts[T("truth", T("attr", resp, "content"))] = self.body_truth
            if empty and exc is None:
                self._authenticated(I, s, i)
            x = Exchange()
            x.method, x.url, x.data, x.headers = req.args[1:5]
            x.timeout = I.freeze(s, timeout)
            x.conf = {n: I.freeze(s, kw[n] if n in kw else s.globals.get(("tattr", SESSION, n), NONE)) for n in ("verify", "proxies", "cert")}
            x.resp, x.exc, x.auth_only, x.prepared, x.index = resp, exc, empty, prepared, i
            I.event(s, "http", "exchange", None, [], {}, ctx, node, res=x)
            if exc is not None:
                from ..values import Raised as R
                out.append((s, R(exc, ctx.module.name, getattr(node, "lineno", 0))))
            else:
                out.append((s, resp))
        return out

    def _authenticated(self, I, st, i):
        """the HTTP library runs the authentication hooks: the auth object then holds a context for the host"""
        auth = st.globals.get(("tattr", SESSION, "auth"))
        if isinstance(auth, Ref) and isinstance(st.heap[auth.oid], HInst) and isinstance(st.heap[auth.oid].attrs.get("contexts"), Ref):
            d = st.heap[auth.oid].attrs["contexts"]
            st.heap[d.oid] = HDict((), open=True, name=T("contexts", i))

    def _merge_env(self, I, st, recv, args, kw, ctx, node):
        """requests: environment proxies and CA bundle merged over the given and the session's settings"""
        if not self.is_session(recv):
            return None
        d = dict(zip(("url", "proxies", "stream", "verify", "cert"), args))
        d.update(kw)
        trust = st.globals.get(("tattr", recv, "trust_env"), TRUE) != FALSE
        v = I.freeze(st, d.get("verify", NONE))
        sess = st.globals.get(("tattr", recv, "verify"), TRUE)
        outs = []
        if trust and v in (NONE, TRUE):
            alts = [x if x != TRUE else (sess if v == NONE else TRUE) for x in self.env_ca]
        else:
            alts = [sess if v == NONE else v]
        for a in alts:
            s = st.copy()
            I.event(s, "meth", "merge_environment_settings", recv, [], {"url": d.get("url", NONE), "verify": v}, ctx, node)
            px = T("in_", "env-proxies") if trust else T("in_", "no-env-proxies")
            for t in (px, a):
                if isinstance(t, T):
                    s.facts[T("isnone", t)] = False
            outs.append((s, s.new(HDict([(K("proxies"), px), (K("stream"), FALSE), (K("verify"), a), (K("cert"), NONE)]))))
        return outs

    def _copy(self, I, st, recv, args, kw, ctx, node):
        if isinstance(recv, T) and recv.op == "attr" and self.is_session(recv.args[0]) and recv.args[1] == "headers":
            extra = [(k[2], v) for k, v in st.globals.items() if isinstance(k, tuple) and k[0] == "titem" and k[1] == recv]
            return [(st, st.new(HDict(extra, open=True, name=T("session-headers"))))]
        return None

    def _get(self, I, st, recv, args, kw, ctx, node):
        if isinstance(recv, T) and recv.op == "attr" and recv.args[1] == "headers" and isinstance(recv.args[0], T) and recv.args[0].op == "resp" and args \
                and isinstance(args[0], K) and str(args[0].v).lower() == "content-type":
            v = st.globals.get(("ctype", recv.args[0]))
            return [(st, v if v is not None else (args[1] if len(args) > 1 else NONE))]
        return None

    def _raise_for_status(self, I, st, recv, args, kw, ctx, node):
        if isinstance(recv, T) and recv.op == "resp":
            code = st.globals.get(("tattr", recv, "status_code"))
            if code.v >= 400:
                e = T("exc", "requests.exceptions.HTTPError", recv)
                st.globals[("tattr", e, "response")] = recv
                return [(st, Raised(e, ctx.module.name, getattr(node, "lineno", 0)))]
            return [(st, NONE)]
        return None

    # ------------------------------------------------------------ reading paths
    def http(self, o):
        return [e.res for e in o.events if e.kind == "http"]

    def wsman(self, st, **kw):
        """WSMan objects built by the real constructor -> [(st, ref)]"""
        a = {"ssl": FALSE, "auth": K("negotiate"), "encryption": K("auto")}
        a.update(BACKGROUND)
        a.update(kw)
        outs = self.I.construct(st, self.p.cls("wsman.WSMan"), [ENDPOINT_SERVER], a)
        return [(o.st, o.val) for o in outs if o.sig == "return"]

    def wrap_boundary(self):
        """message protection as a boundary: (content type, ciphertext) of the clear text; clear text of a body"""
        def wrap(I, st, fv, args, kw, ctx, node):
            out = []
            for s, v in I.boundary_event(st, fv, args, kw, ctx, node):
                if not isinstance(v, Raised):
                    ev = s.trace[1]
                    msg = ev.fkw[0][1] if ev.fkw else NONE
                    tok = s.uid()
                    v = T("tuple", T("ctype", tok), T("sealed", tok, ev.frecv, msg))
                    ev.res = v
                out.append((s, v))
            return out

        def unwrap(I, st, fv, args, kw, ctx, node):
            out = []
            for s, v in I.boundary_event(st, fv, args, kw, ctx, node):
                if not isinstance(v, Raised):
                    ev = s.trace[1]
                    v = T("opened", ev.fkw[0][1] if ev.fkw else NONE)
                    s.facts[T("isnone", v)] = False
                    ev.res = v
                out.append((s, v))
            return out
        for m, h in (("wrap_message", wrap), ("unwrap_message", unwrap)):
            self.p.func("encryption.WinRMEncryption." + m)
            self.cfg.boundary["encryption.WinRMEncryption." + m] = h

    def fault_boundary(self):
        """reading a SOAP fault out of a body is not entered (its own rules: C07)"""
        try:
            self.p.func("wsman.WSMan._parse_wsman_fault")
        except AnalysisError:
            return
        self.cfg.boundary["wsman.WSMan._parse_wsman_fault"] = "opaque"

    def op(self, st, ref, op, **kw):
        """run WSMan.<op>(resource_uri, resource, ...)"""
        for v in BACKGROUND_OP.values():
            st.facts[T("isnone", v)] = False
            st.facts[T("truth", v)] = True
        return self.I.call_method(st, ref, op, [URI, RES], dict(BACKGROUND_OP, **kw))


def sent_xml(t):
    """xml tree of a serialised document"""
    for x in subterms(t):
        if isinstance(x, T) and x.op == "xml":
            return x
    return None


def local(tag):
    return tag.v.rsplit("}", 1)[-1] if isinstance(tag, K) and isinstance(tag.v, str) else None


def find(x, *path):
    """first descendant of the frozen xml term with these local names"""
    for p in path:
        nxt = [c for c in x.args[3] if isinstance(c, T) and c.op == "xml" and local(c.args[0]) == p]
        if not nxt:
            return None
        x = nxt[0]
    return x
