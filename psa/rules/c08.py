"""C08: only receives are resent, boundedly, under a fresh security context."""
from .wsm import *

TECHNIQUE = "static analysis: exhaustive path enumeration of the send loop under every sequence of timeouts at the handshake and the request"
RT, CT = "requests.exceptions.ReadTimeout", "requests.exceptions.ConnectTimeout"


def run(rep, repo, tier):
    rep.rule("once", "every operation but receive is sent at most once; the timeout reaches the caller", 24)
    rep.rule("other", "no operation but receive is sent again after any other connection failure", 12)
    rep.rule("bounded", "with n resends allowed, the n+1st timeout (handshake and request together) is raised and nothing more is sent", 8)
    rep.rule("receive", "a receive is sent again after a timeout, a bounded number of times", 2)
    rep.rule("fresh", "after a timed-out request nothing is sent before a new security context was set up, and only under that context", 5)
    rep.rule("adapter", "the HTTP library itself never repeats a request that may have been delivered", 2)
    for _ in backgrounds(rep):
        for op in OPS:
            for enc, ssl in (("auto", FALSE), ("auto", TRUE)):
                if op == "receive":
                    receive(rep, repo, enc, ssl)
                else:
                    once(rep, repo, op, enc, ssl, "once", [[RT, CT]], [[RT, CT, 200]])
            if op != "receive":
                once(rep, repo, op, "auto", FALSE, "other",
                     [["requests.exceptions.ConnectionError", "requests.exceptions.SSLError", "requests.exceptions.ChunkedEncodingError"]],
                     [["requests.exceptions.ConnectionError", 200]])
        for i, op in enumerate(OPS):
            refused(rep, repo, op, FALSE if i % 2 else TRUE)
        for n in range(4 if tier == "quick" else 6):
            for ssl in (FALSE, TRUE):
                bounded(rep, repo, n, ssl)
        adapter(rep, repo)


def kind_of(w, o, x):
    return w.I.exc_name(o.st, Raised(x)) if x is not None else None


def last_exc(w, o, xs):
    return bool(xs) and xs[-1].exc is not None and o.exc is not None and o.exc.v == xs[-1].exc


def once(rep, repo, op, enc, ssl, rule, script, init):
    w = Http(rep, repo, script=script, init_script=init)
    w.max_fail = 3
    w.wrap_boundary()
    con = "%s %s" % (op, "https" if ssl == TRUE else "http")
    bad = None
    n = 0
    for s, ref in w.wsman(State(), encryption=K(enc), ssl=ssl)[:1]:
        for o in w.op(s, ref, op):
            xs = w.http(o)
            n += 1
            if len([x for x in xs if not x.auth_only]) > 1 or len([x for x in xs if x.exc is not None]) > 1:
                bad = "sent again after %s: %d requests" % (kind_of(w, o, xs[0].exc), len(xs))
            elif o.sig != "raise" or not last_exc(w, o, xs):
                bad = "the failure of the request does not reach the caller (%s %s)" % (o.sig, w.exc(o))
    if w.I.cut:
        bad = "the request is repeated without bound"
    if not n:
        bad = bad or "nothing analysed"
    rep.ob(rule, bad is None, "wsman.WSMan.%s" % op, con, bad or "")
    w.done()


def refused(rep, repo, op, ssl):
    """an error status is an answer: the request was delivered, and is not sent again whatever the operation"""
    w = Http(rep, repo, script=[401, 500, 503, 429, 408])
    w.script = [[401, 500, 503, 429, 408]]
    w.wrap_boundary()
    w.fault_boundary()
    bad, n = None, 0
    for s, ref in w.wsman(State(), ssl=ssl)[:1]:
        for o in w.op(s, ref, op):
            xs = [x for x in w.http(o) if not x.auth_only]
            n += 1
            if len(xs) > 1:
                bad = "sent again after status %s" % o.st.globals.get(("tattr", xs[0].resp, "status_code"))
    if w.I.cut:
        bad = "the request is repeated without bound"
    rep.ob("other", bad is None and n > 0, "wsman.WSMan.%s" % op, "%s, refused with an error status" % op, bad or "nothing analysed")
    w.done()


def receive(rep, repo, enc, ssl):
    w = Http(rep, repo, script=[RT])
    w.wrap_boundary()
    bad = None
    n = 0
    for s, ref in w.wsman(State(), encryption=K(enc), ssl=ssl)[:1]:
        for o in w.op(s, ref, "receive"):
            k = len([x for x in w.http(o) if not x.auth_only])
            n += 1
            if o.sig != "raise" or not last_exc(w, o, w.http(o)):
                bad = "the timeout does not reach the caller"
            elif k < 2:
                bad = "a receive is not sent again after a timeout"
    if w.I.cut or not n:
        bad = "a receive is repeated without bound"
    rep.ob("receive", bad is None, "wsman.WSMan.receive", "receive %s" % ("https" if ssl == TRUE else "http"), bad or "")
    w.done()


def bounded(rep, repo, n, ssl):
    """all sequences of {timeout, answer} for an invoke allowing n resends"""
    w = Http(rep, repo, script=[[RT, CT, 200]], init_script=[[RT, CT, 200]])
    w.wrap_boundary()
    I = w.I
    con = "%d resends, %s" % (n, "https" if ssl == TRUE else "http")
    bad = fresh = None
    count = stops = 0
    for s, ref in w.wsman(State(), ssl=ssl)[:1]:
        # a warm connection: one answered request first
        w.script = w.init_script = [200]
        warm = [o for o in w.op(s.copy(), ref, "get") if o.sig == "return"][:1]
        if not warm:
            rep.ob("bounded", False, "wsman.WSMan.invoke", con, "no request succeeds")
            return
        w.script = [[RT, CT, 200]] if n < 3 else [[RT, 200]]
        w.max_fail = n + 2
        w.init_script = w.script
        starts = [(s.copy() if n < 2 else None, 0), (warm[0].st, len(w.http(warm[0])))]
        for s0, skip in starts:
            if s0 is None:
                continue
            outs = I.call_method(s0, ref, "invoke", [K("act"), URI, RES], {"retries_on_read_timeout": K(n)})
            seen = set()
            for o in outs:
                xs = w.http(o)
                sig = (o.sig, tuple((x.auth_only, kind_of(w, o, x.exc)) for x in xs), skip)
                if sig in seen:
                    continue
                seen.add(sig)
                count += 1
                new = xs[skip:]
                fails = [x for x in new if x.exc is not None]
                if not new:
                    bad = "nothing was sent"
                    continue
                if new[-1].exc is not None:
                    stops += 1
                    if len(fails) != n + 1 or not last_exc(w, o, xs):
                        bad = "%d timeouts, then %s %s" % (len(fails), o.sig, w.exc(o))
                elif new[-1].auth_only or len(fails) > n or len([x for x in new if not x.auth_only and x.exc is None]) != 1:
                    bad = "%d requests after %d timeouts although one was answered (%s %s)" % (len(new), len(fails), o.sig, w.exc(o))
                if ssl == FALSE:
                    fresh = fresh or contexts(xs)
                    if o.sig == "raise" and new[-1].exc is not None and len(seen) < 12:
                        keep = w.script
                        w.script = w.init_script = [200]
                        for o2 in w.op(o.st, ref, "get")[:3]:
                            fresh = fresh or contexts(w.http(o2))
                        w.script = w.init_script = keep
    if w.I.cut:
        bad = "the request is repeated without bound"
    if not stops:
        bad = bad or "the timeout is never raised"
    rep.ob("bounded", bad is None, "wsman.WSMan.invoke", con, bad or "")
    if ssl == FALSE:
        rep.ob("fresh", fresh is None, "wsman.WSMan.invoke", con, fresh or "")
    if n == 1 and ssl == FALSE:
        rep.ob("fresh", count > 6, "wsman.WSMan.invoke", "sequences enumerated", "only %d sequences" % count)
    w.done()


def contexts(xs):
    """None, or why an exchange of the path is sent under a context set up before a timeout"""
    since = -1  # index of the last timed-out exchange
    auth = -1   # index of the last answered handshake
    used_before = set()
    cur = set()
    for x in xs:
        if x.auth_only:
            if x.exc is None:
                auth = x.index
        else:
            sealed = [t for t in subterms(x.data) if isinstance(t, T) and t.op == "sealed"]
            if not sealed:
                return "a request is sent without protection"
            enc = sealed[0].args[1]
            if auth <= since:
                return "after a timed-out request a message is sent before the security context is set up again"
            if enc in used_before:
                return "after a timed-out request the old security context is used again"
            ctxs = [t for t in subterms(enc) if isinstance(t, T) and t.op == "contexts"]
            if ctxs and max(t.args[0] for t in ctxs) <= since:
                return "the security context used predates the timed-out request"
            cur.add(enc)
        if x.exc is not None:
            since = x.index
            used_before |= cur
    return None


def adapter(rep, repo):
    w = Http(rep, repo)
    w.wrap_boundary()
    bad = {"Retry": None, "HTTPAdapter": None}
    for s, ref in w.wsman(State(), reconnection_retries=K(3))[:1]:
        outs = w.op(s, ref, "get")
        for o in outs:
            for e in o.events:
                if e.kind not in ("ext", "meth", "pkg"):
                    continue
                if e.kind == "ext" and e.name.endswith(".Retry"):
                    rd = e.arg(4, "read") if len(e.fargs) > 4 else e.arg(2, "read")
                    if rd not in (K(0), FALSE) and e.arg(0, "total") not in (K(0), FALSE):
                        bad["Retry"] = "Retry(read=%r) lets the HTTP library send a request again after it was delivered" % (rd,)
                    if e.arg(None, "other") not in (None, NONE, K(0)):
                        bad["Retry"] = "Retry(other=%r)" % (e.arg(None, "other"),)
                    for nm in ("allowed_methods", "method_whitelist"):
                        if e.arg(None, nm) is not None:
                            bad["Retry"] = "Retry(%s=%r) repeats requests the server may have carried out" % (nm, e.arg(None, nm))
                for k, x in e.fkw:
                    if k == "max_retries" and isinstance(x, K) and x.v not in (0, None, False):
                        bad["HTTPAdapter"] = "max_retries=%r repeats requests after connection failures of any kind" % (x.v,)
        if not outs:
            bad["Retry"] = "nothing analysed"
    for k, m in bad.items():
        rep.ob("adapter", m is None, "wsman._TransportHTTP._build_session", k, m or "")
    w.done()
