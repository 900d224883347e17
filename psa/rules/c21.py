"""C21: a given operation timeout is on the wire of every request of the call and the HTTP layer waits longer."""
from .c20 import *

TECHNIQUE = "static analysis: path enumeration from every public call taking a timeout down to the HTTP exchange; timeouts compared as linear terms"
RT, CT = "requests.exceptions.ReadTimeout", "requests.exceptions.ConnectTimeout"
CONN, READ = T("in_", "connection_timeout"), T("in_", "read_timeout")


def run(rep, repo, tier):
    rep.rule("given", "the operation timeout of the request is the given one and every HTTP exchange of the call waits longer", 39)
    rep.rule("default", "without one, the connection's operation timeout and the configured connect and read timeouts are used", 39)
    rep.rule("resend", "a repeated request keeps the given timeout", 2)
    rep.rule("layers", "polling a process or pipeline and checking a pool pass the timeout down to every request they make", 6)
    for _ in backgrounds(rep, set(CONF) | {"connection_timeout", "read_timeout", "timeout"}):
        for op in OPS:
            for con, kw in (("https", {"ssl": TRUE}), ("http encrypted", {"ssl": FALSE}), ("http plain", {"ssl": FALSE, "encryption": K("never")})):
                one(rep, repo, op, con, kw, True)
                one(rep, repo, op, con, kw, False)
        resend(rep, repo)
        for a, b in (("receive", "send"), ("get", "get"), ("create", "delete"), ("send", "receive")):
            for con, kw in (("https", {"ssl": TRUE}), ("http encrypted", {"ssl": FALSE})):
                history(rep, repo, a, b, con, kw)
        for t in (True, False):
            layer(rep, repo, t, "shell.Process", "poll_invoke")
            layer(rep, repo, t, "powershell.PowerShell", "poll_invoke")
            layer(rep, repo, t, "powershell.RunspacePool", "is_alive")


def mk(rep, repo, kw, **hk):
    w = Http(rep, repo, **hk)
    w.fault_boundary()
    w.wrap_boundary()
    st = given()
    for t in (CONN, READ):
        st.facts[T("isnone", t)] = False
        st.facts[T("truth", t)] = True
    for t in (TIMEOUT, CONF["operation_timeout"]):
        w.I.numeric.add(t)
        st = [s for s, b in w.I.truth(st, t) if b][0]
    a = dict(CONF, connection_timeout=CONN, read_timeout=READ)
    a.update(kw)
    objs = w.wsman(st, **a)
    if not objs:
        raise AnalysisError("WSMan cannot be constructed")
    return (w,) + objs[0]


def outlasts(t):
    """the HTTP timeout is longer than the operation timeout given"""
    if isinstance(t, T) and t.op == "tuple":
        return len(t.args) == 2 and outlasts(t.args[1]) and t.args[0] != K(0)
    c = lin_of(t) if t is not None else None
    return bool(c) and c[1].get(TIMEOUT, 0) == 1 and len(c[1]) == 1 and c[0] > 0


def op_timeout(x):
    doc = sent_xml(x.data)
    h = kids(doc, "s", "Header") if doc is not None else []
    e = kids(h[0], "wsman", "OperationTimeout") if h else []
    if len(e) != 1:
        return None
    p = parts(e[0].args[2])
    if len(p) == 3 and p[0] == K("PT") and p[2] == K("S"):
        v = p[1]
        return v.args[0] if isinstance(v, T) and v.op in ("str", "fn") and len(v.args) == 1 else v
    return None


def judge(x, with_t):
    if with_t:
        if not x.auth_only and op_timeout(x) != TIMEOUT:
            return "the operation timeout sent is not the given one"
        if not outlasts(x.timeout):
            return "the HTTP %s does not wait longer than the operation timeout" % ("handshake" if x.auth_only else "request")
    else:
        if not x.auth_only and op_timeout(x) != CONF["operation_timeout"]:
            return "the operation timeout sent is not the connection's"
        if x.timeout != T("tuple", CONN, READ):
            return "the HTTP timeouts are not the configured connect and read timeouts"
    return None


def one(rep, repo, op, con, kw, with_t):
    w, st, ref = mk(rep, repo, kw)
    bad, n = None, 0
    for o in w.op(st, ref, op, **({"timeout": TIMEOUT} if with_t else {})):
        for x in w.http(o):
            n += not x.auth_only
            bad = bad or judge(x, with_t)
    if not n:
        bad = "nothing is sent"
    rep.ob("given" if with_t else "default", bad is None, "wsman.WSMan." + op, con, bad or "")
    w.done()


def resend(rep, repo):
    for ssl in (TRUE, FALSE):
        w, st, ref = mk(rep, repo, {"ssl": ssl}, script=[RT, CT, 200])
        bad, n = None, 0
        for o in w.op(st, ref, "receive", timeout=TIMEOUT):
            xs = [x for x in w.http(o)]
            n += len([x for x in xs if not x.auth_only]) > 1
            for x in xs:
                bad = bad or judge(x, True)
        if not n:
            bad = bad or "a receive is not repeated"
        rep.ob("resend", bad is None, "wsman.WSMan.receive", "https" if ssl == TRUE else "http", bad or "")
        w.done()


def history(rep, repo, a, b, con, kw):
    """what one call was given holds for that call alone, whether it was answered or timed out"""
    for first in (True, False):
        w, st, ref = mk(rep, repo, kw)
        bad, n = None, 0
        for script in ([200], [500], [RT]):
            w.script = script
            w.max_fail = 6
            for o in w.op(st.copy(), ref, a, **({"timeout": TIMEOUT} if first else {})):
                k = len(w.http(o))
                w.script = w.init_script = [200]
                for o2 in w.op(o.st, ref, b, **({} if first else {"timeout": TIMEOUT})):
                    for x in w.http(o2)[k:]:
                        n += not x.auth_only
                        bad = bad or judge(x, not first)
        rep.ob("default" if first else "given", bad is None and n > 2, "wsman.WSMan." + b, "%s after %s with%s a timeout" % (con, a, "" if first else "out"), bad or "nothing sent")
        w.done()


def layer(rep, repo, with_t, qual, meth):
    w, st, ref = mk(rep, repo, {"ssl": TRUE})
    w.model_replies([[("PipelineState", {"state": K(4)})]]) if "PowerShell" in qual else None
    for m in ("serialize", "deserialize"):
        w.cfg.boundary["serializer.Serializer." + m] = "opaque"
    I = w.I
    shallow(w)
    if qual == "shell.Process":
        sh = ok(I.construct(st, w.p.cls("shell.WinRS"), [ref], {}))
        obj = ok(I.construct(sh.st, w.p.cls(qual), [sh.val, K("exe")], {}))
        st, obj = obj.st, obj.val
    else:
        rp = ok(I.construct(st, w.p.cls("powershell.RunspacePool"), [ref], {}))
        st, obj = rp.st, rp.val
        I.setattr_(st, obj, "state", K(w.pool_states["OPENED"]))
        if "PowerShell" in qual:
            ps = ok(I.construct(st, w.p.cls(qual), [obj], {}))
            st, obj = ps.st, ps.val
            I.setattr_(st, obj, "state", K(w.ps_states["RUNNING"]))
    bad, n = None, 0
    for o in I.call_method(st, obj, meth, [], {"timeout": TIMEOUT} if with_t else {}):
        for x in w.http(o):
            n += 1
            bad = bad or judge(x, with_t)
    if not n:
        bad = "nothing is sent"
    rep.ob("layers", bad is None, "%s.%s" % (qual, meth), "timeout given" if with_t else "no timeout", bad or "")
    w.done()


def ok(outs):
    r = [o for o in outs if o.sig == "return"]
    if not r:
        raise AnalysisError("object cannot be constructed")
    return r[0]


def shallow(w):
    w.shallow_messages()
