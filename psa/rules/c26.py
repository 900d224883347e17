"""C26: host calls run the method the server named and answer the call it made."""
from .common import *

TECHNIQUE = "static analysis: path enumeration of the host dispatch for every method id, signature check, and of the answer for every result"
# [MS-PSRP] 2.2.3.17: id -> (name, number of arguments); the host part it belongs to
METHODS = {
    1: ("GetName", 0), 2: ("GetVersion", 0), 3: ("GetInstanceId", 0), 4: ("GetCurrentCulture", 0), 5: ("GetCurrentUICulture", 0), 6: ("SetShouldExit", 1),
    7: ("EnterNestedPrompt", 0), 8: ("ExitNestedPrompt", 0), 9: ("NotifyBeginApplication", 0), 10: ("NotifyEndApplication", 0),
    11: ("ReadLine", 0), 12: ("ReadLineAsSecureString", 0), 13: ("Write1", 1), 14: ("Write2", 3), 15: ("WriteLine1", 0), 16: ("WriteLine2", 1),
    17: ("WriteLine3", 3), 18: ("WriteErrorLine", 1), 19: ("WriteDebugLine", 1), 20: ("WriteProgress", 2), 21: ("WriteVerboseLine", 1),
    22: ("WriteWarningLine", 1), 23: ("Prompt", 3), 24: ("PromptForCredential1", 4), 25: ("PromptForCredential2", 6), 26: ("PromptForChoice", 4),
    27: ("GetForegroundColor", 0), 28: ("SetForegroundColor", 1), 29: ("GetBackgroundColor", 0), 30: ("SetBackgroundColor", 1),
    31: ("GetCursorPosition", 0), 32: ("SetCursorPosition", 1), 33: ("GetWindowPosition", 0), 34: ("SetWindowPosition", 1), 35: ("GetCursorSize", 0),
    36: ("SetCursorSize", 1), 37: ("GetBufferSize", 0), 38: ("SetBufferSize", 1), 39: ("GetWindowSize", 0), 40: ("SetWindowSize", 1),
    41: ("GetWindowTitle", 0), 42: ("SetWindowTitle", 1), 43: ("GetMaxWindowSize", 0), 44: ("GetMaxPhysicalWindowSize", 0), 45: ("GetKeyAvailable", 0),
    46: ("ReadKey", 1), 47: ("FlushInputBuffer", 0), 48: ("SetBufferContents1", 2), 49: ("SetBufferContents2", 2), 50: ("GetBufferContents", 1),
    51: ("ScrollBufferContents", 4),
}
PARTS = (("host.PSHost", 1, 10, "host"), ("host.PSHostUserInterface", 11, 26, "ui"), ("host.PSHostRawUserInterface", 27, 51, "raw_ui"))
# methods the protocol expects no answer of, and whose default implementation returns nothing
UNKNOWN = (0, -1, 52, 53, 54, 55, 56, 57, 1000, 0x7FFFFFFF)
MI, CI = T("in_", "mi"), T("in_", "ci")


def run(rep, repo, tier):
    rep.rule("dispatch", "each method id runs exactly the method of that name on its host part, with the pool, the pipeline and the arguments sent", 51)
    rep.rule("unknown", "an id without method runs nothing and is reported", 10)
    rep.rule("missing", "a call to a part the host does not have is reported, nothing is run in its place", 4)
    rep.rule("args", "the method is run once per call with the id, arguments, pool and pipeline of that call", 6)
    rep.rule("answer", "a value is answered on the prompt-response stream with the call's id, method and pipeline; no value, no answer", 20)
    rep.rule("order", "the answers of several calls are sent in the order of the calls, each for its own call", 2)
    for mi in METHODS:
        dispatch(rep, repo, mi)
    for mi in UNKNOWN:
        unknown(rep, repo, mi)
    missing(rep, repo)
    answers(rep, repo)


def hostworld(rep, repo, ui=True, raw=True):
    w = World(rep, repo)
    bound = {}
    for cn, lo, hi, part in PARTS:
        c = w.p.cls(cn)
        for n in list(c.methods):
            if n[0].isupper():
                w.cfg.boundary["%s.%s" % (cn, n)] = "opaque"
                bound["%s.%s" % (cn, n)] = (part, n)
    st = State()
    I = w.I
    r = I.abs_inst(st, "host.PSHostRawUserInterface", "raw_ui") if raw else NONE
    u = I.abs_inst(st, "host.PSHostUserInterface", "ui", raw_ui=r) if ui else NONE
    h = I.abs_inst(st, "host.PSHost", "host", ui=u)
    for x in (r, u, h):
        if isinstance(x, Ref):
            st.heap[x.oid] = st.heap[x.oid].with_(sym=False)
    return w, st, {"host": h, "ui": u, "raw_ui": r}, bound


def run_call(w, st, host, mi, n):
    """[(outcome, pool, pipeline, events)] of run_method for this id with n arguments"""
    out = []
    for o in w.I.construct(st, w.p.cls("complex_objects.HostMethodIdentifier"), [], {"value": K(mi)}):
        if o.sig != "return":
            continue
        for with_ps in (True, False):
            s = o.st.copy()
            pool = w.pool(s, K(w.pool_states["OPENED"]))
            ps = w.ps(s, pool, K(w.ps_states["RUNNING"])) if with_ps else NONE
            args = s.new(HList([T("in_", "arg%d" % i) for i in range(n)]))
            n0 = len(s.events())
            for p in w.I.call_method(s, host, "run_method", [o.val, args, pool, ps], {}):
                out.append((p, pool, ps, p.events[n0:]))
    return out


def dispatch(rep, repo, mi):
    name, n = METHODS[mi]
    part, cn = [(p, c) for c, lo, hi, p in PARTS if lo <= mi <= hi][0]
    w, st, objs, bound = hostworld(rep, repo)
    outs = run_call(w, st, objs["host"], mi, n)
    bad = None if outs else "no path"
    for o, pool, ps, ev in outs:
        calls = [e for e in ev if e.kind == "pkg" and e.name in bound]
        if o.sig == "raise" and not calls:
            bad = "raises %s" % w.exc(o)
            continue
        if [bound[e.name] for e in calls] != [(part, name)]:
            bad = "runs %s" % (", ".join(".".join(bound[e.name]) for e in calls) or "nothing")
            continue
        e = calls[0]
        if e.recv != objs[part]:
            bad = "runs it on another object"
        vals = list(e.args) + [v for _, v in e.kw]
        flat = []
        for v in vals:
            fv = w.I.freeze(o.st, v)
            flat.extend(fv.args if isinstance(fv, T) and fv.op in ("tuple", "list") else [v])
        want = [pool, ps] + [T("in_", "arg%d" % i) for i in range(n)]
        if flat != want:
            bad = "is run with %s" % str(flat)[:120]
        if o.sig == "return" and o.val != e.res:
            bad = "the method's result is not returned"
    rep.ob("dispatch", bad is None, "host.PSHost.run_method", "%d %s" % (mi, name), bad or "")
    w.done()


def unknown(rep, repo, mi):
    w, st, objs, bound = hostworld(rep, repo)
    bad = None
    outs = run_call(w, st, objs["host"], mi, 1)
    for o, pool, ps, ev in outs:
        calls = [e for e in ev if e.kind == "pkg" and e.name in bound]
        if calls:
            bad = "runs %s" % ".".join(bound[calls[0].name])
        elif o.sig == "return" and not any(e.kind == "log" or (e.name or "").endswith("warn") for e in ev):
            bad = "is dropped silently"
        elif o.sig == "return" and o.val != NONE:
            bad = "gives a value"
    rep.ob("unknown", bad is None and bool(outs), "host.PSHost.run_method", "id %d" % mi, bad or ("" if outs else "no path"))
    w.done()


def missing(rep, repo):
    for con, ui, raw, mi in (("no ui: Write1", False, False, 13), ("no ui: GetForegroundColor", False, False, 27), ("no raw_ui: GetForegroundColor", True, False, 27),
                             ("no raw_ui: ScrollBufferContents", True, False, 51)):
        w, st, objs, bound = hostworld(rep, repo, ui, raw)
        bad = None
        outs = run_call(w, st, objs["host"], mi, METHODS[mi][1])
        for o, pool, ps, ev in outs:
            calls = [e for e in ev if e.kind == "pkg" and e.name in bound]
            if calls:
                bad = "runs %s" % ".".join(bound[calls[0].name])
            elif o.sig == "return" and not any(e.kind == "log" for e in ev):
                bad = "is dropped silently"
        rep.ob("missing", bad is None and bool(outs), "host.PSHost.run_method", con, bad or ("" if outs else "no path"))
        w.done()


RESULTS = (("nothing", NONE, False), ("true", TRUE, True), ("false", FALSE, True), ("zero", K(0), True), ("empty text", K(""), True), ("a value", T("in_", "result"), True))


def answers(rep, repo):
    for kind in ("pool", "pipeline"):
        for con, res, sent in RESULTS:
            for nf in (1, 2):
                answer(rep, repo, kind, con, [res], nf)
        answer(rep, repo, kind, "no host", None, 1)
        answer(rep, repo, kind, "two calls", [T("in_", "result0"), T("in_", "result1")], 1)
        answer(rep, repo, kind, "two calls, the second answered", [NONE, T("in_", "result1")], 1)


def answer(rep, repo, kind, con, results, nf):
    w = World(rep, repo)
    w.model_fragmenter((nf,))
    w.shallow_messages()
    I = w.I
    n = len(results or [0])

    def rm(I_, st, fv, args, kw, ctx, node):
        i = st.globals.get("nrun", 0)
        st.globals["nrun"] = i + 1
        r = results[min(i, n - 1)] if results else T("in_", "stray")
        if isinstance(r, T):
            st.facts[T("isnone", r)] = False
        return I_.boundary_event(st, fv, args, kw, ctx, node, result=r)
    w.p.func("host.PSHost.run_method")
    w.cfg.boundary["host.PSHost.run_method"] = rm
    cn = "RunspacePoolHostCall" if kind == "pool" else "PipelineHostCall"
    A = lambda x, i: T("in_", "%s%d" % (x, i))  # noqa: E731
    msgs = [(cn, {"ci": A("ci", i), "mi": A("mi", i), "mp": A("mp", i)}) for i in range(n)]
    st = State()
    for x in ("ps-id", "pool-id"):
        st.facts[T("truth", T("in_", x))] = True
        st.facts[T("isnone", T("in_", x))] = False
    host = I.abs_inst(st, "host.PSHost", "host") if results is not None else NONE
    pool = w.pool(st, K(w.pool_states["OPENED"]), _ci_counter=K(7), host=host, id=T("in_", "pool-id"))
    if kind == "pool":
        w.model_replies([msgs + [("RunspaceAvailability", {"ci": K(7), "response": K(3)})]])
        outs = I.call_method(st, pool, "get_available_runspaces")
        skip = 1
    else:
        w.model_replies([msgs, [("PipelineState", {"state": K(w.ps_states["COMPLETED"])})]])
        ps = w.ps(st, pool, K(w.ps_states["RUNNING"]), id=T("in_", "ps-id"))
        I.setattr_(st, pool, "pipelines", st.new(HDict([(T("in_", "ps-id"), ps)])))
        outs = I.call_method(st, ps, "poll_invoke")
        skip = 0
    bad = None if outs else "no path"
    badargs = badorder = None
    seen = 0
    for o in outs:
        if o.sig != "return":
            bad = "raises %s" % w.exc(o)
            continue
        if not o.st.globals.get("script"):
            continue
        seen += 1
        runs = [e for e in o.events if e.kind == "pkg" and e.name.endswith(".run_method")]
        if len(runs) != (n if results is not None else 0):
            badargs = "%d methods are run for %d calls" % (len(runs), n)
            continue
        for i, e in enumerate(runs):
            want = (A("mi", i), A("mp", i), pool, ps if kind == "pipeline" else NONE)
            got = tuple(e.arg(j, p) for j, p in enumerate(("method_identifier", "args", "runspace", "pipeline")))
            got = tuple(NONE if x is None else x for x in got)
            if tuple(I.freeze(o.st, x) for x in got) != tuple(I.freeze(o.st, x) for x in want):
                badargs = "the method is run with other arguments than those of the call"
        sends = [e for e in o.events if e.kind == "pkg" and e.name == "shell.WinRS.send"]
        # the availability request itself
        if skip:
            sends = [e for e in sends if not is_request(e)]
        want = [(i, f) for i in range(n) if results is not None and results[i] != NONE for f in range(nf)]
        if len(sends) != len(want):
            bad = "%d fragments are sent, expected %d" % (len(sends), len(want))
            continue
        toks = {}
        for e, (i, f) in zip(sends, want):
            stream, data = e.arg(0, "stream"), e.arg(1, "data")
            fr = data if isinstance(data, T) and data.op == "frag" else None
            if stream != K("pr"):
                bad = "is sent to stream %s" % stream
            elif fr is None or fr.args[1] != f:
                bad = "the fragments are not sent in order"
            else:
                bad = bad or judge(w, o, fr.args[0], i, kind, results[i], toks)
                if bad and n > 1:
                    badorder, bad = bad, None
    if not seen:
        bad = bad or "the call is never read"
    if n > 1:
        rep.ob("order", badorder is None and bad is None, "RunspacePool._process_host_call", "%s: %s" % (kind, con), badorder or bad or "")
    else:
        rep.ob("answer", bad is None, "RunspacePool._process_host_call", "%s call, %s, %d fragment(s)" % (kind, con, nf), bad or "")
    rep.ob("args", badargs is None, "RunspacePool._process_host_call", "%s call: %s, %d" % (kind, con, nf), badargs or "")
    w.done()


def is_request(e):
    d = e.arg(1, "data")
    return isinstance(d, T) and d.op == "frag" and "HostResponse" not in repr(d.args[3])


def judge(w, o, tok, i, kind, res, toks):
    """the fragmenter was given the response of call i"""
    ev = [e for e in o.events if getattr(e, "tok", None) and e.tok[0] == tok]
    if len(ev) != 1:
        return "the fragment sent is not one of the response"
    e = ev[0]
    if toks.setdefault(tok, i) != i:
        return "one response answers two calls"
    data, rp, pid = e.arg(0, "data"), e.arg(1, "rpid"), e.arg(2, "pid")
    m = dict(data.args[2]) if isinstance(data, T) and data.op == "inst" else None
    cls = str(data.args[0]).rsplit(".", 1)[-1] if m is not None else str(data)[:60]
    want = "RunspacePoolHostResponse" if kind == "pool" else "PipelineHostResponse"
    if m is None or cls != want:
        return "answers with %s" % cls
    for n, v in (("ci", T("in_", "ci%d" % i)), ("mi", T("in_", "mi%d" % i)), ("mr", res)):
        if m.get(n) != v:
            return "the response's %s is %s" % (n, m.get(n))
    vals = [w.I.freeze(o.st, x) for x in list(e.args) + [v for _, v in e.kw]]
    if T("in_", "pool-id") not in vals:
        return "the response names another pool"
    if kind == "pipeline" and T("in_", "ps-id") not in vals:
        return "the response names no pipeline"
    if kind == "pool" and any(x == T("in_", "ps-id") for x in vals):
        return "the response names a pipeline"
    return None
