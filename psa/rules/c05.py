"""C05: records land in their own stream, in arrival order, none lost."""
from .common import *

TECHNIQUE = "static analysis: dataflow of received messages to stream/output lists (append-only, in order) for every record type and mixed batches"
STREAMS = {"ErrorRecordMessage": "error", "WarningRecord": "warning", "VerboseRecord": "verbose", "DebugRecord": "debug",
           "ProgressRecord": "progress", "InformationRecord": "information"}
CID, PID = T("in_", "command-id"), T("in_", "pipeline-id")


def run(rep, repo, tier):
    rep.rule("stream", "every record message is appended, in arrival order, to the stream of its own kind and to no other", 6)
    rep.rule("output", "every output object is appended to the output, in arrival order", 2)
    rep.rule("state", "the pipeline takes the state the server reports; a failed state marks errors; an error in the state message joins the error stream", 7)
    rep.rule("own", "polling asks for this pipeline's command and delivers to this pipeline", 2)
    rep.rule("mixed", "a mixed batch, and batches over several polls, lose and reorder nothing", 3)
    for c, s in STREAMS.items():
        one = [(c, {}), (c, {})]
        poll(rep, repo, "stream", "two %s messages" % c, [one])
    poll(rep, repo, "output", "two outputs", [[("PipelineOutput", {"data": T("in_", "o0")}), ("PipelineOutput", {"data": T("in_", "o1")})]])
    poll(rep, repo, "output", "an output that is null", [[("PipelineOutput", {"data": NONE})]])
    w0 = World(rep, repo)
    for sn, sv in sorted(w0.ps_states.items()):
        for er in (None, "err"):
            poll(rep, repo, "state", "state %s%s" % (sn, " with an error record" if er else ""),
                 [[("PipelineState", {"state": K(sv), "error_record": T("nn", "err") if er else NONE})]])
    mix = []
    for i, (c, s) in enumerate(STREAMS.items()):
        mix.append((c, {}))
        mix.append(("PipelineOutput", {"data": T("in_", "o%d" % i)}))
    fin = ("PipelineState", {"state": K(w0.ps_states["FAILED"]), "error_record": T("nn", "err")})
    poll(rep, repo, "mixed", "every kind interleaved with output, then a failed state", [mix + mix[:4] + [fin]])
    poll(rep, repo, "mixed", "the same over three polls until the final state", [mix, [], [fin]], meth="end_invoke")
    poll(rep, repo, "mixed", "records arriving after a warning at pool level", [[("UserEvent", {}), ("WarningRecord", {}), ("PipelineOutput", {"data": T("in_", "o")})]])


def poll(rep, repo, rule, con, script, meth="poll_invoke"):
    w = World(rep, repo)
    w.model_replies(script)
    w.shallow_messages()
    I = w.I
    st = State()
    pool = w.pool(st)
    ps = w.ps(st, pool, K(w.ps_states["RUNNING"]), id=PID, _command_id=CID, had_errors=FALSE)
    st.facts[T("truth", PID)] = True
    st.facts[T("truth", CID)] = True
    pl = I.getattr_(st, pool, "pipelines")
    st.heap[pl.oid] = st.heap[pl.oid].with_(items=((PID, ps),))
    names = list(STREAMS.values())
    lists = {s: st.new(HList((T("star", T("in_", s)),))) for s in names}
    streams = I.abs_inst(st, "powershell.PSDataStreams", "streams", **lists)
    I.setattr_(st, ps, "streams", streams)
    out0 = st.new(HList((T("star", T("in_", "output")),)))
    I.setattr_(st, ps, "output", out0)
    outs = I.call_method(st, ps, meth)
    w.done()
    # expected
    exp = {s: [] for s in names}
    outp, state, had = [], K(w.ps_states["RUNNING"]), FALSE
    where = "PowerShell.%s" % meth
    for bi, b in enumerate(script):
        for j, (c, a) in enumerate(b):
            if c in STREAMS:
                exp[STREAMS[c]].append(T("data", bi, j))
            elif c == "PipelineOutput":
                outp.append(a["data"])
            elif c == "PipelineState":
                state = a["state"]
                if a["error_record"] != NONE:
                    exp["error"].append(a["error_record"])
                if state == K(w.ps_states["FAILED"]):
                    had = TRUE
    bad = None if outs else "no completing path"
    for o in outs:
        if o.sig != "return":
            bad = "raises %s" % w.exc(o)
            break
        h = o.st.heap[ps.oid].attrs
        sa = o.st.heap[h["streams"].oid].attrs if isinstance(h.get("streams"), Ref) else {}
        for s in names:
            got = [I.freeze(o.st, x) for x in (o.st.heap[sa[s].oid].items if isinstance(sa.get(s), Ref) else ())]
            got = [ident(x) for x in got]
            want = [T("star", T("in_", s))] + exp[s]
            if got != want:
                bad = "the %s stream becomes %r, expected %r" % (s, got[1:], want[1:])
        got = list(o.st.heap[h["output"].oid].items) if isinstance(h.get("output"), Ref) else None
        if got != [T("star", T("in_", "output"))] + outp:
            bad = "the output becomes %r, expected %r" % (got, outp)
        if h.get("state") != state:
            bad = "the pipeline's state becomes %r, the server reported %r" % (h.get("state"), state)
        if h.get("had_errors") != had:
            bad = "had_errors becomes %r, expected %r" % (h.get("had_errors"), had)
        rc = [e for e in o.events if e.kind == "pkg" and e.name == "shell.WinRS.receive"]
        if meth == "poll_invoke":
            okr = len(rc) == 1 and rc[0].arg(1, "command_id") == CID and "stdout" in str(getattr(rc[0].arg(0, "stream"), "v", ""))
            rep.ob("own", okr, where, "the poll asks for this pipeline's output" if okr else "poll: " + con,
                   "receives %r for command %r" % (rc[0].arg(0, "stream") if rc else None, rc[0].arg(1, "command_id") if rc else None))
        if bad:
            break
    rep.ob(rule, bad is None, where, con, bad or "")


def ident(x):
    """identity of a scripted message's data"""
    if isinstance(x, T) and x.op == "inst":
        return x
    return x
