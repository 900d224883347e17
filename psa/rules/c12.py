"""C12: pipeline operations obey the pipeline state machine (typestate)."""
from .common import *

TECHNIQUE = "static analysis: typestate; every operation is run from every state against every reply, transition and wire calls compared with the state machine"

SPEC = {
    "close": ({"NOT_STARTED"}, {"COMPLETED", "STOPPED", "FAILED"}),
    "begin_invoke": (set(), {"NOT_STARTED", "STOPPED", "COMPLETED", "FAILED"}),
    "invoke": (set(), {"NOT_STARTED", "STOPPED", "COMPLETED", "FAILED"}),
    "stop": ({"STOPPING", "STOPPED"}, {"RUNNING"}),
    "connect_async": (set(), {"DISCONNECTED"}),
    "connect": (set(), {"DISCONNECTED"}),
    "create_nested_power_shell": (set(), {"RUNNING"}),
}
RUN_ID = T("in_", "pipeline-id")
CMD_ID = T("in_", "command-id")


def run(rep, repo, tier):
    rep.rule("gate", "in a state where the operation is not allowed nothing reaches the wire: it returns (documented no-op) or raises "
                     "InvalidPipelineStateError, and the recorded state is unchanged", 30)
    rep.rule("act", "in an allowed state every completing path sends the operation's own request and leaves the promised state", 10)
    rep.rule("fail", "a failing request propagates", 4)
    rep.rule("commands", "a pipeline without commands is rejected before anything is sent", 4)
    rep.rule("register", "the pipeline is registered under its own id before the create request is sent", 4)
    rep.rule("end", "waiting polls only while the pipeline is running", 7)
    rep.rule("with", "the context manager closes on exit", 2)
    w0 = World(rep, repo)
    states = w0.ps_states
    for op, (noop, go) in SPEC.items():
        for sname, sval in sorted(states.items(), key=lambda x: x[1]):
            check(rep, repo, op, sname, sval, noop, sname in go, states)
    commands(rep, repo, states)
    nested(rep, repo, states)
    endinvoke(rep, repo, states)
    ctxman(rep, repo)


def world(rep, repo, fail=False, poll=False):
    w = World(rep, repo)
    w.model_fragmenter((1, 2))
    w.model_replies([[("PipelineState", {"state": K(w.ps_states["COMPLETED"]), "error_record": NONE})]])
    w.shallow_messages()
    if fail:
        w.cfg.raises = lambda ev, st: ["psa.OtherError"] if ev.kind == "pkg" and ev.name in w.wire else ()
    return w


def setup(w, S, cmds=1, frm=FALSE, reg=False):
    st = State()
    pool = w.pool(st)
    ps = w.ps(st, pool, K(S), id=RUN_ID, _command_id=CMD_ID, _from_disconnect=frm)
    w.I.setattr_(st, ps, "commands", st.new(HList([w.I.abs_inst(st, "complex_objects.Command", "cmd%d" % i, root=False) for i in range(cmds)])))
    w.I.nonneg.add(RUN_ID)
    for t in (RUN_ID, CMD_ID):
        st.facts[T("truth", t)] = True
        st.facts[T("isnone", t)] = False
    pl = w.I.getattr_(st, pool, "pipelines")
    if reg:
        st.heap[pl.oid] = st.heap[pl.oid].with_(items=((RUN_ID, ps),))
    return st, pool, ps


def pipes(o, pool):
    return o.st.heap[pool.oid].attrs.get("pipelines")


def check(rep, repo, op, sname, sval, noop, acts, states):
    where, con, S = "PowerShell.%s" % op, "%s in state %s" % (op, sname), K(sval)
    if not acts:
        w = world(rep, repo)
        st, pool, ps = setup(w, sval, reg=sname in ("RUNNING", "DISCONNECTED"))
        outs = w.I.call_method(st, ps, op)
        w.done()
        ok, msg = bool(outs), "no path analysed"
        for o in outs:
            if w.wires(o):
                ok, msg = False, "contacts the server (%s) in state %s" % (w.wnames(o), sname)
            elif w.final(o, ps, "state") != S:
                ok, msg = False, "changes the recorded state to %r without contacting the server" % (w.final(o, ps, "state"),)
            elif sname in noop:
                if o.sig != "return":
                    ok, msg = False, "raises %s where it is a documented no-op" % w.exc(o)
            elif w.exc(o) != "InvalidPipelineStateError":
                ok, msg = False, "expected InvalidPipelineStateError, got %s" % (w.exc(o) or "a normal return")
            if not ok:
                break
        rep.ob("gate", ok, where, con, msg)
        return
    for mode in ("ok", "fail"):
        w = world(rep, repo, mode == "fail")
        st, pool, ps = setup(w, sval, reg=sname in ("RUNNING", "DISCONNECTED"))
        outs = w.I.call_method(st, ps, op)
        w.done()
        if mode == "ok":
            judge(rep, w, op, con, where, outs, pool, ps, states)
            continue
        for o in outs:
            failed = [e for e in w.wires(o) if e.exc is not None]
            if failed:
                ok = o.sig == "raise"
                msg = "a failing %s is swallowed" % failed[-1].name
                if ok and op == "close" and False:
                    pass
                if ok and op == "stop" and w.final(o, ps, "state") == K(states["STOPPED"]):
                    ok, msg = False, "recorded as STOPPED although the stop signal failed"
                if ok and op in ("begin_invoke", "invoke", "connect_async", "connect") and len(w.wires(o)) == 1 \
                        and w.final(o, ps, "state") == K(states["RUNNING"]):
                    ok, msg = False, "recorded as RUNNING although the first request (%s) failed" % failed[-1].name
                rep.ob("fail", ok, failed[-1].where, con + ": failing " + failed[-1].name, msg)


def is_conn(fv, rid):
    """Connect element addressed to command rid"""
    if not (isinstance(fv, T) and fv.op == "xml" and isinstance(fv.args[0], K) and str(fv.args[0].v).endswith("}Connect")):
        return False
    at = fv.args[1]
    return any(k == K("CommandId") and v == rid for k, v in (at.args[0] if isinstance(at, T) and at.op == "dict" else ()))


def judge(rep, w, op, con, where, outs, pool, ps, states):
    I = w.I
    ok, msg = True, ""
    rets = [o for o in outs if o.sig == "return"]
    if not rets:
        ok, msg = False, "no completing path: %s" % [show(o, w) for o in outs][:3]
    for o in outs:
        ws, names, fin = w.wires(o), w.wnames(o), w.final(o, ps, "state")
        if o.sig == "raise":
            ok, msg = False, "raises %s although the request succeeded (%s)" % (w.exc(o), o.exc)
        elif op in ("close", "stop"):
            if names != ["WinRS.signal"]:
                ok, msg = False, "expected exactly one signal, got %s" % names
            else:
                sig, cid = ws[0].arg(0, "code"), ws[0].arg(1, "command_id")
                want = "terminate" if op == "close" else "powershell/signal/"
                if not (isinstance(sig, K) and want in str(sig.v).lower()) or (op == "stop" and "c" != str(sig.v)[-1:]):
                    ok, msg = False, "wrong signal %r" % (sig,)
                ids = {CMD_ID, T("str", CMD_ID), T("meth", "upper", CMD_ID), T("meth", "upper", T("str", CMD_ID))}
                if ok and cid not in ids:
                    ok, msg = False, "the signal names command %r instead of this pipeline's" % (cid,)
                if ok and not dict_gone(I, o.st, pipes(o, pool), RUN_ID):
                    ok, msg = False, "the pipeline stays registered with its pool"
                if ok and op == "stop" and fin != K(states["STOPPED"]):
                    ok, msg = False, "state after stop is %r" % (fin,)
        elif op in ("connect_async", "connect"):
            if names[:1] != ["WSMan.connect"] or names.count("WSMan.connect") != 1 or (op == "connect_async" and len(names) != 1):
                ok, msg = False, "expected one connect request, got %s" % names
            elif not is_conn(ws[0].arg(1, "resource"), RUN_ID):
                ok, msg = False, "the connect request does not name this pipeline: %r" % (ws[0].arg(1, "resource"),)
            elif not w.ev_selects_shell(ws[0], o, pool):
                ok, msg = False, "the connect request does not select the pool's shell"
            elif op == "connect_async" and (fin != K(states["RUNNING"]) or w.final(o, ps, "_from_disconnect") != TRUE):
                ok, msg = False, "after connecting: state %r, from_disconnect %r" % (fin, w.final(o, ps, "_from_disconnect"))
            elif op == "connect" and (names[1:] != ["WinRS.receive"] or o.val != w.final(o, ps, "output")):
                ok, msg = False, "connect must poll until the final state and return the output (%s)" % names
        elif op in ("begin_invoke", "invoke"):
            if names[:1] != ["WinRS.command"] or names.count("WinRS.command") != 1:
                ok, msg = False, "expected one create-pipeline request first, got %s" % names
            elif ws[0].arg(3, "command_id") != RUN_ID:
                ok, msg = False, "created under id %r" % (ws[0].arg(3, "command_id"),)
            elif op == "begin_invoke" and ("WinRS.receive" in names or fin != K(states["RUNNING"])):
                ok, msg = False, "after starting: state %r, requests %s" % (fin, names)
            elif op == "invoke" and (names[-1] != "WinRS.receive" or o.val != w.final(o, ps, "output")):
                ok, msg = False, "invoke must poll until the final state and return the output"
            # registration happens before
            reg = False
            for e in o.events:
                if e is ws[0]:
                    break
                if e.kind in ("setitem", "mut") and ps in (list(e.args)) and RUN_ID in e.fargs:
                    reg = True
                elif e.kind == "mut" and e.name == "update":
                    reg = reg or dict_has(I, o.st, pipes(o, pool), RUN_ID) == ps
            reg = reg and dict_has(I, o.st, pipes(o, pool), RUN_ID) == ps
            rep.ob("register", reg, where, con + ": registered with the pool before the request",
                   "the pipeline is not in the pool's table when the create request is sent")
        elif op == "create_nested_power_shell":
            v = o.val
            h = o.st.heap.get(v.oid) if isinstance(v, Ref) else None
            if names:
                ok, msg = False, "contacts the server"
            elif not (isinstance(h, HInst) and getattr(h.cls, "name", "") == "PowerShell" and h.attrs.get("is_nested") == TRUE and v != ps
                      and h.attrs.get("runspace_pool") == pool):
                ok, msg = False, "does not return a new nested pipeline on the same pool"
        if not ok:
            break
    rep.ob("act", ok, where, con, msg)


def commands(rep, repo, states):
    for op in ("begin_invoke", "invoke"):
        for s in sorted(SPEC[op][1]):
            w = world(rep, repo)
            st, pool, ps = setup(w, states[s], cmds=0)
            outs = w.I.call_method(st, ps, op)
            w.done()
            ok = bool(outs) and all(o.sig == "raise" and w.exc(o) == "InvalidPSRPOperation" and not w.wires(o) for o in outs)
            rep.ob("commands", ok, "PowerShell.%s" % op, "%s without commands in state %s" % (op, s), "%s" % [show(o, w) for o in outs][:2])


def nested(rep, repo, states):
    w = world(rep, repo)
    st, pool, ps = setup(w, states["RUNNING"], frm=TRUE)
    outs = w.I.call_method(st, ps, "create_nested_power_shell")
    w.done()
    ok = bool(outs) and all(o.sig == "raise" and w.exc(o) == "InvalidPSRPOperation" and not w.wires(o) for o in outs)
    rep.ob("gate", ok, "PowerShell.create_nested_power_shell", "nesting in a pipeline that was connected to remotely", "%s" % [show(o, w) for o in outs][:2])


def endinvoke(rep, repo, states):
    for sname, sval in sorted(states.items()):
        for fin in (["COMPLETED", "FAILED", "STOPPED", "DISCONNECTED"] if sname == "RUNNING" else ["-"]):
            w = world(rep, repo)
            if fin != "-":
                w.model_replies([[], [("PipelineState", {"state": K(states[fin]), "error_record": NONE})]])
            st, pool, ps = setup(w, sval, reg=sname in ("RUNNING", "DISCONNECTED"))
            outs = w.I.call_method(st, ps, "end_invoke")
            w.done()
            ok, msg = bool(outs), "no path"
            for o in outs:
                want = ["WinRS.receive"] * 2 if fin != "-" else []
                if o.sig != "return" or w.wnames(o) != want or o.val != w.final(o, ps, "output"):
                    # an unregistered pipeline cannot be routed; only judge paths on which it is registered
                    ok, msg = False, "expected %d polls then the output, got %s" % (len(want), show(o, w))
                    break
            rep.ob("end", ok, "PowerShell.end_invoke", "end_invoke in state %s%s" % (sname, " until " + fin if fin != "-" else ""), msg)


def ctxman(rep, repo):
    w = World(rep, repo)
    w.boundary("powershell.PowerShell.close")
    st = State()
    ps = w.ps(st)
    outs = w.I.call_method(st, ps, "__enter__")
    rep.ob("with", bool(outs) and all(o.val == ps and not w.wires(o) for o in outs), "PowerShell.__enter__", "enter returns the pipeline", "")
    st = State()
    ps = w.ps(st)
    outs = w.I.call_method(st, ps, "__exit__", [T("in_", "et"), T("in_", "ev"), T("in_", "tb")])
    rep.ob("with", bool(outs) and all(w.wnames(o) == ["PowerShell.close"] and w.I.decide_val(o.st, o.val) is False for o in outs),
           "PowerShell.__exit__", "exit closes and does not swallow the error", "%s" % [show(o, w) for o in outs])
    w.done()
