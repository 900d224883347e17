"""C11: runspace pool operations obey the pool state machine (typestate)."""
from .common import *

TECHNIQUE = "static analysis: typestate; every operation is run from every state against every reply, transition and wire calls compared with the state machine"

# operation -> (states in which it is a silent no-op, states in which it acts)
SPEC = {
    "close": ({"CLOSED", "CLOSING", "BROKEN"}, None),  # acts everywhere else
    "connect": ({"OPENED"}, {"DISCONNECTED"}),
    "disconnect": ({"DISCONNECTED"}, {"OPENED"}),
    "open": ({"OPENED"}, {"BEFORE_OPEN"}),
    "reset_runspace_state": ({"BEFORE_OPEN"}, {"OPENED"}),
    "get_command_metadata": (set(), {"OPENED"}),
}


def run(rep, repo, tier):
    rep.rule("gate", "in a state where the operation is not allowed nothing reaches the wire: it returns (documented no-op) or raises "
                     "InvalidRunspacePoolStateError, and the recorded state is unchanged", 30)
    rep.rule("act", "in an allowed state every completing path sends the operation's own requests and leaves the promised state", 10)
    rep.rule("fail", "when the request itself fails the error propagates and the pool is not recorded as having made the transition", 4)
    rep.rule("limits", "setting runspace counts on a pool that is not opened only changes the local value; on an opened pool the local value "
                       "changes only after the server's positive reply", 10)
    rep.rule("with", "the context manager opens on entry and closes on exit", 2)
    w0 = World(rep, repo)
    states = w0.pool_states
    for op, (noop, go) in SPEC.items():
        for sname, sval in sorted(states.items(), key=lambda x: x[1]):
            acts = (sname in go) if go is not None else sname not in noop
            check(rep, repo, op, sname, sval, noop, acts, states)
    for prop in ("min_runspaces", "max_runspaces"):
        for sname, sval in sorted(states.items(), key=lambda x: x[1]):
            limits(rep, repo, prop, sname, sval)
    ctxman(rep, repo)
    init_state(rep, repo)


def world(rep, repo, fail=False, opened=None):
    w = World(rep, repo)
    w.model_fragmenter((1, 2))
    w.shallow_messages()
    w.cfg.boundary["powershell.PowerShell.end_invoke"] = "opaque"
    w.cfg.iters = (0, 1, 2)
    if fail:
        w.cfg.raises = lambda ev, st: ["psa.OtherError"] if ev.kind == "pkg" and ev.name in w.wire else ()
    return w


def invoke(w, op, st, pool):
    args = {"get_command_metadata": [T("in_", "names")]}.get(op, [])
    return w.I.call_method(st, pool, op, args)


def check(rep, repo, op, sname, sval, noop, acts, states):
    where = "RunspacePool.%s" % op
    con = "%s in state %s" % (op, sname)
    S = K(sval)
    if not acts:
        w = world(rep, repo)
        w.model_replies([[]])
        st = State()
        pool = w.pool(st, S)
        outs = invoke(w, op, st, pool)
        w.done()
        ok, msg = bool(outs), "no path analysed"
        for o in outs:
            if w.wires(o):
                ok, msg = False, "contacts the server (%s) in state %s" % (w.wnames(o), sname)
            elif w.final(o, pool, "state") != S:
                ok, msg = False, "changes the recorded state to %r without contacting the server" % (w.final(o, pool, "state"),)
            elif sname in noop:
                if o.sig != "return":
                    ok, msg = False, "raises %s where it is a documented no-op" % w.exc(o)
            elif w.exc(o) != "InvalidRunspacePoolStateError":
                ok, msg = False, "expected InvalidRunspacePoolStateError, got %s" % (w.exc(o) or "a normal return")
            if not ok:
                break
        rep.ob("gate", ok, where, con, msg)
        return
    # acting
    opened = K(states["OPENED"])
    stmsg = ("RunspacePoolStateMessage", {"state": opened})
    scripts = {"open": [[("SessionCapability", {"protocol_version": K("2.3")})], [stmsg]], "connect": [[("SessionCapability", {"protocol_version": K("2.3")})], [stmsg]],
               "reset_runspace_state": [[("RunspaceAvailability", {"ci": K(7), "response": TRUE})]]}.get(op, [[]])
    variants = [None]
    if op == "connect":
        variants = [TRUE, FALSE]
    for var in variants:
        for mode in ("ok", "fail"):
            w = world(rep, repo, mode == "fail")
            w.model_replies(scripts)
            st = State()
            pool = w.pool(st, S)
            if var is not None:
                w.I.setattr_(st, pool, "_new_client", var)
            if op == "reset_runspace_state":
                w.I.setattr_(st, pool, "_ci_counter", K(7))
            if op == "disconnect" and mode == "ok":
                w.recorded = [w.I.abs_inst(st, "powershell.PowerShell", "recorded%d" % i, runspace_pool=pool) for i in range(3)]
                w.I.setattr_(st, pool, "pipelines", st.new(HDict(tuple((T("in_", "id%d" % i), r) for i, r in enumerate(w.recorded)))))
            outs = invoke(w, op, st, pool)
            w.done()
            if mode == "ok":
                judge_act(rep, w, op, con + ("" if var is None else " (new client=%r)" % var), where, outs, pool, states, S, var)
            else:
                for o in outs:
                    failed = [e for e in w.wires(o) if e.exc is not None]
                    if not failed:
                        continue
                    fin = w.final(o, pool, "state")
                    ok = o.sig == "raise"
                    msg = "a failing %s is swallowed" % failed[-1].name
                    if ok and len(w.wires(o)) == 1 and fin != S:
                        ok, msg = False, "state becomes %r although the first request (%s) failed" % (fin, failed[-1].name)
                    rep.ob("fail", ok, failed[-1].where, "%s%s: failing %s" % (con, "" if var is None else " (new client=%r)" % var, failed[-1].name), msg)


def judge_act(rep, w, op, con, where, outs, pool, states, S, var):
    rets = [o for o in outs if o.sig == "return"]
    ok, msg = bool(rets), "no completing path: %s" % [show(o, w) for o in outs][:3]
    for o in rets:
        names = w.wnames(o)
        fin = w.final(o, pool, "state")
        if op == "close":
            if names != ["WinRS.close"] or fin != K(states["CLOSED"]):
                ok, msg = False, "expected exactly one shell close and state CLOSED, got %s state %r" % (names, fin)
        elif op == "disconnect":
            if names != ["WSMan.disconnect"] or fin != K(states["DISCONNECTED"]):
                ok, msg = False, "expected one disconnect and state DISCONNECTED, got %s state %r" % (names, fin)
            for e in w.recorded:
                if o.st.heap[e.oid].attrs.get("state") != K(w.ps_states["DISCONNECTED"]):
                    ok, msg = False, "a pipeline of the pool is not marked DISCONNECTED"
        elif op == "connect":
            if var == FALSE:
                if names != ["WSMan.reconnect"] or fin != K(states["OPENED"]):
                    ok, msg = False, "expected one reconnect and state OPENED, got %s state %r" % (names, fin)
            else:
                if names[:1] != ["WSMan.connect"] or names.count("WSMan.connect") != 1 or fin != K(states["OPENED"]):
                    ok, msg = False, "expected one connect and the state the server reports, got %s state %r" % (names, fin)
                if w.final(o, pool, "_new_client") != FALSE:
                    ok, msg = False, "still marked as a new client after connecting"
        elif op == "open":
            if names.count("WinRS.open") != 1 or names[0] != "WinRS.open" or "WinRS.receive" not in names or fin != K(states["OPENED"]):
                ok, msg = False, "expected one shell open, then waiting until the server reports OPENED; got %s state %r" % (names, fin)
        elif op == "reset_runspace_state":
            if "WinRS.send" not in names or fin != K(states["OPENED"]):
                ok, msg = False, "expected the reset message to be sent; got %s state %r" % (names, fin)
        elif op == "get_command_metadata":
            if "WinRS.command" not in names:
                ok, msg = False, "expected a pipeline to be created; got %s" % names
        if not ok:
            break
    rep.ob("act", ok, where, con, msg)
    for o in outs:
        if o.sig == "raise" and op in ("close", "disconnect", "connect", "open"):
            rep.ob("act", False, where, con + " raises", "raises %s although every request succeeded" % w.exc(o))


def limits(rep, repo, prop, sname, sval):
    field = "_" + prop
    for mode in ("set", "yes", "no"):
        if (sname == "OPENED") != (mode != "set"):
            continue
        w = world(rep, repo)
        w.model_replies([[("RunspaceAvailability", {"ci": K(7), "response": K(mode == "yes")})]])
        st = State()
        pool = w.pool(st, K(sval), _ci_counter=K(7))
        old, new = T("in_", "old"), T("in_", "new")
        w.I.setattr_(st, pool, field, old)
        outs = w.I.call_setter(st, pool, prop, new)
        w.done()
        ok, msg = bool(outs), "no path"
        sent = 0
        for o in outs:
            fin, names = w.final(o, pool, field), w.wnames(o)
            same = w.I.decide_val(o.st, w.I.bval(w.I.eq_atom(o.st, old, new))) is True
            if mode == "set":
                if names or o.sig != "return" or fin != new:
                    ok, msg = False, "outside OPENED it must only record the value (wire=%s, value=%r, %s)" % (names, fin, o.sig)
            elif same:
                if names or o.sig != "return":
                    ok, msg = False, "setting the current value must not contact the server"
            elif mode == "yes":
                sent += 1
                if o.sig != "return" or fin != new or "WinRS.send" not in names:
                    ok, msg = False, "after a positive reply the new value must be recorded (wire=%s, value=%r)" % (names, fin)
            else:
                sent += 1
                if o.sig != "raise" or fin != old or "WinRS.send" not in names:
                    ok, msg = False, "a refused change must raise and leave the value (wire=%s, value=%r, %s)" % (names, fin, o.sig)
            if not ok:
                break
        if ok and mode != "set" and not sent:
            ok, msg = False, "the change is never sent"
        rep.ob("limits", ok, "RunspacePool.%s setter" % prop, "%s in state %s (%s)" % (prop, sname, mode), msg)


def ctxman(rep, repo):
    w = World(rep, repo)
    for m in ("open", "close"):
        w.boundary("powershell.RunspacePool." + m)
    st = State()
    pool = w.pool(st)
    outs = w.I.call_method(st, pool, "__enter__")
    rep.ob("with", all(w.wnames(o) == ["RunspacePool.open"] and o.val == pool for o in outs) and outs, "RunspacePool.__enter__",
           "enter opens and returns the pool", "%s" % [show(o, w) for o in outs])
    st = State()
    pool = w.pool(st)
    outs = w.I.call_method(st, pool, "__exit__", [T("in_", "et"), T("in_", "ev"), T("in_", "tb")])
    rep.ob("with", all(w.wnames(o) == ["RunspacePool.close"] and w.I.decide_val(o.st, o.val) is False for o in outs) and outs,
           "RunspacePool.__exit__", "exit closes and does not swallow the error", "%s" % [show(o, w) for o in outs])
    w.done()


def init_state(rep, repo):
    w = World(rep, repo)
    st = State()
    conn = w.I.abs_inst(st, "wsman.WSMan", "conn")
    outs = w.I.construct(st, w.p.cls("powershell.RunspacePool"), [conn])
    ok = bool(outs) and all(o.sig == "return" and not w.wires(o) and w.final(o, o.val, "state") == K(w.pool_states["BEFORE_OPEN"]) for o in outs)
    rep.ob("gate", ok, "RunspacePool.__init__", "a new pool is BEFORE_OPEN and has contacted nobody", "%s" % [show(o, w) for o in outs][:2])
    w.done()
