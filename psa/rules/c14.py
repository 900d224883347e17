"""C14: pool requests wait for the answer to their own call id."""
from .common import *

TECHNIQUE = "static analysis: path enumeration of every pool request against scripted replies (own, foreign, negative), with the table of waiting requests as abstract state"
V, VAL2 = T("in_", "value"), T("in_", "value2")
# request -> (message class, negative reply raises)
REQ = {"min_runspaces": ("SetMinRunspaces", True), "max_runspaces": ("SetMaxRunspaces", True),
       "get_available_runspaces": ("GetAvailableRunspaces", False), "reset_runspace_state": ("ResetRunspaceState", True)}
LIMITS = ("_min_runspaces", "_max_runspaces")
FOREIGN = T("in_", "foreign-id")


def run(rep, repo, tier):
    rep.rule("own", "the request carries its own id and value, is registered before it is sent, and is sent once", 4)
    rep.rule("wait", "the request returns only after the reply carrying its own id; the reply to another request answers that one alone", 8)
    rep.rule("done", "once answered, positively or negatively, the request is no longer registered", 8)
    rep.rule("negative", "a negative reply raises one of the library's errors; zero available runspaces is an answer", 4)
    rep.rule("limits", "the recorded limits change only by the setter of that limit, and only on a positive reply", 12)
    rep.rule("unique", "no two requests of a pool use the same id, whatever came between", 16)
    rep.rule("fail", "a failing send or receive reaches the caller and leaves the limits unchanged", 8)
    for op in REQ:
        positive(rep, repo, op)
        foreign(rep, repo, op)
        negative(rep, repo, op)
        failing(rep, repo, op)
        local(rep, repo, op)
        for new in (False, True):
            reconnected(rep, repo, op, new)
        for op2 in REQ:
            for neg in (False, True) if tier == "thorough" or op == op2 else (False,):
                unique(rep, repo, op, op2, neg)


def world(rep, repo, script):
    w = World(rep, repo)
    w.model_fragmenter((1,))
    w.shallow_messages()
    w.model_replies(script)
    w.cfg.while_max = 5
    w.tables = []

    def send(I, st, fv, args, kw, ctx, node):
        pool = st.globals.get("pool")
        tab = st.heap[pool.oid].attrs.get("ci_table") if pool is not None else None
        out = []
        for s, v in I.boundary_event(st, fv, args, kw, ctx, node):
            s.trace[1].tok = tuple(k for k, _ in s.heap[tab.oid].items) if isinstance(tab, Ref) and isinstance(s.heap[tab.oid], HDict) else ()
            out.append((s, v))
        return out
    w.cfg.boundary["shell.WinRS.send"] = send
    return w


def requests(evs):
    """(class, ci, value, frag event) of the pool requests fragmented so far"""
    out = []
    for e in evs:
        if e.kind == "pkg" and e.name.startswith("powershell.Fragmenter.fragment"):
            for m in [y for x in [x for _, x in e.fkw] + list(e.fargs) for y in subterms(x)]:
                if isinstance(m, T) and m.op == "inst" and any(k == "ci" for k, _ in m.args[2]):
                    d = dict(m.args[2])
                    cls = m.args[0].rsplit(".", 1)[-1]
                    out.append((cls, d["ci"], [v for k, v in d.items() if k != "ci"], e))
    return out


def own(i=-1):
    def f(I, st):
        r = requests(st.events())
        return r[i][1] if r else K("no request was sent")
    return f


def setup(w):
    st = State()
    pool = w.pool(st, K(w.pool_states["OPENED"]))
    I = w.I
    I.setattr_(st, pool, "protocol_version", K("2.3"))
    for a in LIMITS:
        I.setattr_(st, pool, a, T("in_", "old" + a))
        for v in (V, VAL2):
            differ(I, st, v, T("in_", "old" + a))
    differ(I, st, V, VAL2)
    I.setattr_(st, pool, "_ci_counter", T("in_", "counter"))
    I.setattr_(st, pool, "ci_table", st.new(HDict(())))
    st.globals["pool"] = pool
    return st, pool


def differ(I, st, a, b):
    for x, y in ((a, b), (b, a)):
        t = I.eq_atom(st, x, y)
        if isinstance(t, T):
            if t.op == "not":
                st.facts[t.args[0]] = True
            else:
                st.facts[t] = False


def call(w, st, pool, op, val=V):
    if op in ("min_runspaces", "max_runspaces"):
        return w.I.call_setter(st, pool, op, val)
    return w.I.call_method(st, pool, op)


def reply(ci, v):
    return ("RunspaceAvailability", {"ci": ci, "response": v})


def good(op):
    return K(7) if op == "get_available_runspaces" else TRUE


def limits(w, o, pool):
    return tuple(w.final(o, pool, a) for a in LIMITS)


OLD = tuple(T("in_", "old" + a) for a in LIMITS)


def new_limits(op, val=V):
    return tuple(val if a == "_" + op else T("in_", "old" + a) for a in LIMITS)


def registered(w, o, pool, ci):
    return dict_has(w.I, o.st, w.final(o, pool, "ci_table"), ci) is not None


def positive(rep, repo, op):
    w = world(rep, repo, [[reply(own(), good(op))]])
    st, pool = setup(w)
    ok, dn, lim, n = None, None, None, 0
    for o in call(w, st, pool, op):
        n += 1
        if o.sig != "return":
            ok = "fails with %s on a positive reply" % w.exc(o)
            continue
        rq = requests(o.events)
        names = w.wnames(o)
        if len(rq) != 1 or rq[0][0] != REQ[op][0] or names.count("WinRS.send") != 1:
            ok = "expected one %s request, got %s %s" % (REQ[op][0], [r[0] for r in rq], names)
            continue
        snd = [e for e in w.wires(o) if e.name == "shell.WinRS.send"][0]
        if not any(w.I.eq_atom(o.st, k, rq[0][1]) is True for k in (snd.tok or ())):
            ok = "not registered under its id when it is sent"
        if op.endswith("runspaces") and op[:3] in ("min", "max") and rq[0][2] != [V]:
            ok = "asks for %r" % (rq[0][2],)
        if names.index("WinRS.send") > names.index("WinRS.receive"):
            ok = "waits before sending"
        if op == "get_available_runspaces" and o.val != K(7):
            ok = "returns %r" % (o.val,)
        if registered(w, o, pool, rq[0][1]):
            dn = "still registered after its positive reply"
        if limits(w, o, pool) != new_limits(op):
            lim = "limits after a positive reply: %r" % (limits(w, o, pool),)
    if not n or w.I.cut:
        ok = ok or "never returns although the reply arrived"
    rep.ob("own", ok is None, where(op), op, ok or "")
    rep.ob("done", dn is None and ok is None, where(op), op + ": positive", dn or ok or "")
    rep.ob("limits", lim is None and ok is None, where(op), op + ": positive", lim or ok or "")
    w.done()


def where(op):
    return "RunspacePool.%s" % op


def foreign(rep, repo, op):
    """the reply to another waiting request arrives first, in a packet of its own or in the same one"""
    for label, script in (("another reply first", [[reply(FOREIGN, K(3))], [], [reply(own(), good(op))]]),
                          ("both replies in one packet", [[reply(FOREIGN, K(3)), reply(own(), good(op))]])):
        w = world(rep, repo, script)
        st, pool = setup(w)
        # another request of this pool waits with the identity handler: its own reply is what it stores
        idf = T("in_", "foreign-handler")
        w.I.setattr_(st, pool, "ci_table", st.new(HDict(((FOREIGN, idf),))))
        differ(w.I, st, FOREIGN, T("in_", "counter"))
        bad, n = None, 0
        for o in call(w, st, pool, op):
            n += 1
            got = w.wnames(o).count("WinRS.receive")
            if o.sig != "return":
                bad = "fails with %s" % w.exc(o)
            elif got != len(script):
                bad = "returns after %d packet(s) although its reply came in packet %d" % (got, len(script))
            elif op == "get_available_runspaces" and o.val != K(7):
                bad = "returns %r, not the value of its own reply" % (o.val,)
            elif limits(w, o, pool) != new_limits(op):
                bad = "limits: %r" % (limits(w, o, pool),)
            else:
                v = dict_has(w.I, o.st, w.final(o, pool, "ci_table"), FOREIGN)
                if v is None or v == idf:
                    bad = "the reply to the other request is lost"
        if not n or w.I.cut:
            bad = bad or "never returns although its reply arrived"
        rep.ob("wait", bad is None, where(op), "%s: %s" % (op, label), bad or "")
        w.done()


def negative(rep, repo, op):
    v = K(0) if op == "get_available_runspaces" else FALSE
    w = world(rep, repo, [[reply(own(), v)]])
    st, pool = setup(w)
    neg = dn = lim = None
    n = 0
    for o in call(w, st, pool, op):
        n += 1
        rq = requests(o.events)
        if REQ[op][1]:
            if not w.lib_error(o):
                neg = "a negative reply ends in %s %s" % (o.sig, w.exc(o) or "")
        elif o.sig != "return" or o.val != v:
            neg = "%s %s for the answer 0" % (o.sig, w.exc(o) or o.val)
        if not rq or registered(w, o, pool, rq[-1][1]):
            dn = "still registered after its negative reply"
        if limits(w, o, pool) != OLD:
            lim = "limits after a negative reply: %r" % (limits(w, o, pool),)
    if not n or w.I.cut:
        neg = neg or "keeps waiting after its negative reply"
    rep.ob("negative", neg is None, where(op), op, neg or "")
    rep.ob("done", dn is None, where(op), op + ": negative", dn or "")
    rep.ob("limits", lim is None, where(op), op + ": negative", lim or "")
    w.done()


def failing(rep, repo, op):
    for what in ("send", "receive"):
        w = world(rep, repo, [[reply(own(), good(op))]])
        w.cfg.raises = lambda ev, st: ["psa.OtherError"] if ev.kind == "pkg" and ev.name == "shell.WinRS." + what else ()
        st, pool = setup(w)
        bad, n = None, 0
        for o in call(w, st, pool, op):
            if any(e.exc for e in w.wires(o)):
                n += 1
                if o.sig != "raise" or w.exc(o) != "psa.OtherError":
                    bad = "the failure of the %s does not reach the caller (%s %s)" % (what, o.sig, w.exc(o))
                elif limits(w, o, pool) != OLD:
                    bad = "limits after a failed %s: %r" % (what, limits(w, o, pool))
        rep.ob("fail", bad is None and n > 0, where(op), "%s: failing %s" % (op, what), bad or "nothing analysed")
        w.done()


def local(rep, repo, op):
    """before the pool is open a limit is recorded for the creation; the same value again needs no request"""
    if op not in ("min_runspaces", "max_runspaces"):
        return
    for sname in ("BEFORE_OPEN",):
        w = world(rep, repo, [])
        st, pool = setup(w)
        w.I.setattr_(st, pool, "state", K(w.pool_states[sname]))
        outs = call(w, st, pool, op)
        bad = None if outs and all(o.sig == "return" and not w.wires(o) and limits(w, o, pool) == new_limits(op) for o in outs) else \
            "%s" % [(show(o, w), limits(w, o, pool)) for o in outs][:1]
        rep.ob("limits", bad is None, where(op), "%s: in state %s" % (op, sname), bad or "")
        w.done()
    w = world(rep, repo, [])
    st, pool = setup(w)
    outs = call(w, st, pool, op, T("in_", "old_" + op))
    bad = None if outs and all(limits(w, o, pool) == OLD for o in outs) else "%s" % [limits(w, o, pool) for o in outs][:1]
    rep.ob("limits", bad is None, where(op), "%s: the recorded value again" % op, bad or "")
    w.done()


def unique(rep, repo, op, op2, neg):
    first = (K(0) if op == "get_available_runspaces" else FALSE) if neg else good(op)
    w = world(rep, repo, [[reply(own(), first)], [reply(own(), good(op2))]])
    st, pool = setup(w)
    bad, n = None, 0
    for o1 in call(w, st, pool, op):
        for o in call(w, o1.st, pool, op2, VAL2):
            rq = requests(o.events)
            n += 1
            if len(rq) != 2:
                bad = "%d requests instead of 2" % len(rq)
            elif w.I.eq_atom(o.st, rq[0][1], rq[1][1]) is not False:
                bad = "the second request uses id %r, the first %r" % (rq[1][1], rq[0][1])
            elif not certain_larger(rq[0][1], rq[1][1]):
                bad = "ids of successive requests do not keep growing: %r, %r" % (rq[0][1], rq[1][1])
    rep.ob("unique", bad is None and n > 0, where(op), "%s then %s%s" % (op, op2, " after a negative reply" if neg else ""), bad or "nothing analysed")
    w.done()


def reconnected(rep, repo, op, new):
    """a request, then the pool is disconnected and connected again, then another request"""
    opened = ("RunspacePoolStateMessage", {"state": K(World(rep, repo).pool_states["OPENED"])})
    w = world(rep, repo, [[reply(own(), good(op))]] + ([[opened], []] if new else []) + [[reply(own(), good(op))]])
    st, pool = setup(w)
    bad, n = None, 0
    for o1 in call(w, st, pool, op):
        for o2 in w.I.call_method(o1.st, pool, "disconnect"):
            w.I.setattr_(o2.st, pool, "_new_client", TRUE if new else FALSE)
            for o3 in w.I.call_method(o2.st, pool, "connect"):
                if o3.sig != "return":
                    bad = "connecting fails: %s" % w.exc(o3)
                    continue
                for o in call(w, o3.st, pool, op, VAL2):
                    rq = requests(o.events)
                    n += 1
                    if len(rq) != 2:
                        bad = "%d requests instead of 2" % len(rq)
                    elif w.I.eq_atom(o.st, rq[0][1], rq[1][1]) is not False or not certain_larger(rq[0][1], rq[1][1]):
                        bad = "the id after connecting again is %r, an earlier one %r" % (rq[1][1], rq[0][1])
    rep.ob("unique", bad is None and n > 0, where(op), "%s, disconnected and connected%s, again" % (op, " as a new client" if new else ""), bad or "nothing analysed")
    w.done()


def certain_larger(a, b):
    """with a counter: strictly larger, so that no earlier id comes back either; other fresh ids only need to differ"""
    d = lin_add(lin_of(b), lin_of(a), -1) if lin_of(a) is not None and lin_of(b) is not None else None
    if d is None or d[1]:
        return True
    return d[0] > 0
