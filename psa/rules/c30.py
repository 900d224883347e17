"""C30: what needs a newer protocol than the server negotiated is refused or left out, and offered otherwise."""
from .c28 import *

TECHNIQUE = "static analysis: evaluation of the version comparison over a version grid, path enumeration of every gate and of serialised commands for each negotiated version"
VERSIONS = ("1.9", "2.0", "2.1", "2.1.9", "2.2", "2.2.0", "2.2.1", "2.3", "2.3.0.0", "2.4", "2.10", "3", "3.0", "10.0", "2.02", "11.1", "0.9", "1.10")
MERGES = {"error": None, "warning": "2.2", "verbose": "2.2", "debug": "2.2", "information": "2.3"}
SENT = {"MergeError": "2.2", "MergeWarning": "2.2", "MergeVerbose": "2.2", "MergeDebug": "2.2", "MergeInformation": "2.3"}
ALWAYS = ("MergeMyResult", "MergeToResult", "MergePreviousResults")
ATTRS = ["merge_" + m for m in MERGES] + ["merge_my_result", "merge_to_result", "merge_previous"]


def newer(a, b):
    x, y = ([int(i) for i in v.split(".")] for v in (a, b))
    n = max(len(x), len(y))
    return x + [0] * (n - len(x)) >= y + [0] * (n - len(y))


def run(rep, repo, tier):
    rep.rule("compare", "versions are compared numerically part by part, missing parts being zero", 100)
    rep.rule("reset", "the state reset is refused below 2.3 without sending anything, and sent from 2.3 on", 12)
    rep.rule("merge", "a stream merge the server does not know is refused and leaves the command as it was; otherwise it sets that merge", 80)
    rep.rule("all", "merging everything or resetting the merges sets what the server knows and nothing else, and never fails", 24)
    rep.rule("sent", "a command is sent without the merge properties the server does not know and with those it knows", 24)
    rep.rule("record", "the negotiated version is the one the server reported, and only from 2.2 on is the larger envelope used", 12)
    compare(rep, repo)
    vs = VERSIONS if tier == "thorough" else VERSIONS[:14]
    for v in vs:
        reset(rep, repo, v)
        merges(rep, repo, v)
        sent(rep, repo, v)
        record(rep, repo, v)


def compare(rep, repo):
    w = World(rep, repo)
    f = w.p.func("_utils.version_equal_or_newer")
    for a in VERSIONS:
        for b in VERSIONS:
            outs = w.I.run_func(State(), FnV(f, None, None, None), [K(a), K(b)])
            want = newer(a, b)
            got = [o.val.v if o.sig == "return" and isinstance(o.val, K) else w.exc(o) or "unknown" for o in outs]
            rep.ob("compare", bool(got) and all(g is want for g in got), "_utils.version_equal_or_newer", "%s and %s" % (a, b), "gives %s, expected %s" % (got, want))
    w.done()


def reset(rep, repo, v):
    w = World(rep, repo)
    w.model_fragmenter((1,))
    w.shallow_messages()
    w.model_replies([[("RunspaceAvailability", {"ci": K(7), "response": TRUE})]])
    st = State()
    pool = w.pool(st, K(w.pool_states["OPENED"]), protocol_version=K(v), _ci_counter=K(7))
    ci = st.new(HDict([]))
    w.I.setattr_(st, pool, "ci_table", ci)
    outs = w.I.call_method(st, pool, "reset_runspace_state")
    w.done()
    bad = None if outs else "no path analysed"
    for o in outs:
        sent_ = w.wnames(o)
        if newer(v, "2.3"):
            if "WinRS.send" not in sent_:
                bad = "nothing is sent: %s" % show(o, w)
            elif o.sig == "raise" and not any(e.exc is not None for e in w.wires(o)):
                bad = "fails although the server confirmed it: %s" % show(o, w)
        elif sent_:
            bad = "contacts the server (%s)" % sent_
        elif o.sig != "raise" or not w.lib_error(o):
            bad = "is not refused: %s" % show(o, w)
        elif w.final(o, pool, "_ci_counter") != K(7) or len(o.st.heap[ci.oid].items):
            bad = "is refused but leaves a request registered"
        elif w.final(o, pool, "state") != K(w.pool_states["OPENED"]):
            bad = "is refused but changes the pool's state"
    rep.ob("reset", bad is None, "RunspacePool.reset_runspace_state", "state reset at %s" % v, bad or "")


def setup(rep, repo, v, how):
    """a pipeline with one command made by the library for a server of version v"""
    w = World(rep, repo)
    w.model_fragmenter((1,))
    st = State()
    pool = w.pool(st, K(w.pool_states["OPENED"]), protocol_version=K(v))
    ps = w.ps(st, pool, K(w.ps_states["NOT_STARTED"]))
    w.I.setattr_(st, ps, "commands", st.new(HList([])))
    for o in w.I.call_method(st, ps, how, [K("a"), TRUE]):
        if o.sig == "return":
            cmds = o.st.heap[ps.oid].attrs["commands"]
            items = o.st.heap[cmds.oid].items
            if len(items) == 1 and isinstance(items[0], Ref):
                return w, o.st, ps, items[0]
    return w, None, None, None


def value(w, st, cmd, a):
    v = st.heap[cmd.oid].attrs.get(a)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HInst):
        x = st.heap[v.oid].attrs.get("value")
        return x.v if isinstance(x, K) else x
    return v


def merges(rep, repo, v):
    for how in ("add_cmdlet", "add_script"):
        w, st0, ps, cmd = setup(rep, repo, v, how)
        where = "PowerShell.merge_*"
        if st0 is None:
            rep.ob("merge", False, "PowerShell." + how, "%s at %s" % (how, v), "a command cannot be added")
            return
        types = const_table(w.p, "complex_objects.PipelineResultTypes")
        before = {a: value(w, st0, cmd, a) for a in ATTRS}
        for m, low in MERGES.items():
            for to in ("none", "output") + (("null",) if low else ()):
                outs = w.I.call_method(st0.copy(), ps, "merge_" + m, [K(to)])
                ok = low is None or newer(v, low)
                bad = None if outs else "no path analysed"
                for o in outs:
                    got = {a: value(w, o.st, cmd, a) for a in ATTRS}
                    if w.wires(o):
                        bad = "contacts the server"
                    elif ok:
                        others = [a for a in ATTRS if got[a] != before[a] and a != "merge_" + m and not (m == "error" and a in ("merge_my_result", "merge_to_result"))]
                        if o.sig != "return":
                            bad = "is refused: %s" % w.exc(o)
                        elif got["merge_" + m] != types[to.upper()]:
                            bad = "does not set the merge: %s" % (got["merge_" + m],)
                        elif others:
                            bad = "changes %s" % others
                        elif m == "error" and (got["merge_my_result"], got["merge_to_result"]) != ((types["ERROR"], types["OUTPUT"]) if to == "output" else (types["NONE"],) * 2):
                            bad = "the form for old servers is %s to %s" % (got["merge_my_result"], got["merge_to_result"])
                    elif o.sig != "raise" or not w.lib_error(o):
                        bad = "is not refused: %s" % show(o, w)
                    elif got != before:
                        bad = "is refused but changes the command"
                rep.ob("merge", bad is None, where, "%s to %s at %s (%s)" % (m, to, v, how), bad or "")
            outs = w.I.call_method(st0.copy(), ps, "merge_" + m, [K("nowhere")])
            bad = None if outs and all(w.lib_error(o) for o in outs) else "an unknown target is accepted"
            for o in outs:
                if {a: value(w, o.st, cmd, a) for a in ATTRS} != before:
                    bad = "an unknown target is refused but changes the command"
            rep.ob("merge", bad is None, where, "%s to an unknown target at %s (%s)" % (m, v, how), bad or "")
        for name, args, want in (("merge_all", [K("output")], types["OUTPUT"]), ("merge_all", [K("none")], types["NONE"]), ("merge_reset", [], types["NONE"])):
            st = st0.copy()
            if want == types["NONE"]:
                # everything merged before
                for a in ATTRS[:5]:
                    st, x = make(w.I, w.p, st, "complex_objects.PipelineResultTypes", value=K(types["OUTPUT"]))
                    w.I.setattr_(st, cmd, a, x)
                st, x = make(w.I, w.p, st, "complex_objects.PipelineResultTypes", value=K(types["WARNING"]))
                w.I.setattr_(st, cmd, "merge_previous", x)
            start = {a: value(w, st, cmd, a) for a in ATTRS}
            outs = w.I.call_method(st, ps, name, args)
            bad = None if outs else "no path analysed"
            for o in outs:
                if o.sig != "return":
                    bad = "fails: %s" % w.exc(o)
                    continue
                for m, low in MERGES.items():
                    got, sup = value(w, o.st, cmd, "merge_" + m), low is None or newer(v, low)
                    if sup and got != want:
                        bad = "does not set %s" % m
                    elif not sup and got != start["merge_" + m]:
                        bad = "sets %s, which the server does not know" % m
                if name == "merge_reset" and value(w, o.st, cmd, "merge_previous") != types["NONE"]:
                    bad = "leaves the merge of previous results"
            rep.ob("all", bad is None, "PowerShell.%s" % name, "%s(%s) at %s (%s)" % (name, ", ".join(repr(a.v) for a in args), v, how), bad or "")
        w.done()


def sent(rep, repo, v):
    for how in ("add_cmdlet", "add_script"):
        w, st, ps, cmd = setup(rep, repo, v, how)
        con = "a command of %s at %s" % (how, v)
        if st is None:
            rep.ob("sent", False, "PowerShell." + how, con, "a command cannot be added")
            continue
        for m in ("serialize", "deserialize"):
            w.cfg.boundary.pop("serializer.Serializer." + m, None)
        types = const_table(w.p, "complex_objects.PipelineResultTypes")
        # as a user would who sets the attributes himself
        for a in ATTRS[:5]:
            st, x = make(w.I, w.p, st, "complex_objects.PipelineResultTypes", value=K(types["OUTPUT"]))
            w.I.setattr_(st, cmd, a, x)
        bad = None
        st, ser = ser_in(w, st)
        st, pipe = make(w.I, w.p, st, "complex_objects.Pipeline", is_nested=FALSE, cmds=st.heap[ps.oid].attrs["commands"], history=NONE, redirect_err_to_out=FALSE)
        for s, x, why in there(w, st, ser, pipe):
            if x is None:
                bad = why
                continue
            names = []
            for n in preorder(s.heap, x):
                names.append(dict_text(s.heap, s.heap[n.oid], "N"))
            for a, low in SENT.items():
                k = names.count(a)
                if newer(v, low) and k != 1:
                    bad = "%s is sent %d times" % (a, k)
                elif not newer(v, low) and k:
                    bad = "%s is sent, which the server does not know" % a
            for a in ALWAYS + ("Cmd", "IsScript", "UseLocalScope", "Args"):
                if names.count(a) != 1:
                    bad = "%s is sent %d times" % (a, names.count(a))
        w.done()
        rep.ob("sent", bad is None, "complex_objects.Command", con, bad or "")


def ser_in(w, st):
    for o in w.I.construct(st, w.p.cls("serializer.Serializer")):
        if o.sig == "return":
            w.I.setattr_(o.st, o.val, "cipher", T("nn", "cipher"))
            return o.st, o.val
    raise AnalysisError("a Serializer cannot be constructed")


def record(rep, repo, v):
    for size in (153600, 512000, 40000):
        w = World(rep, repo)
        w.boundary("wsman.WSMan.update_max_payload_size")
        w.model_fragmenter((1,))
        w.shallow_messages()
        st = State()
        pool = w.pool(st, K(w.pool_states["OPENING"]), protocol_version=NONE)
        for s, con in w.I.attr(st, pool, "connection", None):
            st = s
        if not isinstance(con, Ref):
            raise AnalysisError("the pool has no connection")
        w.I.setattr_(st, con, "max_envelope_size", K(size))
        msg = w.message(st, "SessionCapability", {"protocol_version": K(v), "ps_version": K("2.0"), "serialization_version": K("1.1.0.1")}, (0, 0))
        outs = w.I.call_method(st, pool, "_process_session_capability", [msg])
        w.done()
        bad = None if outs else "no path analysed"
        for o in outs:
            ups = [e for e in w.wires(o) if e.name.endswith("update_max_payload_size")]
            if o.sig != "return":
                if not any(e.exc is not None for e in ups):
                    bad = "fails: %s" % w.exc(o)
                continue
            if w.final(o, pool, "protocol_version") != K(v):
                bad = "the version recorded is %s" % (w.final(o, pool, "protocol_version"),)
            elif newer(v, "2.2") and size == 153600:
                if len(ups) != 1 or not any(y == K(512000) for x in list(ups[0].fargs) + [x for _, x in ups[0].fkw] for y in subterms(x)):
                    bad = "the envelope is not raised to 512000"
            elif ups:
                bad = "the envelope size is changed"
        rep.ob("record", bad is None, "RunspacePool._process_session_capability", "version %s with an envelope of %d" % (v, size), bad or "")
