"""C01: every fragment of every message is sent, once and in order."""
from .common import *

TECHNIQUE = "static analysis: interprocedural flow of fragment lists to wire calls (each element sent exactly once, in order)"
PID, CID, SRV_CID = T("in_", "pipeline-id"), T("in_", "command-id"), T("in_", "server-command-id")


def run(rep, repo, tier):
    rep.rule("sent", "on every completing path every fragment produced is passed to the wire exactly once, in order, unaltered (base64 text only "
                     "inside the open, connect and command requests)", 12)
    rep.rule("route", "fragments that create or feed a pipeline carry that pipeline's command id, pool fragments none", 8)
    rep.rule("sites", "every call that fragments a message is reached by the analysed operations", 1)
    counts = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    seen = set()
    ops = {
        "open": ("pool", "open", [[("SessionCapability", {"protocol_version": K("2.3")})], "opened"]),
        "connect": ("pool", "connect", [["opened"], []]),
        "exchange_keys": ("pool", "exchange_keys", [["key"]]),
        "min_runspaces": ("set", "min_runspaces", [["avail"]]),
        "max_runspaces": ("set", "max_runspaces", [["avail"]]),
        "get_available_runspaces": ("pool", "get_available_runspaces", [["availn"]]),
        "reset_runspace_state": ("pool", "reset_runspace_state", [["avail"]]),
        "get_command_metadata": ("pool", "get_command_metadata", [[]]),
        "begin_invoke": ("ps", "begin_invoke", [[]]),
        "begin_invoke with input": ("ps", "begin_invoke", [[]]),
        "host call": ("ps", "poll_invoke", [["phost"]]),
        "pool host call": ("ps", "poll_invoke", [["rhost"]]),
    }
    for op, (kind, meth, script) in ops.items():
        judge(rep, repo, op, kind, meth, script, counts, seen)
    sites(rep, repo, seen)


def build(rep, repo, op, script, counts):
    w = World(rep, repo)
    w.model_fragmenter(counts)
    w.shallow_messages()
    one = {
        "opened": ("RunspacePoolStateMessage", {"state": K(w.pool_states["OPENED"])}),
        "avail": ("RunspaceAvailability", {"ci": K(7), "response": TRUE}),
        "availn": ("RunspaceAvailability", {"ci": K(7), "response": K(3)}),
        "key": ("EncryptedSessionKey", {}),
        "phost": ("PipelineHostCall", {}), "rhost": ("RunspacePoolHostCall", {}),
    }
    sc = []
    for b in script:
        b = [b] if isinstance(b, str) else b
        sc.append([one[x] if isinstance(x, str) else x for x in b])
    w.model_replies(sc)
    if "host" in op:
        w.p.func("host.PSHost.run_method")
        w.cfg.boundary["host.PSHost.run_method"] = "opaque"
    w.cfg.boundary["powershell.PowerShell.end_invoke"] = "opaque"
    return w


def judge(rep, repo, op, kind, meth, script, counts, seen):
    w = build(rep, repo, op, script, counts)
    I = w.I
    st = State()
    S = w.pool_states
    pst = {"open": "BEFORE_OPEN", "connect": "DISCONNECTED"}.get(op, "OPENED")
    pool = w.pool(st, K(S[pst]), _ci_counter=K(7), _new_client=TRUE, _key_exchanged=FALSE, _exchange_key=NONE, protocol_version=K("2.3"))
    if op == "exchange_keys" or "host" in op:
        I.getattr_(st, pool, "host")
    ps = w.ps(st, pool, K(w.ps_states["NOT_STARTED" if "host" not in op else "RUNNING"]), id=PID, _command_id=CID, _from_disconnect=FALSE)
    st.facts[T("truth", PID)] = True
    I.setattr_(st, ps, "commands", st.new(HList([I.abs_inst(st, "complex_objects.Command", "cmd", root=False)])))
    pl = I.getattr_(st, pool, "pipelines")
    st.heap[pl.oid] = st.heap[pl.oid].with_(items=((PID, ps),))
    if kind == "pool":
        outs = I.call_method(st, pool, meth, {"get_command_metadata": [T("in_", "names")]}.get(op, []))
    elif kind == "set":
        outs = I.call_setter(st, pool, meth, T("in_", "new"))
    else:
        args = [T("in_", "input")] if op.endswith("with input") else []
        if args:
            st.facts[T("isnone", args[0])] = False
        outs = I.call_method(st, ps, meth, args)
    w.done()
    rets = [o for o in outs if o.sig == "return"]
    where = "%s.%s" % ("PowerShell" if kind == "ps" else "RunspacePool", meth)
    multi = 0
    bad = None
    rbad = None
    for o in rets:
        made = {}
        for e in o.events:
            if e.kind == "pkg" and e.name.startswith("powershell.Fragmenter.fragment"):
                seen.add((e.mod, e.line))
                for x in o_frags(e, o):
                    made[x[0]] = x[1]
        sent = {}
        cmd_first = None
        for e in w.wires(o):
            for v in [x for x in e.fargs] + [x for _, x in e.fkw]:
                for t in walk(v):
                    if isinstance(t, T) and t.op == "frag":
                        sent.setdefault(t.args[0], []).append((t.args[1], e))
            if e.name.endswith(".send"):
                d = e.arg(1, "data")
                if not (isinstance(d, T) and d.op == "frag"):
                    bad = bad or (e.where, "what is sent is not a fragment: %r" % (d,))
        for tok, n in made.items():
            got = [i for i, _ in sent.get(tok, [])]
            if n > 1:
                multi += 1
            if got != list(range(n)):
                bad = bad or (where, "of a message of %d fragment(s), fragments %s are sent" % (n, got or "none"))
        # encodings in the requests that embed a fragment
        for e in w.wires(o):
            for v in [x for _, x in e.fkw]:
                for t in walk(v):
                    if isinstance(t, T) and any(isinstance(y, T) and y.op in ("frag",) for y in t.args) and not e.name.endswith(".send"):
                        if t.op in ("list", "tuple", "xml", "cat", "meth", "fn", "join"):
                            nm = t.args[0] if t.op in ("meth", "fn") else t.op
                            if nm not in ("base64.b64encode", "cat", "list", "tuple", "join"):
                                bad = bad or (e.where, "fragment is put into the request as %r" % (t,))
                    if isinstance(t, T) and t.op == "frag" and not e.name.endswith(".send") and not under_b64(v, t):
                        bad = bad or (e.where, "fragment is embedded without base64 encoding")
        # routing
        for e in w.wires(o):
            if not e.name.endswith(".send"):
                continue
            stream, cid = e.arg(0, "stream"), e.arg(2, "command_id", NONE)
            if "host" in op:
                continue
            if kind == "ps" or op == "get_command_metadata":
                me = e.arg(2, "command_id", NONE)
                # the server may give the command another id than the pipeline's: then that one is its command id
                good = is_server_id(me) or me == K("") or no_server_id(o)
            else:
                good = cid == NONE
            if not good or stream != K("stdin"):
                rbad = rbad or (e.where, "sent to stream %r for command %r" % (stream, cid))
    ok = bool(rets) and bad is None
    if ok and multi == 0:
        ok, bad = False, (where, "no message with several fragments is sent on any path")
    rep.ob("sent", ok, (bad or (where,))[0], op, (bad or (0, "no completing path"))[1])
    rep.ob("route", rbad is None, (rbad or (where,))[0], op, (rbad or (0, ""))[1])


def under_b64(v, frag):
    for t in walk(v):
        if isinstance(t, T) and t.op in ("fn", "meth") and t.args and t.args[0] == "base64.b64encode":
            if any(x == frag for x in walk(t)):
                return True
    return False


def is_server_id(t):
    """derived from the command response"""
    return any(isinstance(x, T) and x.op == "ret" and "WinRS.command" in str(x.args[1]) for x in subterms(t))


def no_server_id(o):
    """the path on which the command response carried no command id"""
    return any(f.op == "isnone" and v and is_server_id(f.args[0]) for f, v in o.st.facts.items()) or any(
        NONE in d and len(d) == 1 and is_server_id(t) for t, d in o.st.dom.items())


def o_frags(e, o):
    """(token, n) of the fragments this call produced, from the result recorded in the event"""
    tok = getattr(e, "tok", None)
    if tok:
        return [tok]
    return []


def sites(rep, repo, seen):
    import ast
    p = program(repo)
    miss = []
    n = 0
    for m in p.modules.values():
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ("fragment", "fragment_multiple"):
                own = isinstance(nd.func.value, ast.Name) and nd.func.value.id == "self"
                if own:
                    continue
                n += 1
                if (m.name, nd.lineno) not in seen:
                    miss.append("%s.py:%d" % (m.name, nd.lineno))
    rep.ob("sites", n > 0, "package", "%d of %d fragmenting call sites reached" % (n - len(miss), n), "no call fragments a message any more")
    if miss:
        rep.notes.append("fragmenting call sites not reached by the analysed operations: %s" % ", ".join(miss))
