"""C36: a pool is opened on the server with the settings it was given."""
from .c35 import *

TECHNIQUE = "static analysis: abstract interpretation of the pool's constructor, open, connect, get_command_metadata and the serializer for enumerated settings; the messages handed to the fragmenter and the shell request are read back and compared with the settings"
RSP = "{http://schemas.microsoft.com/wbem/wsman/1/windows/shell}"
VERSIONS = {"protocolversion": ("Version", "2.3"), "PSVersion": ("Version", "2.0"), "SerializationVersion": ("Version", "1.1.0.1")}
ARGS = {
    "no application arguments": None, "one application argument": {"a": "b"}, "empty application arguments": {},
    "falsy application arguments": {"s": "", "i": 0, "b": False, "n": None}, "nested application arguments": {"x": {"y": ["z", 1]}, "t": True},
}
SETTINGS = {
    "the defaults": ({}, {}),
    "two to five runspaces": ({"min_runspaces": 2, "max_runspaces": 5}, {"MinRunspaces": ("I32", "2"), "MaxRunspaces": ("I32", "5")}),
    "one to seven runspaces": ({"max_runspaces": 7}, {"MaxRunspaces": ("I32", "7")}),
    "three to three runspaces": ({"min_runspaces": 3, "max_runspaces": 3}, {"MinRunspaces": ("I32", "3"), "MaxRunspaces": ("I32", "3")}),
    "STA": ({"apartment_state": 0}, {"ApartmentState": num(0)}), "MTA": ({"apartment_state": 1}, {"ApartmentState": num(1)}),
    "a new thread per invocation": ({"thread_options": 1}, {"PSThreadOptions": num(1)}), "a reused thread": ({"thread_options": 2}, {"PSThreadOptions": num(2)}),
    "the current thread": ({"thread_options": 3}, {"PSThreadOptions": num(3)}),
    "thread options and apartment": ({"thread_options": 2, "apartment_state": 0}, {"PSThreadOptions": num(2), "ApartmentState": num(0)}),
    "everything": ({"min_runspaces": 4, "max_runspaces": 9, "apartment_state": 1, "thread_options": 3, "session_key_timeout_ms": 5, "configuration_name": "jea", "no_profile": True, "idle_timeout": 60},
                   {"MinRunspaces": ("I32", "4"), "MaxRunspaces": ("I32", "9"), "ApartmentState": num(1), "PSThreadOptions": num(3)}),
}
SHELLS = {
    "the defaults": ({}, "Microsoft.PowerShell", None, False),
    "another configuration": ({"configuration_name": "My.Jea"}, "My.Jea", None, False),
    "an idle timeout": ({"idle_timeout": 7200}, "Microsoft.PowerShell", "PT7200S", False),
    "no profile": ({"no_profile": True}, "Microsoft.PowerShell", None, True),
    "the profile wanted": ({"no_profile": False}, "Microsoft.PowerShell", None, False),
    "all of them": ({"no_profile": True, "idle_timeout": 60, "configuration_name": "x", "min_runspaces": 2, "max_runspaces": 3}, "x", "PT60S", True),
}


def run(rep, repo, tier):
    rep.rule("init", "opening sends the client's versions, then the pool's limits, thread options, apartment state, host and application arguments as given", 18)
    rep.rule("changed", "settings changed before opening are the ones sent", 4)
    rep.rule("shell", "the shell is created for the pool's configuration, id, streams, profile and idle timeout, carrying the first fragment", 6)
    rep.rule("connect", "connecting from another client announces the same versions and takes over the server's limits", 3)
    rep.rule("metadata", "a metadata request names the commands, types, namespaces and arguments asked for; every answer is given back in order", 7)
    for con, (kw, want) in SETTINGS.items():
        init(rep, repo, con, kw, want, None, "none")
    for con, a in ARGS.items():
        init(rep, repo, con, {}, {}, a, "none")
    for con, part in HOSTS.items():
        init(rep, repo, con, {}, {}, None, part)
    changed(rep, repo)
    for con, c in SHELLS.items():
        shell(rep, repo, con, *c)
    connect(rep, repo, tier)
    metadata(rep, repo)


def conn(w, st):
    c = w.I.abs_inst(st, "wsman.WSMan", "wsman", max_payload_size=K(100000), max_envelope_size=K(153600))
    return c


def construct(w, st, kw, host):
    args = {k: K(v) for k, v in kw.items()}
    if host != NONE:
        args["host"] = host
    c = conn(w, st)
    out = []
    for o in w.I.construct(st, w.p.cls("powershell.RunspacePool"), [c], args):
        if o.sig != "return":
            raise AnalysisError("a RunspacePool cannot be constructed: %s" % w.exc(o))
        out.append((o.st, o.val))
    return out


def first(part):
    """the pool is opened as far as the second message; later the server confirms"""
    return [[("RunspacePoolStateMessage", {"state": K(part), "error_record": NONE})]]


def wanted(want, args, host):
    t = {"MinRunspaces": ("I32", "1"), "MaxRunspaces": ("I32", "1"), "PSThreadOptions": num(0), "ApartmentState": num(2), "HostInfo": host}
    t.update(want)
    if args is not None:
        t["ApplicationArguments"] = {"dct": [(prim(a), prim(b)) for a, b in args.items()]}
    return t


def opened(rep, repo, kw, args, part, before=None):
    """[(world, outcome)] of opening a pool with these settings"""
    w = World(rep, repo)
    w.model_replies(first(w.pool_states["OPENED"]))
    capture(w, ("SessionCapability", "InitRunspacePool"))
    st, hv, tree = local_host(w, State(), part)
    out = []
    for s, pool in construct(w, st, kw, hv):
        states = [s]
        if before:
            for n, v in before:
                nxt = []
                for s2 in states:
                    if w.p.find_member(w.p.cls("powershell.RunspacePool"), n):
                        nxt += [o.st for o in w.I.call_setter(s2, pool, n, K(v)) if o.sig == "return"]
                    else:
                        w.I.setattr_(s2, pool, n, K(v))
                        nxt.append(s2)
                states = nxt
        for s2 in states:
            s2.globals["made"] = ()
            s2, av = value_of(w, s2, args)
            for o in w.I.call_method(s2, pool, "open", [av] if args is not None else [], {}):
                out.append((w, o, pool))
    w.done()
    return out, tree


def judge_open(outs, tree):
    bad, n = None, 0
    for w, o, pool in outs:
        if o.sig != "return":
            if not any(e.exc is not None for e in w.wires(o)):
                bad = bad or "fails: %s" % w.exc(o)
            continue
        n += 1
        made = o.st.globals.get("made", ())
        if [c for c, _ in made] != ["SessionCapability", "InitRunspacePool"]:
            bad = bad or "the messages sent are %s" % [c for c, _ in made]
            continue
        for (c, got), want in zip(made, (VERSIONS, tree)):
            if isinstance(got, str):
                bad = bad or got
                continue
            got = dict(got)
            got.pop("TimeZone", None)
            d = same_tree(drop_null(got), drop_null(want))
            if d:
                bad = bad or "%s of %s is sent as %s instead of %s" % (d[0], c, str(d[1])[:80], str(d[2])[:80])
    return bad or (None if n else "no path completes")


def init(rep, repo, con, kw, want, args, part):
    outs, host = opened(rep, repo, kw, args, part)
    bad = judge_open(outs, wanted(want, args, host))
    rep.ob("init", bad is None, "RunspacePool.open", con, bad or "")


def changed(rep, repo):
    for con, before, want in (("more runspaces at most", [("max_runspaces", 6)], {"MaxRunspaces": ("I32", "6")}),
                              ("more runspaces at least", [("max_runspaces", 6), ("min_runspaces", 2)], {"MaxRunspaces": ("I32", "6"), "MinRunspaces": ("I32", "2")}),
                              ("another apartment state", [("apartment_state", 0)], {"ApartmentState": num(0)}),
                              ("other thread options", [("thread_options", 3)], {"PSThreadOptions": num(3)})):
        outs, host = opened(rep, repo, {}, None, "none", before)
        bad = judge_open(outs, wanted(want, None, host))
        rep.ob("changed", bad is None, "RunspacePool.open", con, bad or "")


# ------------------------------------------------------------------------------------------------------------------ the shell request
def packed(w, st, v):
    """[(name, attributes, text)] of an option or selector set"""
    if not isinstance(v, Ref):
        return []
    for o in w.I.call_method(st.copy(), v, "pack", [], {}):
        if o.sig == "return" and isinstance(o.val, Ref):
            out = []
            for c in o.st.heap[o.val.oid].children:
                h = o.st.heap[c.oid]
                d = o.st.heap[h.attrib.oid] if isinstance(h.attrib, Ref) else None
                at = {k.v: x.v if isinstance(x, K) else x for k, x in d.items} if isinstance(d, HDict) else {}
                out.append((at.pop("Name", None), at, h.text.v if isinstance(h.text, K) else h.text))
            return out
    return [("not packable", {}, None)]


def tag_of(h):
    return h.tag.v if isinstance(h.tag, K) else h.tag


def watch(w, op, seen):
    """record what the connection is asked to do; the path goes no further"""
    def h(I, st, fv, args, kw, ctx, node):
        for s0, vals in I.bind_args(st, fv.func, fv.self_, args, kw, ctx, node):
            if not isinstance(vals, Raised):
                seen.append((s0, vals))
        return []
    w.cfg.boundary["wsman.WSMan." + op] = h


def shell(rep, repo, con, kw, name, idle, noprofile):
    w = World(rep, repo)
    w.model_fragmenter((1, 2))
    for m in ("open", "command"):
        w.cfg.boundary.pop("shell.WinRS." + m, None)
    seen = []
    watch(w, "create", seen)
    bad = None
    for s, pool in construct(w, State(), kw, NONE):
        for o in w.I.call_method(s, pool, "open", [], {}):
            if not seen:
                bad = "opens without creating a shell"
        pid = s.heap[pool.oid].attrs.get("id")
    for st, v in seen:
        body = v.get("resource")
        uri = v.get("resource_uri")
        if uri != K("http://schemas.microsoft.com/powershell/" + name):
            bad = "is created for %s" % str(uri)[:100]
        opts = packed(w, st, v.get("option_set"))
        want = {("protocolversion", "2.3", "true")} | ({("WINRS_NOPROFILE", "TRUE", "true")} if noprofile else set())
        got = [(n, t, str(a.get("MustComply", "")).lower()) for n, a, t in opts]
        if len(got) != len(want) or set(got) != want:
            bad = "is created with the options %s" % got
        h = st.heap.get(body.oid) if isinstance(body, Ref) else None
        if not isinstance(h, HXml) or tag_of(h) != RSP + "Shell":
            bad = "is created with another body"
            continue
        if pid is None or dict_text(st.heap, h, "ShellId") != (pid.v if isinstance(pid, K) else pid):
            bad = "is created with another id than the pool's"
        kids = {}
        for c in h.children:
            kids.setdefault(tag_of(st.heap[c.oid]).split("}")[-1], []).append(st.heap[c.oid].text)
        exp = {"InputStreams": [K("stdin pr")], "OutputStreams": [K("stdout")]}
        if idle:
            exp["IdleTimeOut"] = [K(idle)]
        for k, x in exp.items():
            if kids.get(k) != x:
                bad = "%s is %s" % (k, kids.get(k))
        for k in kids:
            if k not in exp and k != "creationXml":
                bad = "has an unasked %s" % k
        cx = kids.get("creationXml", [])
        frs = [t for x in cx for t in walk(x, True) if isinstance(t, T) and t.op == "frag"]
        if len(cx) != 1 or len(set(frs)) != 1 or frs[0].args[1] != 0:
            bad = "does not carry the first fragment"
    w.done()
    rep.ob("shell", bad is None and bool(seen), "RunspacePool.open", con, bad or ("" if seen else "no shell is created"))


# ------------------------------------------------------------------------------------------------------------------ connecting
def connect(rep, repo, tier):
    w = World(rep, repo)
    capture(w, ("SessionCapability", "ConnectRunspacePool"))
    seen = []
    watch(w, "connect", seen)
    st = State()
    pool = w.pool(st, K(w.pool_states["DISCONNECTED"]), _new_client=TRUE)
    st.globals["made"] = ()
    bad = None
    for o in w.I.call_method(st, pool, "connect", [], {}):
        bad = "completes without contacting the server"
    for s, v in seen:
        made = s.globals.get("made", ())
        if [c for c, _ in made] != ["SessionCapability", "ConnectRunspacePool"]:
            bad = "the messages sent are %s" % [c for c, _ in made]
            continue
        for (c, got), want in zip(made, (VERSIONS, {})):
            if isinstance(got, str):
                bad = got
                continue
            got = dict(got)
            got.pop("TimeZone", None)
            d = same_tree(drop_null(got), want)
            if d:
                bad = "%s of %s is sent as %s instead of %s" % (d[0], c, str(d[1])[:80], str(d[2])[:80])
        got = [(n, t) for n, a, t in packed(w, s, v.get("option_set"))]
        if got != [("protocolversion", "2.3")]:
            bad = "the options are %s" % got
    w.done()
    rep.ob("connect", bad is None and bool(seen), "RunspacePool.connect", "what the server is told", bad or ("" if seen else "the server is not contacted"))
    for lo, hi in ((2, 9), (1, 1)):
        w = World(rep, repo)
        st = State()
        pool = w.pool(st, K(w.pool_states["CONNECTING"]) if "CONNECTING" in w.pool_states else None, _min_runspaces=K(77), _max_runspaces=K(78))
        msg = w.message(st, "RunspacePoolInitData", {"min_runspaces": K(lo), "max_runspaces": K(hi)}, (0, 0))
        bad = None
        n = 0
        for o in w.I.call_method(st, pool, "_process_runspacepool_init_data", [msg], {}):
            n += 1
            for a, v in (("min_runspaces", lo), ("max_runspaces", hi)):
                for s2, x in w.I.attr(o.st, pool, a, None):
                    if x != K(v):
                        bad = "%s is %s afterwards" % (a, str(x)[:60])
        w.done()
        rep.ob("connect", bad is None and n > 0, "RunspacePool", "a server with %d to %d runspaces" % (lo, hi), bad or ("" if n else "no path"))


# ------------------------------------------------------------------------------------------------------------------ metadata
META = {
    "one name": (["Get-Item"], {}, {"Name": ["Get-Item"]}),
    "a name not in a list": ("Get-*", {}, {"Name": ["Get-*"]}),
    "two names": (["b", "a"], {}, {"Name": ["b", "a"]}),
    "cmdlets only": (["x"], {"command_types": 8}, {"Name": ["x"], "CommandType": 8}),
    "a namespace": (["x"], {"namespace": ["ns", "other"]}, {"Name": ["x"], "Namespace": ["ns", "other"]}),
    "arguments": (["x"], {"arguments": ["p", 1]}, {"Name": ["x"], "ArgumentList": ["p", 1]}),
    "all of them": (["x", "y"], {"command_types": 2, "namespace": ["n"], "arguments": ["q"]}, {"Name": ["x", "y"], "CommandType": 2, "Namespace": ["n"], "ArgumentList": ["q"]}),
}


def plain_list(t):
    if isinstance(t, list):
        return [x[1] if isinstance(x, tuple) else x for x in t]
    return t


def metadata(rep, repo):
    every = const_table(World(rep, repo).p, "complex_objects.CommandType").get("ALL")
    for con, (names, kw, want) in META.items():
        w = World(rep, repo)
        capture(w, ("GetCommandMetadata",))
        seen = []

        def h(I, st, fv, args, kw2, ctx, node):
            seen.append(st)
            return []
        w.cfg.boundary["powershell.PowerShell.end_invoke"] = h
        w.p.func("powershell.PowerShell.end_invoke")
        st, pool = pool_of(w, "2.3")
        st.globals["made"] = ()
        st, nv = value_of(w, st, names)
        kws = {}
        for k, v in kw.items():
            st, kws[k] = value_of(w, st, v)
        for o in w.I.call_method(st, pool, "get_command_metadata", [nv], kws):
            pass
        bad = None
        for s in seen:
            made = [t for c, t in s.globals.get("made", ())]
            if len(made) != 1 or not isinstance(made[0], dict):
                bad = "the request sent is %s" % (str(made)[:100])
                continue
            got = made[0]
            for k in ("Name", "Namespace", "ArgumentList"):
                exp = [str(x) for x in want[k]] if k in want else None
                if plain_list(got.get(k)) != exp and not (exp is None and got.get(k) in (None, [])):
                    bad = "%s is sent as %s" % (k, str(got.get(k))[:100])
            ct = got.get("CommandType")
            n = ct.get("#") if isinstance(ct, dict) else ct[1] if isinstance(ct, tuple) else ct
            if str(n) != str(want.get("CommandType", every)):
                bad = "CommandType is sent as %s" % (ct,)
        w.done()
        rep.ob("metadata", bad is None and bool(seen), "RunspacePool.get_command_metadata", con, bad or ("" if seen else "nothing is sent"))
    # the answers
    for k in (0, 1, 3):
        w = World(rep, repo)
        w.model_fragmenter((1,))
        items = [T("nn", "answer%d" % i) for i in range(k + 1)]

        def end(I, st, fv, args, kw2, ctx, node):
            return [(st, st.new(HList(list(items))))]
        w.cfg.boundary["powershell.PowerShell.end_invoke"] = end
        st, pool = pool_of(w, "2.3")
        bad, n = None, 0
        for o in w.I.call_method(st, pool, "get_command_metadata", [K("x")], {}):
            if o.sig != "return":
                if not any(e.exc is not None for e in o.events):
                    bad = "fails: %s" % w.exc(o)
                continue
            n += 1
            got = o.st.heap[o.val.oid].items if isinstance(o.val, Ref) and isinstance(o.st.heap.get(o.val.oid), HList) else None
            if got is None or len(got) != k:
                bad = "%s answers are given back" % (len(got) if got is not None else "other")
                continue
            sers = [e for e in o.events if e.kind == "pkg" and e.name == "serializer.Serializer.deserialize"]
            for i, g in enumerate(got):
                e = [x for x in sers if x.res == g]
                if not e or not any(y == items[i + 1] for x in list(e[0].fargs) + [x for _, x in e[0].fkw] for y in subterms(x)):
                    bad = "the answers are not given back in order"
        w.done()
        rep.ob("metadata", bad is None and n > 0, "RunspacePool.get_command_metadata", "%d commands answered" % k, bad or ("" if n else "no path completes"))
