"""C04: every message type is encoded, decoded and routed consistently."""
from .common import *
from ..layout import written, field_at, read

TECHNIQUE = "static analysis: table cross-check of message codes, classes and decoders against MS-PSRP, header layout agreement, handler reachability"
# [MS-PSRP] 2.2.1 MessageType
SPEC = {
    "SessionCapability": 0x00010002, "InitRunspacePool": 0x00010004, "PublicKey": 0x00010005, "EncryptedSessionKey": 0x00010006,
    "PublicKeyRequest": 0x00010007, "ConnectRunspacePool": 0x00010008, "RunspacePoolInitData": 0x0002100B, "ResetRunspaceState": 0x0002100C,
    "SetMaxRunspaces": 0x00021002, "SetMinRunspaces": 0x00021003, "RunspaceAvailability": 0x00021004, "RunspacePoolStateMessage": 0x00021005,
    "CreatePipeline": 0x00021006, "GetAvailableRunspaces": 0x00021007, "UserEvent": 0x00021008, "ApplicationPrivateData": 0x00021009,
    "GetCommandMetadata": 0x0002100A, "RunspacePoolHostCall": 0x00021100, "RunspacePoolHostResponse": 0x00021101, "PipelineInput": 0x00041002,
    "EndOfPipelineInput": 0x00041003, "PipelineOutput": 0x00041004, "ErrorRecordMessage": 0x00041005, "PipelineState": 0x00041006,
    "DebugRecord": 0x00041007, "VerboseRecord": 0x00041008, "WarningRecord": 0x00041009, "ProgressRecord": 0x00041010,
    "InformationRecord": 0x00041011, "PipelineHostCall": 0x00041100, "PipelineHostResponse": 0x00041101,
}
X = T("in_", "message-bytes")


def run(rep, repo, tier):
    rep.rule("code", "every message class declares the numeric code MS-PSRP assigns to it", 31)
    rep.rule("decode", "a message of each code is decoded into the class that declares this code", 31)
    rep.rule("header", "the header is written and read as destination, type, pool id, pipeline id, data at the same offsets, widths and byte order", 8)
    rep.rule("body", "each message is written with the body its type has (empty, bare string, or the serialised data)", 31)
    rep.rule("route", "every message the server can send to a pool takes effect there; a message without handler is no error", 9)
    w = World(rep, repo)
    codes = {}
    for cn, code in SPEC.items():
        cls = w.p.cls("messages." + cn)
        v = w.I.cls_attr(State(), cls, "MESSAGE_TYPE")[0][1]
        rep.ob("code", v == K(code), "messages.%s" % cn, cn, "declares %r, MS-PSRP 0x%08X" % (v, code))
        codes[cn] = v
    for cn, code in SPEC.items():
        decode(rep, repo, cn, code)
        body(rep, repo, cn)
    header(rep, repo)
    routes(rep, repo)


def unpack_world(rep, repo, code=None):
    w = World(rep, repo)

    def up(I, st, recv, args, kw, ctx, node):
        t = T("fn", "struct.unpack", *[I.freeze(st, a) for a in args])
        from ..layout import _fields
        n = len(_fields(args[0].v)) if isinstance(args[0], K) else 1
        vals = []
        for i in range(n):
            it = T("item", t, K(i))
            r = read(it)
            vals.append(K(code) if code is not None and r == (X, 4, 4, "<") else it)
        return [(st, T("tuple", *vals))]
    w.cfg.ext["struct.unpack"] = up
    w.cfg.ext["struct.unpack_from"] = up
    w.cfg.boundary["_utils.to_string"] = None
    w.cfg.boundary.pop("_utils.to_string")
    w.cfg.boundary["_utils.to_unicode"] = lambda I, st, fv, a, k, c, n: [(st, T("text", I.freeze(st, a[0])))]
    return w


def decode(rep, repo, cn, code):
    w = unpack_world(rep, repo, code)
    I = w.I
    st = State()
    ser = I.abs_inst(st, "serializer.Serializer", "ser")
    outs = I.run_func(st, FnV(w.p.func("messages.Message.unpack"), None, None, None), [X, ser])
    w.done()
    bad = None if outs else "no path"
    texts = set()
    for o in outs:
        if o.sig != "return":
            bad = "raises %s" % w.exc(o)
            break
        m = o.st.heap.get(o.val.oid) if isinstance(o.val, Ref) else None
        if not (isinstance(m, HInst) and getattr(m.cls, "name", "") == "Message"):
            bad = "does not return a message"
            break
        d = m.attrs.get("data")
        dn = getattr(getattr(o.st.heap.get(d.oid), "cls", None), "name", None) if isinstance(d, Ref) else None
        des = [e for e in o.events if e.kind == "pkg" and e.name == "serializer.Serializer.deserialize"]
        for e in des:
            texts.add(e.arg(0, "element"))
        if cn in ("PipelineOutput", "PipelineInput"):
            if dn != cn or not des or o.st.heap[d.oid].attrs.get("data") != des[-1].res:
                bad = "decoded into %s, data %r" % (dn, o.st.heap[d.oid].attrs.get("data") if dn else d)
        elif cn == "PublicKeyRequest":
            if dn != cn:
                bad = "decoded into %s" % dn
        else:
            ok = False
            for e in des:
                meta = e.kw and dict(e.kw).get("metadata")
                mo = o.st.heap.get(meta.oid) if isinstance(meta, Ref) else None
                obj = mo.attrs.get("object") if isinstance(mo, HInst) else None
                if isinstance(obj, ClsV) and obj.cls.qual == "messages." + cn and d == e.res:
                    ok = True
            if not ok:
                bad = "not decoded into messages.%s" % cn
        if bad:
            break
    for t in texts:
        body_ok = isinstance(t, T) and t.op == "text" and isinstance(t.args[0], T) and t.args[0].op == "slice" and t.args[0].args[0] == X and \
            t.args[0].args[1] in (K(40), K(43)) and t.args[0].args[2] == NONE
        if not body_ok and not bad:
            bad = "decodes %r, not the data after the header" % (t,)
    rep.ob("decode", bad is None, "messages.Message.unpack", cn, bad or "")


def message(w, st, cn, ser):
    I = w.I
    mc, dc = w.p.cls("messages.Message"), w.p.cls("messages." + cn)
    data = st.new(HInst(dc, {"data": T("in_", "payload"), "min_runspaces": NONE if cn == "ConnectRunspacePool" else T("in_", "mr"),
                             "max_runspaces": NONE if cn == "ConnectRunspacePool" else T("in_", "xr")}, sym=True, name=T("in_", "data")))
    return data


def body(rep, repo, cn):
    w = World(rep, repo)
    I = w.I
    st = State()
    ser = I.abs_inst(st, "serializer.Serializer", "ser")
    data = message(w, st, cn, ser)
    outs = I.construct(st, w.p.cls("messages.Message"), [K(2), K("{00000000-0000-0000-0000-000000000001}"), NONE, data, ser])
    bad = None if outs else "no path"
    for o in outs:
        if o.sig != "return":
            bad = "raises %s" % w.exc(o)
            break
        for o2 in I.call_method(o.st, o.val, "pack"):
            if o2.sig != "return":
                bad = "pack raises %s" % w.exc(o2)
                break
            f = written(I.freeze(o2.st, o2.val))
            raw = f[-1] if f else None
            ser_ev = [e for e in o2.events if e.kind == "pkg" and e.name == "serializer.Serializer.serialize"]
            if not f or field_at(f, 4, 4, "<") != K(SPEC[cn]):
                bad = "type field is %r" % (field_at(f, 4, 4, "<") if f else None,)
            elif cn == "EndOfPipelineInput":
                if ser_ev or (raw[3] == "raw" and "bytes_le" not in repr(raw[4])):
                    bad = "has a body %r" % (raw,)
            elif cn in ("PublicKeyRequest", "ConnectRunspacePool"):
                if ser_ev or not any(isinstance(x, T) and x.op == "xml" and x.args[0] == K("S") for x in subterms(raw[4])):
                    bad = "body is %r, expected an empty string element" % (raw[4],)
            else:
                want = T("in_", "payload") if cn == "PipelineInput" else T("in_", "data")
                if len(ser_ev) != 1 or ser_ev[0].arg(0, "value") != want:
                    bad = "serialises %r, expected %r" % ([e.arg(0, "value") for e in ser_ev], want)
                elif not any(x == ser_ev[0].res for x in subterms(raw[4])) and I.decide_val(o2.st, I.bval(I.isnone_atom(o2.st, ser_ev[0].res))) is not True:
                    bad = "the serialised data is not what is written: %r" % (raw[4],)
    w.done()
    rep.ob("body", bad is None, "messages.Message.pack", cn, bad or "")


def header(rep, repo):
    # written
    w = World(rep, repo)
    I = w.I
    st = State()
    ser = I.abs_inst(st, "serializer.Serializer", "ser")
    data = message(w, st, "PublicKey", ser)
    RP, PI = T("in_", "rpid"), T("in_", "pid")
    st.facts[T("isnone", RP)] = False
    st.facts[T("isnone", PI)] = False
    DEST = T("in_", "destination")
    outs = I.construct(st, w.p.cls("messages.Message"), [DEST, RP, PI, data, ser])
    got = {}
    for o in outs:
        for o2 in I.call_method(o.st, o.val, "pack") if o.sig == "return" else []:
            f = written(I.freeze(o2.st, o2.val))
            got["destination"] = field_at(f, 0, 4, "<") == DEST
            got["type"] = field_at(f, 4, 4, "<") == K(SPEC["PublicKey"])
            raws = [x for x in f if x[3] == "raw"]
            got["pool id"] = len(raws) >= 2 and raws[0][0] == 8 and is_uuid(raws[0][4], RP)
            got["pipeline id"] = len(raws) >= 2 and is_uuid(raws[1][4], PI)
            got["count"] = len(raws) == 3
    for k in ("destination", "type", "pool id", "pipeline id"):
        rep.ob("header", bool(got.get(k)), "messages.Message.pack", "written " + k, "header field not written as MS-PSRP 2.2.1 lays it out")
    w.done()
    # read
    w = unpack_world(rep, repo, SPEC["PublicKey"])
    I = w.I
    st = State()
    ser = I.abs_inst(st, "serializer.Serializer", "ser")
    mk = {}

    def h(I, st, fv, args, kw, ctx, node):
        for s, vals in I.bind_args(st, w.p.func("messages.Message.__init__"), NONE, args, kw, ctx, node):
            mk.update({k: I.freeze(s, v) for k, v in vals.items()})
        return None
    w.cfg.boundary["messages.Message"] = h
    outs = I.run_func(st, FnV(w.p.func("messages.Message.unpack"), None, None, None), [X, ser])
    w.done()
    ok = {
        "destination": read(mk.get("destination")) == (X, 0, 4, "<"),
        "pool id": reads_uuid(mk.get("rpid"), 8),
        "pipeline id": reads_uuid(mk.get("pid"), 24),
        "type": bool(outs) and all(o.sig == "return" for o in outs),
    }
    for k, v in ok.items():
        rep.ob("header", v, "messages.Message.unpack", "read " + k, "read as %r" % (mk.get({"pool id": "rpid", "pipeline id": "pid"}.get(k, k)),))


def is_uuid(t, src):
    return isinstance(t, T) and t.op == "attr" and t.args[1] == "bytes_le" and any(x == src for x in subterms(t.args[0]))


def reads_uuid(t, off):
    for x in subterms(t) if t is not None else ():
        if isinstance(x, T) and x.op == "kw" and x.args[0] == "bytes_le":
            return x.args[1] == T("slice", X, K(off), K(off + 16))
    return False


def routes(rep, repo):
    """each pool message, arriving before the reply to a pool request, has its effect"""
    w0 = World(rep, repo)
    S = w0.pool_states
    A = lambda n: T("in_", n)  # noqa: E731
    cases = {
        "SessionCapability": ({"protocol_version": K("2.1"), "ps_version": A("psv"), "serialization_version": A("sv")},
                              {"protocol_version": K("2.1"), "ps_version": A("psv"), "serialization_version": A("sv")}),
        "RunspacePoolInitData": ({"min_runspaces": A("mn"), "max_runspaces": A("mx")}, {"_min_runspaces": A("mn"), "_max_runspaces": A("mx")}),
        "ApplicationPrivateData": ({}, {"_application_private_data": T("data", 0, 0)}),
        "UserEvent": ({}, "user_events"),
        "WarningRecord": ({}, "warn"),
        "RunspacePoolStateMessage": ({"state": K(S["CLOSED"])}, {"state": K(S["CLOSED"])}),
        "EncryptedSessionKey": ({"session_key": A("sk")}, {"_key_exchanged": TRUE}),
        "PublicKeyRequest": ({}, "exchange"),
        "RunspacePoolHostCall": ({}, "host"),
        "PipelineOutput": ({}, "ignored"), "ErrorRecordMessage": ({}, "ignored"), "CreatePipeline": ({}, "ignored"),
    }
    for cn, (attrs, eff) in cases.items():
        w = World(rep, repo)
        w.model_fragmenter((1,))
        w.shallow_messages()
        w.cfg.boundary["powershell.RunspacePool.exchange_keys"] = "opaque"
        w.p.func("powershell.RunspacePool.exchange_keys")
        w.cfg.boundary["host.PSHost.run_method"] = "opaque"
        w.model_replies([[(cn, attrs), ("RunspaceAvailability", {"ci": K(7), "response": K(3)})]])
        I = w.I
        st = State()
        ue = st.new(HList((T("star", A("events")),)))
        host = I.abs_inst(st, "host.PSHost", "host")
        pool = w.pool(st, K(S["OPENED"]), _ci_counter=K(7), user_events=ue, host=host, _key_exchanged=FALSE)
        outs = I.call_method(st, pool, "get_available_runspaces")
        w.done()
        bad = None if outs else "no path"
        for o in outs:
            if o.sig != "return":
                bad = "raises %s" % w.exc(o)
                break
            if isinstance(eff, dict):
                for k, v in eff.items():
                    if w.final(o, pool, k) is None or ident(I, o, w.final(o, pool, k)) != v:
                        bad = "after the message %s is %r, expected %r" % (k, w.final(o, pool, k), v)
            elif eff == "user_events":
                l = w.final(o, pool, "user_events")
                if [I.freeze(o.st, x) for x in o.st.heap[l.oid].items] != [T("star", A("events")), T("data", 0, 0)]:
                    bad = "the event is not appended to the pool's user events"
            elif eff == "warn":
                if not any(e.kind == "ext" and e.name == "warnings.warn" and any(x == T("data", 0, 0) for a in e.fargs for x in subterms(a)) for e in o.events):
                    bad = "no warning is issued"
            elif eff == "exchange":
                if not any(e.kind == "pkg" and e.name.endswith("exchange_keys") for e in o.events):
                    bad = "the key exchange is never started"
            elif eff == "host":
                if not any(e.kind == "pkg" and e.name.endswith("run_method") for e in o.events):
                    bad = "the host method is never run"
            if bad:
                break
        rep.ob("route", bad is None, "RunspacePool._parse_responses", cn, bad or "")


def ident(I, o, v):
    return I.freeze(o.st, v)
