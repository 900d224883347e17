"""C02: fragments partition the message, numbered, flagged, within the size budget."""
from .common import *
from ..layout import written, field_at

TECHNIQUE = "static analysis: slice-partition analysis with linear offsets of the fragmenting code, for an unknown message and unknown sizes"
D = T("in_", "message-bytes")
MAX = T("in_", "max-size")
OID = T("in_", "counter")


def run(rep, repo, tier):
    rep.rule("tile", "the payload slices start at 0, each next one starts where the previous ended, and the last one reaches the end of the message", 4)
    rep.rule("number", "all fragments carry the same object id (the counter, increased once per message) and the ids 0,1,2,...", 4)
    rep.rule("flags", "start is set on the first fragment only, end on the last only", 4)
    rep.rule("budget", "payload plus header never exceeds the payload limit", 4)
    rep.rule("header", "the header written is object id, fragment id, flags, payload length, payload", 4)
    rep.rule("share", "messages sharing a fragment are concatenated in order and the shared fragment stays within the limit", 3)
    rep.rule("limit", "the fragmenter's budget is the connection's payload limit minus the header size, initially and after renegotiation", 2)
    n = 3 if tier == "quick" else 5
    for rem in (None, T("in_", "remaining")):
        single(rep, repo, rem, n)
    multiple(rep, repo, 3)
    limit(rep, repo)


def fragm(w, st, **kw):
    at = {"max_size": MAX, "outgoing_counter": OID, "incoming_buffer": None}
    at.update(kw)
    at = {k: v for k, v in at.items() if v is not None}
    return w.I.abs_inst(st, "powershell.Fragmenter", "frag", **at)


def le(I, st, a, b):
    """a <= b certain under the path's facts"""
    v = mk_lin(*lin_add(lin_of(a), lin_of(b), -1))
    if isinstance(v, K):
        return v.v <= 0
    return st._decide_pos(v) is False


def single(rep, repo, rem, n):
    w = World(rep, repo)
    I = w.I
    w.shallow_messages()
    w.cfg.boundary["messages.Message.pack"] = lambda I, st, fv, a, k, c, nd: I.boundary_event(st, fv, a, k, c, nd, result=D)
    w.cfg.iters = tuple(range(n + 1))
    w.cfg.while_max = n + 1
    st = State()
    I.nonneg.add(D)
    I.numeric |= {MAX, OID}
    L = T("len", D)
    st.assume(I.pos_atom(L), True)
    st.assume(I.pos_atom(MAX), True)
    kw = {}
    if rem is not None:
        I.numeric.add(rem)
        st.assume(I.pos_atom(rem), True)
        st.assume(T("isnone", rem), False)
        kw["remaining_size"] = rem
    fr = fragm(w, st)
    data = w.I.abs_inst(st, "messages.PublicKey", "data", root=False)
    outs = I.call_method(st, fr, "fragment", [data, T("in_", "rpid"), T("in_", "pid")], kw)
    w.done()
    tag = "fragment(%s)" % ("own fragment" if rem is None else "sharing the previous fragment")
    where = "Fragmenter.fragment"
    rets = [o for o in outs if o.sig == "return"]
    if not rets or any(o.sig == "raise" for o in outs):
        rep.ob("tile", False, where, tag, "does not always return fragments: %s" % [show(o, w) for o in outs][:3])
        return
    for o in rets:
        items = I.items_of(o.st, o.val)
        if items is None:
            rep.ob("tile", False, where, tag, "result is not a list of fragments: %r" % (o.val,))
            continue
        k = len(items)
        con = "%s, %d fragment(s)" % (tag, k)
        pos = K(0)
        tile = num = flg = bud = hdr = None
        if k == 0:
            tile = "no fragment for a non-empty message"
        for i, it in enumerate(items):
            f = written(I.freeze(o.st, it))
            if not f or f[-1][3] != "raw" or f[-1][0] is None:
                # a payload known to be empty leaves no raw part
                hdr = "not a packed header followed by the payload: %r" % (it,)
                break
            H = f[-1][0]
            oid, fid, fl, ln = field_at(f, 0, 8, ">"), field_at(f, 8, 8, ">"), field_at(f, 16, 1, "1"), field_at(f, 17, 4, ">")
            pl = f[-1][4]
            if H != 21 or None in (oid, fid, fl, ln):
                hdr = "header layout is not >Q >Q B >I (payload starts at byte %s)" % H
                break
            if ln != I.len_of(o.st, pl) and ln != T("len", pl):
                hdr = "announced length %r is not the payload's" % (ln,)
            if isinstance(pl, T) and pl.op == "slice" and pl.args[0] == D:
                lo, hi = pl.args[1], pl.args[2]
            elif pl == D:
                lo, hi = K(0), NONE
            else:
                tile = "payload %d is %r, not a slice of the message" % (i, pl)
                break
            if lo != pos:
                tile = "payload %d starts at %r, the previous one ended at %r" % (i, lo, pos)
                break
            end = hi if hi != NONE else L
            lim = rem if (rem is not None and i == 0) else MAX
            width = mk_lin(*lin_add(lin_of(end), lin_of(lo), -1))
            if not le(I, o.st, width, lim) and not (hi != NONE and le(I, o.st, mk_lin(*lin_add(lin_of(hi), lin_of(lo), -1)), lim)):
                bud = "payload %d may be %r bytes, the limit is %r" % (i, width, lim)
            last = i == k - 1
            if not last and hi == NONE:
                tile = "payload %d already reaches the end of the message" % i
                break
            if not last and le(I, o.st, L, end):
                tile = "fragments continue after the end of the message"
            if last and not le(I, o.st, L, end):
                tile = "the last payload ends at %r, before the end of the message" % (end,)
            if oid != OID or fid != K(i):
                num = "fragment %d carries object id %r, id %r" % (i, oid, fid)
            if not isinstance(fl, K) or fl.v != (1 if i == 0 else 0) | (2 if last else 0):
                flg = "fragment %d of %d has flags %r" % (i + 1, k, fl)
            pos = end
        if o.st.heap[fr.oid].attrs.get("outgoing_counter") != mk_lin(1, {OID: 1}):
            num = num or "the object id counter becomes %r" % (o.st.heap[fr.oid].attrs.get("outgoing_counter"),)
        for r, m in (("tile", tile), ("number", num), ("flags", flg), ("budget", bud), ("header", hdr)):
            rep.ob(r, m is None, where, con, m or "")


def multiple(rep, repo, nblocks):
    for nb in range(1, nblocks + 1):
        w = World(rep, repo)
        I = w.I
        w.shallow_messages()

        def h(I, st, fv, args, kw, ctx, node):
            out = []
            for s0, vals in I.bind_args(st, fv.func, fv.self_, args, kw, ctx, node):
                if isinstance(vals, Raised):
                    out.append((s0, vals))
                    continue
                ps, _ = fv.func.params()
                rem = vals.get("remaining_size", NONE)
                for n in (1, 2):
                    s = s0.copy()
                    tok = s.uid()
                    frs = [T("frag", tok, i, n, I.freeze(s, vals[ps[1]])) for i in range(n)]
                    ok = True
                    for i, f in enumerate(frs):
                        I.nonneg.add(f)
                        lim = rem if (i == 0 and rem != NONE) else MAX
                        lv = lin_of(I.freeze(s, lim))
                        ok = ok and s.assume(I.pos_atom(mk_lin(*lin_add(lin_add((0, {T("len", f): 1}), lv or (0, {lim: 1}), -1), (21, {}), -1))), False)
                        ok = ok and s.assume(I.pos_atom(mk_lin(-20, {T("len", f): 1})), True)
                    if not ok:
                        continue
                    res = s.new(HList(frs))
                    for s2, v in I.boundary_event(s, fv, args, kw, ctx, node, result=res):
                        s2.trace[1].tok = (tok, n)
                        out.append((s2, v))
            return out
        w.cfg.boundary["powershell.Fragmenter.fragment"] = h
        st = State()
        I.numeric |= {MAX, OID}
        st.assume(I.pos_atom(MAX), True)
        fr = fragm(w, st)
        blocks = [T("in_", "block%d" % i) for i in range(nb)]
        outs = I.call_method(st, fr, "fragment_multiple", [st.new(HList(blocks)), T("in_", "rpid"), T("in_", "pid")])
        w.done()
        con = "fragment_multiple of %d message(s)" % nb
        bad = None if outs else "no path"
        for o in outs:
            if o.sig == "raise":
                bad = "raises %s" % w.exc(o)
                break
            calls = [e for e in o.events if e.kind == "pkg" and e.name.endswith("Fragmenter.fragment")]
            want = []
            for e in calls:
                want += [(e.tok[0], i) for i in range(e.tok[1])]
            items = I.items_of(o.st, o.val)
            if items is None or [e.arg(None, "data") for e in calls] != blocks:
                bad = "not every message is fragmented once, in order"
                break
            got = [(t.args[0], t.args[1]) for it in items for t in walk(I.freeze(o.st, it)) if isinstance(t, T) and t.op == "frag"]
            if got != want:
                bad = "returned pieces %s, expected %s" % (got, want)
                break
            for it in items:
                fz = I.freeze(o.st, it)
                tot = I.len_of(o.st, fz) if not (isinstance(fz, T) and fz.op == "cat") else mk_lin(0, {T("len", a): 1 for a in fz.args})
                if not le(I, o.st, tot, mk_lin(21, {MAX: 1})):
                    bad = "a shared fragment may be %r bytes, limit %r + 21" % (tot, MAX)
            if bad:
                break
        rep.ob("share", bad is None, "Fragmenter.fragment_multiple", con, bad or "")


def limit(rep, repo):
    w = World(rep, repo)
    I = w.I
    P = T("in_", "payload-limit")
    I.numeric.add(P)
    st = State()
    conn = I.abs_inst(st, "wsman.WSMan", "conn", max_payload_size=P)
    outs = I.construct(st, w.p.cls("powershell.RunspacePool"), [conn])
    ok = bool(outs)
    msg = "no path"
    for o in outs:
        fr = o.st.heap[o.val.oid].attrs.get("_fragmenter") if o.sig == "return" else None
        v = o.st.heap[fr.oid].attrs.get("max_size") if isinstance(fr, Ref) else None
        if v != mk_lin(-21, {P: 1}):
            ok, msg = False, "budget of a new pool is %r, expected %r - 21" % (v, P)
    rep.ob("limit", ok, "RunspacePool.__init__", "initial budget", msg)
    w.done()
    # renegotiation
    w = World(rep, repo)
    I = w.I
    I.numeric |= {P, T("in_", "new-limit")}

    def upd(I, st, fv, args, kw, ctx, node):
        r = I.boundary_event(st, fv, args, kw, ctx, node)
        for s, v in r:
            I.setattr_(s, fv.self_, "max_payload_size", T("in_", "new-limit"))
        return r
    w.p.func("wsman.WSMan.update_max_payload_size")
    w.cfg.boundary["wsman.WSMan.update_max_payload_size"] = upd
    w.model_replies([[("SessionCapability", {"protocol_version": K("2.3")})], [("RunspacePoolStateMessage", {"state": K(w.pool_states["OPENED"])})]])
    w.model_fragmenter((1,))
    w.shallow_messages()
    st = State()
    conn = I.abs_inst(st, "wsman.WSMan", "conn", max_payload_size=P)
    fr = fragm(w, st, max_size=mk_lin(-21, {P: 1}))
    pool = w.pool(st, K(w.pool_states["BEFORE_OPEN"]), connection=conn, _fragmenter=fr)
    outs = I.call_method(st, pool, "open")
    w.done()
    ok, msg, n = True, "", 0
    for o in outs:
        if o.sig != "return":
            continue
        lim = o.st.heap[conn.oid].attrs.get("max_payload_size")
        v = o.st.heap[o.st.heap[pool.oid].attrs["_fragmenter"].oid].attrs.get("max_size")
        n += 1
        if v != mk_lin(-21, {lim: 1}):
            ok, msg = False, "the connection's limit is %r but fragments are cut for %r (header of 21 bytes not deducted)" % (lim, v)
    upd_seen = any(e.name.endswith("update_max_payload_size") for o in outs for e in o.events)
    rep.ob("limit", ok and n > 0, "RunspacePool._process_session_capability", "budget after renegotiation%s" % ("" if upd_seen else " (none)"), msg)
