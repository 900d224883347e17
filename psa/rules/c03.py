"""C03: reassembly - one-step transition relation of the defragmenter over an arbitrary state of the buffer."""
from .common import *
from ..layout import read

TECHNIQUE = "static analysis: inductive one-step transfer function of the reassembly buffer (typestate per object id) over all flag combinations"
X, REST = T("in_", "data"), T("in_", "rest")
OID, FID, PAY = T("in_", "object-id"), T("in_", "fragment-id"), T("in_", "payload")
BUF, NEXT = T("in_", "buffered"), T("in_", "next-id")


def run(rep, repo, tier):
    rep.rule("order", "a fragment whose number is not the expected one raises FragmentError and delivers nothing", 6)
    rep.rule("step", "an accepted fragment changes only its own object's entry: start stores, middle appends, end delivers everything buffered "
                     "plus its payload and drops the entry", 4)
    rep.rule("sequence", "fragments are processed in arrival order and messages delivered in completion order", 3)
    rep.rule("layout", "the reader takes object id, fragment id, flags, length and payload from where the writer puts them and returns the rest", 6)
    for entry in ("absent", "present"):
        for start in (True, False):
            for end in (True, False):
                step(rep, repo, entry, start, end)
    sequence(rep, repo)
    layout(rep, repo)


def world(rep, repo, frags):
    """Fragment.unpack returns the given fragments one after the other"""
    w = World(rep, repo)

    def unpack(I, st, fv, args, kw, ctx, node):
        k = st.globals.get("unp", 0)
        if k >= len(frags):
            I.cut += 1
            return []
        st.globals["unp"] = k + 1
        fr = st.new(HInst(w.p.cls("powershell.Fragment"), dict(frags[k])))
        rest = K(b"") if k == len(frags) - 1 else T("in_", "rest%d" % k)
        if k < len(frags) - 1:
            I.nonneg.add(rest)
            st.assume(I.pos_atom(T("len", rest)), True)
        res = T("tuple", fr, rest)
        return I.boundary_event(st, fv, args, kw, ctx, node, result=res)
    w.p.func("powershell.Fragment.unpack")
    w.cfg.boundary["powershell.Fragment.unpack"] = unpack
    w.cfg.boundary["messages.Message.unpack"] = "opaque"
    w.I.nonneg.add(X)
    w.I.numeric |= {FID, NEXT, OID}
    return w


def decode_order(o):
    return [e.arg(0, "data") for e in o.events if e.kind == "pkg" and e.name == "messages.Message.unpack"]


def setup(w, st, items):
    I = w.I
    buf = st.new(HDict(items, open=True, name=T("in_", "incoming")))
    return buf, I.abs_inst(st, "powershell.Fragmenter", "frag", incoming_buffer=buf)


def entry_val(I, o, buf, oid):
    v = dict_has(I, o.st, buf, oid)
    if v is None:
        return None
    e = o.st.heap[v.oid] if isinstance(v, Ref) else None
    return e


def entry_parts(I, o, e):
    """(data, next id) of a buffer entry, whichever container it uses"""
    if isinstance(e, HDict):
        vs = [v for _, v in e.items]
    elif isinstance(e, HInst):
        vs = list(e.attrs.values())
    elif isinstance(e, HList):
        vs = list(e.items)
    else:
        return None
    return [I.freeze(o.st, v) for v in vs]


def step(rep, repo, entry, start, end):
    # histories that a conforming sender cannot produce (a first fragment without start, a start after the first) are not judged beyond `order`
    w = world(rep, repo, [{"object_id": OID, "fragment_id": FID, "data": PAY, "start": K(start), "end": K(end)}])
    I = w.I
    st = State()
    st.assume(I.pos_atom(T("len", X)), True)
    ent, exp = None, K(0)
    if entry == "present":
        ent = first_entry(rep, repo, w, st)
        if ent is None:
            rep.ob("step", False, "Fragmenter.defragment", "first fragment of a longer message", "no entry is kept for an incomplete message")
            return
        exp = NEXT
        st.assume(I.pos_atom(NEXT), True)
    buf, fr = setup(w, st, ((OID, ent),) if ent is not None else ())
    if ent is None:
        o = st.heap[buf.oid]
        st.heap[buf.oid] = HDict((), open=True, name=o.name, removed=(OID,))
    # absent entry: lookups of this object id find nothing
    outs = I.call_method(st, fr, "defragment", [X])
    w.done()
    con = "%s entry, start=%s end=%s" % (entry, start, end)
    where = "Fragmenter.defragment"
    bad_o = bad_s = None
    n_ok = n_err = 0
    for o in outs:
        eq = I.decide_val(o.st, I.bval(I.eq_atom(o.st, FID, exp)))
        if eq is None:
            bad_o = "accepted without comparing the fragment number %r with the expected %r" % (FID, exp)
            break
        if eq is False:
            n_err += 1
            if o.sig != "raise" or w.exc(o) != "FragmentError":
                bad_o = "an out-of-order fragment is not refused (%s)" % (w.exc(o) or "returns")
            elif decode_order(o):
                bad_o = "an out-of-order fragment's data is decoded"
            continue
        n_ok += 1
        legal = start == (entry == "absent")
        if not legal:
            continue
        if o.sig != "return":
            bad_s = "a valid fragment raises %s" % w.exc(o)
            break
        whole = PAY if entry == "absent" else T("cat", BUF, PAY)
        dec = decode_order(o)
        items = I.items_of(o.st, o.val)
        others = [k for k, _ in o.st.heap[buf.oid].items if k != OID]
        if others or not o.st.heap[buf.oid].open:
            bad_s = "entries of other objects are changed"
            break
        if end:
            if dec != [whole] or items is None or len(items) != 1:
                bad_s = "the message decoded is %r, expected %r" % (dec, whole)
            elif not dict_gone(I, o.st, buf, OID):
                bad_s = "the reassembly entry is kept after the message was delivered"
        else:
            if dec or items is None or len(items):
                bad_s = "an incomplete message is delivered"
                break
            parts = entry_parts(I, o, entry_val(I, o, buf, OID))
            want = {whole, mk_lin(*lin_add(lin_of(exp), (1, {})))}
            if parts is None or not want <= set(parts):
                bad_s = "the entry becomes %r, expected data %r and next id %r" % (parts, whole, mk_lin(*lin_add(lin_of(exp), (1, {}))))
        if bad_s:
            break
    if not n_err and not bad_o:
        bad_o = "no path refuses a wrong fragment number"
    rep.ob("order", bad_o is None, where, con, bad_o or "")
    if start == (entry == "absent"):
        if not n_ok and not bad_s:
            bad_s = "no path accepts the expected fragment"
        rep.ob("step", bad_s is None, where, con, bad_s or "")


def first_entry(rep, repo, w, st):
    """generalise the entry the code creates after a start fragment: same container, buffered data BUF and expected id NEXT"""
    w2 = world(rep, repo, [{"object_id": OID, "fragment_id": K(0), "data": PAY, "start": TRUE, "end": FALSE}])
    I2, s2 = w2.I, State()
    s2.assume(I2.pos_atom(T("len", X)), True)
    buf, fr = setup(w2, s2, ())
    o0 = s2.heap[buf.oid]
    s2.heap[buf.oid] = HDict((), open=True, name=o0.name, removed=(OID,))
    for o in I2.call_method(s2, fr, "defragment", [X]):
        if o.sig != "return":
            continue
        v = dict_has(I2, o.st, buf, OID)
        e = o.st.heap.get(v.oid) if isinstance(v, Ref) else None
        sub = {PAY: BUF, K(1): NEXT}
        if isinstance(e, HDict):
            return st.new(HDict([(k, sub.get(I2.freeze(o.st, x), x)) for k, x in e.items]))
        if isinstance(e, HInst):
            return st.new(HInst(e.cls, {k: sub.get(I2.freeze(o.st, x), x) for k, x in e.attrs.items()}))
        if isinstance(e, HList):
            return st.new(HList([sub.get(I2.freeze(o.st, x), x) for x in e.items], e.kind))
        if isinstance(v, T) and v.op == "tuple":
            return T("tuple", *[sub.get(x, x) for x in v.args])
    return None


def sequence(rep, repo):
    A, B = K(1), K(2)

    def f(oid, fid, name, s, e):
        return {"object_id": oid, "fragment_id": K(fid), "data": T("in_", name), "start": K(s), "end": K(e)}
    cases = {
        "two complete messages": ([f(A, 0, "a", True, True), f(B, 0, "b", True, True)], [("a",), ("b",)]),
        "one message in two fragments": ([f(A, 0, "a0", True, False), f(A, 1, "a1", False, True)], [("a0", "a1")]),
        "one message in three fragments": ([f(A, 0, "a0", True, False), f(A, 1, "a1", False, False), f(A, 2, "a2", False, True)], [("a0", "a1", "a2")]),
        "two interleaved messages": ([f(A, 0, "a0", True, False), f(B, 0, "b0", True, False), f(B, 1, "b1", False, True), f(A, 1, "a1", False, True)],
                                     [("b0", "b1"), ("a0", "a1")]),
        "a complete message inside another": ([f(A, 0, "a0", True, False), f(B, 0, "b", True, True), f(A, 1, "a1", False, True)], [("b",), ("a0", "a1")]),
    }
    for con, (frs, want) in cases.items():
        w = world(rep, repo, frs)
        w.cfg.while_max = 6
        I = w.I
        st = State()
        st.assume(I.pos_atom(T("len", X)), True)
        buf = st.new(HDict(()))
        fr = I.abs_inst(st, "powershell.Fragmenter", "frag", incoming_buffer=buf)
        outs = I.call_method(st, fr, "defragment", [X])
        w.done()
        bad = None if outs else "no path"
        for o in outs:
            exp = [T("in_", g[0]) if len(g) == 1 else T("cat", *[T("in_", x) for x in g]) for g in want]
            dec = decode_order(o)
            items = I.items_of(o.st, o.val) if o.sig == "return" else None
            evs = [e.res for e in o.events if e.kind == "pkg" and e.name == "messages.Message.unpack"]
            if o.sig != "return":
                bad = "raises %s" % w.exc(o)
            elif dec != exp or list(items or ()) != evs:
                bad = "delivers %r, expected %r" % (dec, exp)
            elif o.st.heap[buf.oid].items:
                bad = "entries left in the buffer after everything was delivered"
        rep.ob("sequence", bad is None, "Fragmenter.defragment", con, bad or "")


def layout(rep, repo):
    w = World(rep, repo)
    I = w.I
    st = State()
    outs = I.run_func(st, FnV(w.p.func("powershell.Fragment.unpack"), None, None, None), [X])
    w.done()
    bad = {}
    seen_flags = set()
    for o in outs:
        if o.sig != "return" or not (isinstance(o.val, T) and o.val.op == "tuple" and len(o.val.args) == 2 and isinstance(o.val.args[0], Ref)):
            bad["result"] = "does not return (fragment, rest): %s" % show(o, w)
            continue
        h = o.st.heap[o.val.args[0].oid].attrs
        rest = o.val.args[1]
        if read(h.get("object_id")) != (X, 0, 8, ">"):
            bad["object id"] = "read from %r" % (h.get("object_id"),)
        if read(h.get("fragment_id")) != (X, 8, 8, ">"):
            bad["fragment id"] = "read from %r" % (h.get("fragment_id"),)
        p = h.get("data")
        ln = None
        if isinstance(p, T) and p.op == "slice" and p.args[0] == X and p.args[1] == K(21):
            lv = lin_of(p.args[2])
            if lv and lv[0] == 21 and len(lv[1]) == 1 and list(lv[1].values()) == [1]:
                ln = list(lv[1])[0]
        if ln is None or read(ln) != (X, 17, 4, ">"):
            bad["payload"] = "payload is %r" % (p,)
        elif rest != I.mk_slice(o.st, X, mk_lin(21, {ln: 1}), NONE):
            bad["rest"] = "rest is %r" % (rest,)
        for nm, bit in (("start", 1), ("end", 2)):
            v = h.get(nm)
            val = flag_bit(I, o.st, v, bit)
            if val is None:
                bad[nm + " flag"] = "%s is %r" % (nm, v)
            seen_flags.add(nm)
    for nm in ("result", "object id", "fragment id", "payload", "rest", "start flag", "end flag"):
        rep.ob("layout", bool(outs) and nm not in bad, "Fragment.unpack", nm, bad.get(nm, "no path"))


def flag_bit(I, st, v, bit):
    """True when v is truthy exactly when the flag byte has this bit"""
    if isinstance(v, K):
        # decided on this path by a test of the same bit
        for f, val in list(st.facts.items()):
            b = bit_of(f)
            if b and b[0] == bit and (val if b[1] else not val) == bool(v.v):
                return True
        return None
    b = bit_of(v)
    return True if b and b[0] == bit and b[1] else None


def bit_of(a):
    """(bit, polarity) of an atom testing one bit of the flag byte"""
    pol = True
    while isinstance(a, T) and a.op == "not":
        a, pol = a.args[0], not pol
    if isinstance(a, T) and a.op in ("truth",):
        a = a.args[0]
        if isinstance(a, T) and a.op == "bin":
            b = _mask(a)
            return (b, pol) if b else None
        return None
    if isinstance(a, T) and a.op == "==":
        x, y = a.args
        if isinstance(x, K):
            x, y = y, x
        b = _mask(x)
        if b and isinstance(y, K):
            if y.v == b:
                return (b, pol)
            if y.v == 0:
                return (b, not pol)
    if isinstance(a, T) and a.op == "bin":
        b = _mask(a)
        return (b, pol) if b else None
    return None


def _mask(x):
    if isinstance(x, T) and x.op == "bin" and x.args[0] == "BitAnd":
        k = [y.v for y in x.args[1:] if isinstance(y, K)]
        o = [y for y in x.args[1:] if not isinstance(y, K)]
        if k and o and read(o[0]) == (X, 16, 1, "1"):
            return k[0]
    return None
