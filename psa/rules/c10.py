"""C10: encrypted messages are framed losslessly and decrypted only if intact."""
import struct

from ..layout import read, written
from .wsm import *

TECHNIQUE = "static analysis: path enumeration of wrap/unwrap with a symbolic message; the emitted byte layout and the guards of every returned plaintext are read off the terms"
MSG, CTX, BOUND = T("in_", "message"), T("in_", "ctx"), "Encrypted Boundary"
LIMIT = 16384
CLS = "encryption.WinRMEncryption"


def run(rep, repo, tier):
    rep.rule("tile", "the parts encrypted are consecutive slices covering the message exactly, within 16 KiB for CredSSP, one part otherwise", 5)
    rep.rule("frame", "each part is sent once, in order: boundary, protocol, its own original length plus padding, boundary, 4-byte little-endian signature length, signature, ciphertext; closed once", 5)
    rep.rule("multi", "the multi-part content type is used exactly for CredSSP messages over 16 KiB", 4)
    rep.rule("intact", "plaintext is returned only after its size was found equal to the length announced for that part; a difference raises", 2)
    rep.rule("layout", "signature and ciphertext are taken from the received part by the length prefix it starts with", 1)
    rep.rule("order", "the result is the plaintext of every part, in order", 1)
    rep.rule("parts", "of a received message, however its parts are made up, the context is given each part's own signature and ciphertext", 60)
    rep.rule("decrypt", "a response announced as encrypted is decrypted before it is parsed, returned or put in an error", 6)
    for proto in ("CREDSSP", "KERBEROS", "SPNEGO"):
        wrap(rep, repo, proto, 3 if tier == "quick" else 5)
    unwrap(rep, repo, 2 if tier == "quick" else 3)
    received(rep, repo)
    for kind in ("enc", "xenc"):
        for status in (200, 500, 400):
            decrypt(rep, repo, kind, status)
    for proto in ("HTTP-SPNEGO-session-encrypted", "HTTP-Kerberos-session-encrypted", "HTTP-CredSSP-session-encrypted"):
        for b in ("Gc0p4Jq.0M2Yt(08j)U534c0p", "b", "-- a, Boundary/of=36 Letters"):
            decrypt(rep, repo, 'multipart/encrypted;protocol="application/%s";boundary="%s"' % (proto, b), 200, b)


def base(w, st, proto):
    cls = w.p.cls(CLS)
    P = w.I.cls_attr(st, cls, proto)[0][1]
    outs = [o for o in w.I.construct(st, cls, [CTX, P], {}) if o.sig == "return"]
    if not outs:
        raise AnalysisError("WinRMEncryption cannot be constructed")
    return P, outs[0].st, outs[0].val


def pieces(t):
    """flattened byte pieces of the emitted body: ('text', str with {} holes, [hole terms]) or ('bin', field)"""
    out = []

    def text(x, holes):
        if isinstance(x, K):
            return x.v if isinstance(x.v, str) else x.v.decode("latin-1") if isinstance(x.v, bytes) else str(x.v)
        if isinstance(x, T) and x.op == "cat":
            return "".join(text(a, holes) for a in x.args)
        if isinstance(x, T) and x.op == "meth" and x.args[0] == "encode":
            return text(x.args[1], holes)
        while isinstance(x, T) and x.op in ("str",) and len(x.args) == 1:
            x = x.args[0]
        if isinstance(x, K):
            return str(x.v)
        holes.append(x)
        return "{}"
    for p in (t.args if isinstance(t, T) and t.op == "cat" else (t,)):
        if isinstance(p, K) or isinstance(p, T) and p.op in ("str",) or isinstance(p, T) and p.op == "meth" and p.args[0] == "encode":
            h = []
            s = text(p, h)
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + s, out[-1][2] + h)
            else:
                out.append(("text", s, h))
        else:
            out.extend(("bin", f) for f in written(p) or [(0, None, None, "raw", p)])
    return out


def wrap(rep, repo, proto, most):
    w = World(rep, repo, wire_psrp=False)
    I = w.I
    w.cfg.while_max = most
    w.cfg.iters = tuple(range(most + 1))
    st = State()
    I.nonneg.add(MSG)
    L = T("len", MSG)
    st.assume(I.pos_atom(L), True)
    P, st, ref = base(w, st, proto)
    outs = I.call_method(st, ref, "wrap_message", [MSG], {})
    where = "encryption.WinRMEncryption.wrap_message"
    tile, frame, multi = [], [], []
    seen = {}
    for o in outs:
        if o.sig != "return":
            tile.append("does not always produce a message: %s" % w.exc(o))
            continue
        res = I.items_of(o.st, o.val) if isinstance(o.val, Ref) else (list(o.val.args) if isinstance(o.val, T) and o.val.op == "tuple" else None)
        if not res or len(res) != 2:
            frame.append("result is not (content type, body)")
            continue
        evs = [e for e in o.events if e.kind == "meth" and e.name == "wrap_winrm"]
        n = len(evs)
        seen[n] = seen.get(n, 0) + 1
        big = o.st._decide_pos(mk_lin(*lin_add(lin_of(L), lin_of(K(LIMIT)), -1)))
        isx = isinstance(res[0], K) and res[0].v == "multipart/x-multi-encrypted"
        if not isx and res[0] != K("multipart/encrypted"):
            multi.append("content type is %r" % (res[0],))
        elif proto != "CREDSSP" and isx:
            multi.append("multi-part content type without CredSSP")
        elif proto == "CREDSSP" and big is None:
            multi.append("the content type does not depend on whether the message exceeds 16 KiB")
        elif proto == "CREDSSP" and isx != big:
            multi.append("content type %s for a message %s 16 KiB" % (res[0].v, "over" if big else "up to"))
        # the encrypted slices
        pos = K(0)
        parts = []
        for i, e in enumerate(evs):
            a = e.fargs[0] if e.fargs else None
            if a == MSG:
                lo, hi = K(0), NONE
            elif isinstance(a, T) and a.op == "slice" and a.args[0] == MSG:
                lo, hi = a.args[1], a.args[2]
            else:
                tile.append("part %d encrypts something other than a slice of the message" % i)
                break
            if lo in (NONE, None):
                lo = K(0)
            if lo != pos:
                tile.append("part %d starts at %r, the previous one ended at %r" % (i, lo, pos))
                break
            end = L if hi == NONE else hi
            width = mk_lin(*lin_add(lin_of(end), lin_of(lo), -1))
            if proto == "CREDSSP" and not (isinstance(width, K) and width.v <= LIMIT) and o.st._decide_pos(mk_lin(*lin_add(lin_of(width), lin_of(K(LIMIT)), -1))) is not False:
                tile.append("part %d may be larger than 16 KiB" % i)
            if i < n - 1 and hi != NONE and o.st._decide_pos(mk_lin(*lin_add(lin_of(end), lin_of(L), -1))) is not False:
                tile.append("part %d is followed by another although it may reach the end of the message" % i)
            parts.append((a, e.res))
            pos = end
        else:
            if not n:
                tile.append("nothing is encrypted")
            elif pos != L and o.st._decide_pos(mk_lin(*lin_add(lin_of(L), lin_of(pos), -1))) is not False:
                tile.append("the end of the message is not encrypted (%d part(s))" % n)
            if proto != "CREDSSP" and n > 1:
                tile.append("%d parts although only CredSSP is split" % n)
        m = framing(I, o, res[1], parts, P)
        if m:
            frame.append("%d part(s): %s" % (n, m))
    rep.ob("tile", not tile, where, proto, "; ".join(sorted(set(tile))[:2]))
    rep.ob("frame", not frame, where, proto, "; ".join(sorted(set(frame))[:2]))
    rep.ob("multi", not multi, where, proto, "; ".join(sorted(set(multi))[:2]))
    if proto == "CREDSSP":
        for k in (2, 3):
            rep.ob("tile", k in seen, where, "%s split in %d" % (proto, k), "a message over 16 KiB is never split in %d parts" % k)
            rep.ob("frame", k in seen, where, "%s split in %d" % (proto, k), "a message over 16 KiB is never split in %d parts" % k)
        rep.ob("multi", 2 in seen and 1 in seen, where, "CREDSSP both kinds analysed", "splits analysed: %s" % sorted(seen))
    w.done()


def framing(I, o, body, parts, P):
    ps = pieces(I.freeze(o.st, body))
    # expected sequence per part: text(header, length hole), 4-byte LE length, raw sig, raw data
    i = 0
    for k, (a, r) in enumerate(parts):
        if i >= len(ps) or ps[i][0] != "text":
            return "part %d does not start with its boundary header" % k
        _, s, holes = ps[i]
        want = ["--" + BOUND, "\tContent-Type: %s" % P.v, "\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length={}", "--" + BOUND,
                "\tContent-Type: application/octet-stream", ""]
        if s != "\r\n".join(want):
            return "header of part %d is not the MS-WSMV one" % k
        ln = mk_lin(*lin_add(lin_of(I.len_of(o.st, a)), lin_of(T("item", r, K(2))), 1))
        if len(holes) != 1 or holes[0] != ln and lin_of(holes[0]) != lin_of(ln):
            return "the length announced for part %d is not that part's length plus its padding" % k
        rest = [x[1] for x in ps[i + 1:i + 4] if x[0] == "bin"]
        if len(rest) != 3:
            return "part %d lacks signature length, signature or ciphertext" % k
        f = rest[0]
        sig, dat = T("item", r, K(0)), T("item", r, K(1))
        if f[1] != 4 or f[2] != "<" or f[4] not in (T("len", sig), I.len_of(o.st, sig)):
            return "part %d does not give its signature's length as 4 little-endian bytes" % k
        if rest[1][4] != sig or rest[2][4] != dat:
            return "part %d is not followed by its own signature and ciphertext" % k
        i += 4
    if i != len(ps) - 1 or ps[i][0] != "text" or ps[i][1] not in ("--%s--\r\n" % BOUND,):
        return "the body does not end with exactly one closing boundary"
    return None


def norm(t):
    """(source, lo, hi) of a slice, slices of slices merged"""
    if isinstance(t, T) and t.op == "slice":
        s, lo, hi = norm(t.args[0])
        a = K(0) if t.args[1] == NONE else t.args[1]
        b = t.args[2]
        nlo = mk_lin(*lin_add(lin_of(lo), lin_of(a), 1))
        nhi = hi if b == NONE else mk_lin(*lin_add(lin_of(lo), lin_of(b), 1))
        return s, nlo, nhi
    return t, K(0), NONE


def read_n(n):
    r = read(n)
    if r is None:
        return None
    s, lo, _ = norm(r[0])
    return (s, (lo.v if isinstance(lo, K) else None, r[1]), r[2], r[3])


def unwrap(rep, repo, most):
    w = World(rep, repo, wire_psrp=False)
    I = w.I
    w.cfg.while_max = most + 1
    w.cfg.iters = tuple(range(max(most, 4) + 1))
    st = State()
    _, st, ref = base(w, st, "CREDSSP")
    outs = I.call_method(st, ref, "unwrap_message", [MSG, K(BOUND)], {})
    where = "encryption.WinRMEncryption.unwrap_message"
    intact = layout = order = raised = None
    counts = set()
    nraise = 0
    for o in outs:
        evs = [e for e in o.events if e.kind == "meth" and e.name == "unwrap_winrm"]
        eqs = [(f, v) for f, v in o.st.facts.items() if isinstance(f, T) and f.op == "=="]
        diff = [e for e in evs if any(v is False and T("len", e.res) in f.args for f, v in eqs)]
        if diff:
            nraise += 1
            if o.sig != "raise" or w.exc(o) not in ("WinRMError", "AuthenticationError", "WSManFaultError", "WinRMTransportError"):
                raised = "a part of the wrong size does not raise the library's error (%s %s)" % (o.sig, w.exc(o))
            continue
        if o.sig != "return":
            continue
        counts.add(len(evs))
        for i, e in enumerate(evs):
            if not any(v is True and T("len", e.res) in f.args and any(announced(a, e) for a in f.args) for f, v in eqs):
                intact = "plaintext is used without its size being found equal to the announced length"
            a, b = [norm(x) for x in e.fargs[:2]] if len(e.fargs) >= 2 else (None, None)
            if a is None or a[0] != b[0] or a[2] == NONE or a[2] != b[1] or b[2] != NONE:
                layout = "signature and ciphertext are not consecutive slices of the part"
            else:
                n = mk_lin(*lin_add(lin_of(a[2]), lin_of(a[1]), -1))
                r = read_n(n)
                if not isinstance(a[1], K) or a[1].v != 4 or r is None or r[0] != a[0] or r[1][0] is None or sum(r[1]) != 0 or r[2:] != (4, "<"):
                    layout = "the signature is not delimited by the 4-byte little-endian length in front of it"
        v = o.val
        got = list(v.args) if isinstance(v, T) and v.op == "cat" else [v]
        got = [g for g in got if not (isinstance(g, K) and g.v in (b"", ""))]
        if got != [e.res for e in evs] and not (len(evs) == 0 and not got):
            order = "the result is not the plaintext of each part, in order"
        if len({(e.fargs[0], e.fargs[1]) for e in evs if len(e.fargs) > 1}) != len(evs):
            order = "the same part is decrypted more than once"
    if not any(c >= 1 for c in counts) or max(counts) < 2:
        order = order or "no path decrypts several parts"
    rep.ob("intact", intact is None, where, "every returned part", intact or "")
    rep.ob("intact", raised is None and nraise > 0, where, "size mismatch", raised or ("no path compares the sizes" if not nraise else ""))
    rep.ob("layout", layout is None, where, "part layout", layout or "")
    rep.ob("order", order is None, where, "assembly", order or "")
    w.done()


SIGS = {"a signature": b"\x01\x00\x00\x00abcdefgh\x00\x00\x00\x00", "no signature": b"", "a signature over 255 bytes": b"s" * 300, "a signature of line breaks": b"\r\n\r\n",
        "a signature of blanks": b" \t ", "a signature of hyphens": b"--"}
CIPHERS = {"a ciphertext": b"\x17\xff\x00abc", "a ciphertext ending in a line break": b"abc\r\n", "one starting with a line break": b"\r\nabc", "one ending in CR": b"abc\r", "one ending in LF": b"abc\n",
           "one ending in a tab": b"abc \t", "one ending in hyphens": b"abc--", "one starting with hyphens": b"--abc", "one with two hyphens and blanks": b"ab--  c-- ", "one with Length=": b"ab;Length=9\r\n",
           "one ending in zeros": b"abc\0\0", "a long one": bytes(range(256)) * 3, "one with boundary-like text": b"Encrypted Boundary\r\n", "an empty one": b""}


def message(parts, boundary, gap):
    out = b""
    for sig, enc, n in parts:
        out += ("--%s%s\r\n\tContent-Type: application/HTTP-CredSSP-session-encrypted\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n--%s%s\r\n"
                "\tContent-Type: application/octet-stream\r\n" % (gap, boundary, n, gap, boundary)).encode() + struct.pack("<i", len(sig)) + sig + enc
    return out + ("--%s%s--\r\n" % (gap, boundary)).encode()


def received(rep, repo):
    """concrete messages: what is given to the context, and what is returned"""
    sig, enc = SIGS["a signature"], CIPHERS["a ciphertext"]
    cases = [(a, [(x, enc, 5)]) for a, x in SIGS.items()] + [(a, [(sig, x, 5)]) for a, x in CIPHERS.items()]
    cases += [("two parts, the first " + a, [(sig, x, 5), (sig, enc, 7)]) for a, x in CIPHERS.items()]
    cases += [("three parts", [(sig, enc, 16384), (sig, enc, 16384), (sig, enc, 3)]), ("a part without text", [(sig, enc, 0)])]
    for boundary, gap, pick in (("Encrypted Boundary", "", None), ("Encrypted Boundary", " ", None), ("gc0p4Jq.0M2Yt(08j)U534c0p+?", "", 4)):
        for con, parts in cases[:pick]:
            for wrong in (None, 0, len(parts) - 1) if con == "three parts" or pick else (None,):
                texts = [bytes([65 + i]) * (n + (i == wrong)) for i, (_, _, n) in enumerate(parts)]
                w = World(rep, repo, wire_psrp=False)
                w.cfg.while_max = len(parts) + 1
                w.cfg.iters = tuple(range(len(parts) + 2))
                given = []

                def opened(I, st, recv, args, kw, ctx, node):
                    i = len([k for k in st.globals if isinstance(k, tuple) and k[0] == "part"])
                    st.globals[("part", i)] = tuple(I.freeze(st, a) for a in args)
                    return [(st, K(texts[i]) if i < len(texts) else T("in_", "more"))]
                w.cfg.ext[".unwrap_winrm"] = opened
                _, st, ref = base(w, State(), "CREDSSP")
                outs = w.I.call_method(st, ref, "unwrap_message", [K(message(parts, boundary, gap)), K(boundary)], {})
                bad = None if outs else "no path"
                for o in outs:
                    given = [v for k, v in o.st.globals.items() if isinstance(k, tuple) and k[0] == "part"]
                    want = [(K(a), K(b)) for a, b, _ in parts]
                    if wrong is not None:
                        if o.sig != "raise" or w.exc(o) != "WinRMError":
                            bad = "part %d is not of the size announced and is accepted (%s %s)" % (wrong + 1, o.sig, w.exc(o) or "")
                    elif o.sig != "return":
                        bad = "is refused: %s" % w.exc(o)
                    elif given != want:
                        bad = "the context is given %s" % str(given)[:150]
                    elif o.val != K(b"".join(texts)):
                        bad = "the result is %s" % str(o.val)[:100]
                rep.ob("parts", bad is None, "encryption.WinRMEncryption.unwrap_message", "%s, boundary --%s%s%s" % (con, gap, boundary, "" if wrong is None else ", part %d of another size" % (wrong + 1)), bad or "")
                w.done()


def announced(a, e):
    """the other side of the comparison: a number read from the received message that is not the plaintext"""
    return isinstance(a, T) and a.op != "len" and e.res not in list(subterms(a)) and any(x == MSG for x in subterms(a)) and any(
        isinstance(x, K) and isinstance(x.v, (str, bytes)) and "Length" in (x.v if isinstance(x.v, str) else x.v.decode("latin-1")) for x in subterms(a))


def decrypt(rep, repo, kind, status, boundary="Encrypted Boundary"):
    w = Http(rep, repo, script=[(kind, status)])
    w.wrap_boundary()
    w.fault_boundary()
    bad = None
    n = 0
    for s, ref in w.wsman(State())[:1]:
        for o in w.op(s, ref, "send"):
            xs = [x for x in w.http(o) if not x.auth_only]
            if not xs:
                continue
            n += 1
            body = T("attr", xs[-1].resp, "content")
            used = [e for e in o.events if e.kind == "pkg" and e.name.endswith("unwrap_message")]
            if not used:
                bad = "the encrypted response is not decrypted (%s %s)" % (o.sig, w.exc(o))
                continue
            given_ = [x for _, x in used[-1].fkw]
            if body not in given_:
                bad = bad or "something other than the response's body is decrypted"
            if boundary is not None and K(boundary) not in given_:
                bad = bad or "the body is split at %s instead of the announced boundary" % ([g for g in given_ if g != body],)
            if used[-1].frecv is not None and not any(isinstance(t, T) and t.op == "contexts" for t in subterms(used[-1].frecv)):
                bad = bad or "decrypted with something other than the current context"
            vals = [I_v for I_v in (o.val, o.exc.v if o.exc else None) if I_v is not None]
            for e in o.events:
                if e.kind in ("ext", "meth") and (e.name or "").rsplit(".", 1)[-1] in ("fromstring", "XML", "parse"):
                    vals += e.fargs
                elif e.kind == "pkg" and e.name.endswith("_parse_wsman_fault"):
                    vals += list(e.fargs) + [x for _, x in e.fkw]
            for v in vals:
                if raw_use(w.I.freeze(o.st, v), xs[-1].resp):
                    bad = bad or "the undecrypted body reaches the caller or the parser"
    rep.ob("decrypt", bad is None and n > 0, "wsman._TransportHTTP._send_request", "%s %s" % (kind, status), bad or ("" if n else "no request is sent"))
    w.done()


def raw_use(t, resp):
    """the response body occurs outside an opened() term"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            if x.op == "opened":
                continue
            if x.op == "attr" and x.args[0] == resp and x.args[1] in ("content", "text"):
                return True
            stack.extend(x.args)
    return False
