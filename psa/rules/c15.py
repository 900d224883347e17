"""C15: key exchange happens once, is bounded, and secrets need the negotiated key."""
from .common import *

TECHNIQUE = "static analysis: path enumeration of the key exchange over orders of key messages and clock readings, and dataflow of the session key and of secure strings"
CONN, SK = T("in_", "conn"), T("in_", "session-key")
KEY = ("EncryptedSessionKey", {"session_key": SK})
ASK = ("PublicKeyRequest", {})
OTHER = ("UserEvent", {})
# orders of messages: (packets, the exchange is started by the caller first)
ORDERS = {
    "key at once": [[KEY]], "key after empty packets": [[], [], [KEY]], "key after other messages": [[OTHER], [OTHER, KEY]],
    "asked again while waiting": [[ASK], [KEY]], "asked twice in one packet": [[ASK, ASK], [KEY]], "asked again with the key": [[ASK, KEY]],
}


def run(rep, repo, tier):
    rep.rule("start", "a request for the public key sends the public half of a new private key, once, and waits for the session key", 3)
    rep.rule("once", "an exchange that is running or done is never started again", 8)
    rep.rule("bounded", "waiting ends with one of the library's errors once the session key timeout has passed, not before", 4)
    rep.rule("key", "the session key message sets the cipher of the pool's serialiser from the decrypted key and drops the private key", 6)
    rep.rule("shared", "messages and application serialisation use the serialiser the cipher is set on", 3)
    rep.rule("writer", "nothing but the key exchange sets a cipher", 1)
    rep.rule("nokey", "without a cipher a secure string is refused on output and handed back still encrypted on input", 2)
    rep.rule("sealed", "with a cipher the text leaves only encrypted, and comes back from the received data", 2)
    for label, script in ORDERS.items():
        exchange(rep, repo, label, script)
    served(rep, repo)
    for ms, times, polls in ((60000, (0, 10, 30, 59, 61, 62), 3), (1000, (100, 100.5, 102), 1), (0, (5, 5, 5.5), 1), (250, (0, 0.1, 0.2, 0.3), 2)):
        bounded(rep, repo, ms, times, polls)
    shared(rep, repo)
    writer(rep, repo)
    strings(rep, repo)


def world(rep, repo, script):
    w = World(rep, repo)
    w.model_fragmenter((1,))
    w.shallow_messages()
    w.model_replies(script)
    w.cfg.while_max = 12

    def made(I, st, recv, args, kw, ctx, node):
        v = T("nn", "private-key", st.uid())
        st.facts[T("isnone", v)] = False
        I.event(st, "ext", "generate_private_key", None, args, kw, ctx, node, res=v)
        return [(st, v)]
    for f in ("cryptography.hazmat.primitives.asymmetric.rsa.generate_private_key",):
        w.cfg.ext[f] = made
    return w


def new_pool(w, **kw):
    outs = [o for o in w.I.construct(State(), w.p.cls("powershell.RunspacePool"), [CONN], kw) if o.sig == "return"]
    if not outs:
        raise AnalysisError("a RunspacePool cannot be constructed")
    st, pool = outs[0].st, outs[0].val
    w.I.setattr_(st, pool, "state", K(w.pool_states["OPENED"]))
    return st, pool


def sent_keys(o):
    """public keys of the PublicKey messages fragmented on the path"""
    out = []
    for e in o.events:
        if e.kind == "pkg" and e.name.startswith("powershell.Fragmenter.fragment"):
            for x in list(e.fargs) + [v for _, v in e.fkw]:
                for m in subterms(x):
                    if isinstance(m, T) and m.op == "inst" and m.args[0] == "messages.PublicKey":
                        out.append(dict(m.args[2]).get("public_key"))
    return out


def privates(o):
    return [e.res for e in o.events if e.kind == "ext" and str(e.name).endswith("generate_private_key")]


def cipher_of(w, o, pool):
    ser = w.final(o, pool, "_serializer")
    return w.I.freeze(o.st, o.st.heap[ser.oid].attrs.get("cipher", NONE)) if isinstance(ser, Ref) else None


def exchange(rep, repo, label, script):
    w = world(rep, repo, script)
    w.cfg.ext["time.time"] = lambda I, st, recv, a, k, ctx, n: [(st, K(0))]
    w.cfg.ext["time.monotonic"] = w.cfg.ext["time.time"]
    st, pool = new_pool(w)
    start = once = key = None
    n = 0
    for o in w.I.call_method(st, pool, "exchange_keys"):
        n += 1
        if o.sig != "return":
            key = key or "fails with %s" % w.exc(o)
            continue
        check_key(w, o, pool, script)
        keys, priv = sent_keys(o), privates(o)
        if len(keys) != 1 or len(priv) != 1 or w.wnames(o).count("WinRS.send") != 1:
            once = "%d public keys sent, %d private keys made" % (len(keys), len(priv))
            continue
        start = start or check_public(keys[0], priv[0])
        key = key or check_key(w, o, pool, script)
        # again, by the caller and by the server
        for o2 in w.I.call_method(o.st, pool, "exchange_keys"):
            if o2.sig != "return" or len(sent_keys(o2)) != 1 or len(w.wires(o2)) != len(w.wires(o)):
                once = once or "a second call after the exchange sends %s" % w.wnames(o2)[len(w.wires(o)):]
    if not n or w.starved:
        key = key or "the exchange never ends although the key arrived"
    rep.ob("key", key is None, "RunspacePool.exchange_keys", label, key or "")
    rep.ob("once", once is None and n > 0, "RunspacePool.exchange_keys", label, once or "nothing analysed")
    if label == "key at once":
        rep.ob("start", start is None and n > 0, "RunspacePool.exchange_keys", "the public key sent", start or "nothing analysed")
    w.done()


def check_public(pub, priv):
    nums = [t for t in subterms(pub) if opname(t) == "public_key"]
    if not has(pub, priv) or not nums:
        return "the key sent is not the public half of the private key kept"
    if any("private_" in opname(t) and t != priv for t in subterms(pub)):
        return "the key sent contains the private key"
    return None


def check_key(w, o, pool, script):
    cip = cipher_of(w, o, pool)
    priv = privates(o)
    if cip in (None, NONE):
        return "no cipher is set although the session key arrived"
    dec = [t for t in subterms(cip) if isinstance(t, T) and opname(t) == "decrypt" and has(t, SK) and priv and has(t, priv[0])]
    if not dec:
        return "the cipher is not made from the session key decrypted with the private key: %s" % str(cip)[:120]
    if has(cip, T("in_", "conn")):
        return "the cipher depends on other data"
    blob = T("fn", "base64.b64decode", SK)
    sl = [t for t in subterms(dec[0]) if isinstance(t, T) and t.op == "slice" and t.args[0] == blob]
    if not sl or sl[0].args[1] != K(12) or not any(isinstance(t, T) and (t.op == "slice3" and t.args[3] == K(-1) or opname(t) in ("reversed", "builtins.reversed"))
                                                   for t in subterms(dec[0])):
        return "the encrypted key is not the received blob without its 12 byte header, in reverse byte order"
    if not any(isinstance(t, K) and t.v == b"\x00" * 16 for t in subterms(cip)) or "AES" not in str(cip) or "CBC" not in str(cip):
        return "the cipher is not AES in CBC mode with a zero vector"
    if w.final(o, pool, "_exchange_key") != NONE:
        return "the private key is kept after the session key arrived"
    if any(k != "_serializer" and priv and v is not None and has(w.I.freeze(o.st, v), priv[0]) and k not in ("_serializer", "_fragmenter")
           for k, v in o.st.heap[pool.oid].attrs.items()):
        return "the private key is kept after the session key arrived"
    return None


def served(rep, repo):
    """the server asks first; and asks again when all is done"""
    for label, script, want in (("the server asks", [[ASK], [KEY]], 1), ("the server asks again afterwards", [[ASK], [KEY], [ASK]], 1)):
        w = world(rep, repo, script)
        st, pool = new_pool(w)
        bad, n = None, 0
        runs = w.I.call_method(st, pool, "_receive")
        if len(script) > 2:
            runs = [o2 for o in runs if o.sig == "return" for o2 in w.I.call_method(o.st, pool, "_receive")]
        for o in runs:
            if o.sig != "return" and w.lib_error(o):
                continue  # timed out
            n += 1
            if o.sig != "return":
                bad = "fails with %s" % w.exc(o)
            elif len(sent_keys(o)) != want:
                bad = "%d public keys are sent" % len(sent_keys(o))
            else:
                bad = bad or check_key(w, o, pool, script)
        rep.ob("start" if want == 1 and len(script) == 2 else "once", bad is None and n > 0, "RunspacePool._receive", label, bad or "never completes")
        w.done()
    # a key exchange that is under way
    w = world(rep, repo, [[]])
    st, pool = new_pool(w)
    w.I.setattr_(st, pool, "_exchange_key", T("nn", "private"))
    outs = w.I.call_method(st, pool, "exchange_keys")
    rep.ob("once", bool(outs) and all(not w.wires(o) and not privates(o) for o in outs), "RunspacePool.exchange_keys", "an exchange is under way",
           "%s" % [show(o, w) for o in outs][:1])
    # the key kept to decrypt is the one announced
    w = world(rep, repo, [[KEY]])
    st, pool = new_pool(w)
    outs = [o for o in w.I.call_method(st, pool, "exchange_keys") if o.sig == "return"]
    bad = None
    for o in outs:
        evs = [e for e in o.events if e.kind == "pkg"]
        i = [j for j, e in enumerate(evs) if e.name == "shell.WinRS.send"]
        j = [j for j, e in enumerate(evs) if e.name == "shell.WinRS.receive"]
        if not i or not j or i[0] > j[0]:
            bad = "waits before the public key is sent"
    rep.ob("start", bool(outs) and bad is None, "RunspacePool.exchange_keys", "the key is sent before waiting", bad or "never completes")
    w.done()


def bounded(rep, repo, ms, times, polls):
    w = world(rep, repo, [[]] * 20)

    def clock(I, st, recv, a, k, ctx, n):
        i = st.globals.get("clock", 0)
        st.globals["clock"] = i + 1
        return [(st, K(times[min(i, len(times) - 1)]))]
    for f in ("time.time", "time.monotonic", "time.perf_counter"):
        w.cfg.ext[f] = clock
    st, pool = new_pool(w, session_key_timeout_ms=K(ms))
    outs = w.I.call_method(st, pool, "exchange_keys")
    bad = None
    for o in outs:
        k = w.wnames(o).count("WinRS.receive")
        if o.sig != "raise" or not w.lib_error(o):
            bad = "%s %s after the timeout has passed" % (o.sig, w.exc(o) or "")
        elif abs(k - polls) > 1 or (polls > 1 and k < 1):
            bad = "gives up after %d of %d polls" % (k, polls)
    if not outs or w.starved:
        bad = "never gives up waiting for the session key"
    rep.ob("bounded", bad is None, "RunspacePool.exchange_keys", "timeout of %d ms, clock %s" % (ms, times), bad or "")
    w.done()


def shared(rep, repo):
    w = world(rep, repo, [])
    st, pool = new_pool(w)
    a = st.heap[pool.oid].attrs
    ser = a.get("_serializer")
    fr = a.get("_fragmenter")
    rep.ob("shared", isinstance(fr, Ref) and isinstance(ser, Ref) and ser in st.heap[fr.oid].attrs.values(), "RunspacePool.__init__",
           "messages are serialised with the pool's serialiser", "the fragmenter has its own serialiser")
    used = []
    for meth, args, cls in (("serialize", [T("in_", "obj")], "serialize"),):
        for o in w.I.call_method(st, pool, meth, args):
            used += [(e.recv, e) for e in o.events if e.kind == "pkg" and e.name == "serializer.Serializer.serialize"]
    rep.ob("shared", bool(used) and all(r == ser or e.frecv == w.I.freeze(st, ser) for r, e in used), "RunspacePool.serialize", "serialize uses the pool's serialiser",
           "another serialiser is used")
    # each pool has a serialiser of its own
    outs = [o for o in w.I.construct(st, w.p.cls("powershell.RunspacePool"), [CONN]) if o.sig == "return"]
    rep.ob("shared", bool(outs) and all(o.st.heap[o.val.oid].attrs.get("_serializer") not in (None, ser) for o in outs), "RunspacePool.__init__",
           "two pools do not share a cipher", "the serialiser is shared by all pools")
    w.done()


def writer(rep, repo):
    """assignments to an attribute named as the serialiser's cipher, anywhere in the package"""
    import ast
    w = World(rep, repo)
    bad = []
    n = 0
    for m in w.p.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Module)):
                continue
            for s in ast.walk(fn) if isinstance(fn, ast.FunctionDef) else []:
                tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and x.attr == "cipher" and isinstance(x.ctx, ast.Store):
                            n += 1
                            v = getattr(s, "value", None)
                            none = isinstance(v, ast.Constant) and v.value is None or isinstance(v, ast.Attribute) and v.attr == "cipher"
                            if not none and (m.name, fn.name) != ("powershell", "_process_encrypted_session_key") and not calls_from_key(w, m, fn):
                                bad.append("%s.%s" % (m.name, fn.name))
    rep.ob("writer", not bad and n > 0, bad[0] if bad else "package", "assignments of a cipher", "%s sets a cipher" % bad)


def calls_from_key(w, m, fn):
    """a helper of the session key handler: everything that refers to it is that handler"""
    import ast
    users = set()
    for mm in w.p.modules.values():
        for f in ast.walk(mm.tree):
            if isinstance(f, ast.FunctionDef) and f is not fn:
                for x in ast.walk(f):
                    if isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) == fn.name:
                        users.add((mm.name, f.name))
    return users == {("powershell", "_process_encrypted_session_key")}


def serializer(w, cipher):
    outs = [o for o in w.I.construct(State(), w.p.cls("serializer.Serializer")) if o.sig == "return"]
    if not outs:
        raise AnalysisError("a Serializer cannot be constructed")
    st, ser = outs[0].st, outs[0].val
    w.I.setattr_(st, ser, "cipher", cipher)
    return st, ser


def meta(w, st, tag):
    o = w.I.construct(st, w.p.cls("complex_objects.ObjectMeta"), [K(tag)])[0]
    return o.st, o.val


def plain_reach(t, secret, seal):
    """the secret occurs in t outside the data handed to one of the sealing methods"""
    if t == secret:
        return True
    if isinstance(t, T):
        if opname(t) in seal and "encryptor" in map(opname, subterms(t)):
            return False
        return any(plain_reach(a, secret, seal) for a in t.args)
    if isinstance(t, tuple):
        return any(plain_reach(a, secret, seal) for a in t)
    return False


def strings(rep, repo):
    SECRET, EL = T("in_", "clear-text"), T("in_", "element")
    for cipher, rule in ((NONE, "nokey"), (T("nn", "cipher"), "sealed")):
        w = World(rep, repo)
        for m in ("serialize", "deserialize"):
            w.cfg.boundary.pop("serializer.Serializer." + m, None)
        I = w.I
        st, ser = serializer(w, cipher)
        st, mt = meta(w, st, "SS")
        st.facts[T("isnone", SECRET)] = False
        st.facts[T("isinst", SECRET, ("Element",))] = False
        bad, n = None, 0
        for o in I.call_method(st, ser, "serialize", [SECRET], {"metadata": mt}):
            if any(f for k, f in o.st.facts.items() if isinstance(k, T) and k.op == "isinst" and k.args[0] == SECRET):
                continue  # already an element
            n += 1
            if cipher == NONE:
                if not w.lib_error(o):
                    bad = "%s %s without a key" % (o.sig, w.exc(o) or "")
            elif o.sig != "return":
                bad = "fails with %s although there is a key" % w.exc(o)
            else:
                v = I.freeze(o.st, o.val)
                if plain_reach(v, SECRET, {"update"}):
                    bad = "the text is emitted in the clear: %s" % str(v)[:150]
                elif not has(v, SECRET) or not has(v, cipher):
                    bad = "what is emitted is not the text encrypted with the cipher: %s" % str(v)[:150]
                elif not any(opname(t) == "finalize" and "encryptor" in map(opname, subterms(t)) for t in subterms(v)):
                    bad = "the encryption is not finished"
                elif not any(isinstance(t, K) and str(t.v).replace("_", "-").lower() in ("utf-16-le", "utf-16le") for t in subterms(v)):
                    bad = "the text is not encoded as UTF-16"
        rep.ob(rule, bad is None and n > 0, "Serializer.serialize", "a secure string %s" % ("without a key" if cipher == NONE else "with a key"), bad or "nothing analysed")
        st, ser = serializer(w, cipher)
        st.facts[T("truth", T("nn", "received"))] = True
        el = I.xml(st, "SS", text=T("nn", "received"))
        bad, n = None, 0
        for o in I.call_method(st, ser, "deserialize", [el]):
            n += 1
            v = o.val
            if cipher == NONE:
                if o.sig == "return" and v != el and not (isinstance(v, T) and has(I.freeze(o.st, v), T("nn", "received")) and "tostring" in str(v)):
                    bad = "returns %s" % str(I.freeze(o.st, v))[:100]
            elif o.sig != "return":
                bad = "fails with %s although there is a key" % w.exc(o)
            else:
                v = I.freeze(o.st, v)
                if not has(v, T("nn", "received")) or not has(v, cipher) or "decryptor" not in str(v):
                    bad = "what is returned is not the received data decrypted with the cipher: %s" % str(v)[:150]
        rep.ob(rule, bad is None and n > 0, "Serializer.deserialize", "a secure string %s" % ("without a key" if cipher == NONE else "with a key"), bad or "nothing analysed")
        w.done()
