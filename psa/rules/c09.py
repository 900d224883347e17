"""C09: when message encryption is required, no payload is sent in clear."""
from .wsm import *

TECHNIQUE = "static analysis: path enumeration of construction and request sending over every TLS/encryption/authentication combination, tracing what reaches each HTTP exchange"
AUTHS = ["basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm"]
RT = "requests.exceptions.ReadTimeout"
CAPABLE = {"credssp", "kerberos", "negotiate", "ntlm"}
KW = {"basic": {"username": K("u"), "password": K("pw")}, "credssp": {"username": K("u"), "password": K("pw")},
      "certificate": {"certificate_key_pem": K("k.pem"), "certificate_pem": K("c.pem")}}
PROTO = {"credssp": "CredSSP", "kerberos": "Kerberos"}


def run(rep, repo, tier):
    rep.rule("policy", "a combination that cannot honour the encryption policy is rejected before any exchange; any other is accepted", 36)
    rep.rule("sealed", "when required, every request body is the encrypted form of the request under the current context", 12)
    rep.rule("headers", "the content type and length headers describe the encrypted form, naming the context's protocol", 12)
    rep.rule("clear", "when not required the request is the plain SOAP message, sent as such", 16)
    rep.rule("handshake", "the only unencrypted request is the empty authentication request, completed before the context is used", 12)
    for _ in backgrounds(rep):
        for ssl in (FALSE, TRUE):
            for enc in ("auto", "always", "never"):
                for auth in AUTHS:
                    combo(rep, repo, ssl, enc, auth)
        for v in ("Always", "", "none", "off"):
            w = Http(rep, repo)
            outs = w.I.construct(State(), w.p.cls("wsman.WSMan"), [ENDPOINT_SERVER], {"ssl": FALSE, "auth": K("negotiate"), "encryption": K(v)})
            rep.ob("policy", bool(outs) and all(o.sig == "raise" and w.exc(o) == "ValueError" for o in outs), "wsman._TransportHTTP.__init__",
                   "encryption=%r" % v, "an unknown encryption setting is accepted")
            w.done()


def combo(rep, repo, ssl, enc, auth):
    con = "%s, encryption=%s, auth=%s" % ("https" if ssl == TRUE else "http", enc, auth)
    required = enc != "never" and (ssl == FALSE or enc == "always")
    w = Http(rep, repo)
    w.wrap_boundary()
    I = w.I
    kw = dict(BACKGROUND, **KW.get(auth, {}))
    kw.update(ssl=ssl, encryption=K(enc), auth=K(auth))
    outs = I.construct(State(), w.p.cls("wsman.WSMan"), [ENDPOINT_SERVER], kw)
    if required and auth not in CAPABLE:
        bad = None if outs else "nothing analysed"
        for o in outs:
            if o.sig != "raise" or w.exc(o) != "ValueError":
                bad = "accepted although its messages cannot be encrypted (%s %s)" % (o.sig, w.exc(o))
            elif w.http(o):
                bad = "the server is contacted before the combination is rejected"
        rep.ob("policy", bad is None, "wsman._TransportHTTP.__init__", con, bad or "")
        w.done()
        return
    good = [o for o in outs if o.sig == "return"]
    rep.ob("policy", bool(good), "wsman._TransportHTTP.__init__", con, "rejected although it can be honoured: %s" % [w.exc(o) for o in outs][:2])
    w.header = "kerberos" if auth == "kerberos" else "negotiate"
    seal = hdr = clr = hs = None
    n = 0
    for o in good[:1]:
        first = [x for x in w.op(o.st, o.val, "send") if x.sig == "return" or w.http(x)]
        every = list(first)
        for x in [x for x in first if x.sig == "return"][:1]:
            every += w.op(x.st.copy(), o.val, "delete")
        # a receive repeated after timeouts
        w.script, w.max_fail = [[RT, 200]], 3
        every += [x for x in w.op(o.st.copy(), o.val, "receive") if w.http(x)]
        for x in every:
            xs = w.http(x)
            auth_done = -1
            for e in xs:
                n += 1
                if not required:
                    if e.auth_only:
                        continue
                    clr = clr or plain(w, x, e)
                    continue
                if e.auth_only:
                    auth_done = e.index
                    if any(isinstance(t, T) and t.op in ("xml", "sealed") for h in (e.headers, e.url) for t in subterms(h)):
                        hs = "the authentication request carries message content in its headers"
                    continue
                s, h = sealed(w, x, e, auth)
                seal, hdr = seal or s, hdr or h
                if auth_done < 0:
                    hs = hs or "a message is sent before the authentication request"
    if not n and auth == "certificate" and ssl == FALSE and good:  # certificates need TLS: refused when the session is built (C22)
        w.done()
        return
    if not n:
        seal = hdr = clr = hs = "no request is sent"
    if required:
        rep.ob("sealed", seal is None, "wsman._TransportHTTP.send", con, seal or "")
        rep.ob("headers", hdr is None, "wsman._TransportHTTP.send", con, hdr or "")
        rep.ob("handshake", hs is None, "wsman._TransportHTTP.send", con, hs or "")
    else:
        rep.ob("clear", clr is None, "wsman._TransportHTTP.send", con, clr or "")
    w.done()


def header(e, name):
    """value of a header in the frozen header mapping"""
    found = None
    stack = [e.headers]
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            if len(t) == 2 and isinstance(t[0], K):
                if str(t[0].v).lower() == name:
                    found = t[1]
            else:
                stack.extend(t)
        elif isinstance(t, T) and t.op in ("dict", "odict"):
            stack.extend(t.args)
    return found


def sealed(w, o, e, auth):
    d = e.data
    if not (isinstance(d, T) and d.op == "sealed"):
        return "a request body is sent that is not the encrypted message", None
    seal = None
    if any(isinstance(t, T) and t.op in ("sealed",) for t in subterms(d.args[2])):
        seal = "the message is encrypted twice"
    if sent_xml(d.args[2]) is None:
        seal = "what is encrypted is not the request"
    ct, ln = header(e, "content-type"), header(e, "content-length")
    hdr = None
    parts = list(subterms(ct)) if ct is not None else []
    if not any(isinstance(t, T) and t.op == "ctype" and t.args[0] == d.args[0] for t in parts):
        hdr = "the content type header is not the one of this encrypted message"
    want = PROTO.get(auth, "SPNEGO")
    text = "".join(t.v for t in parts if isinstance(t, K) and isinstance(t.v, str))
    if hdr is None and ("application/HTTP-%s-session-encrypted" % want not in text or 'protocol="' not in text):
        hdr = "the content type does not name the protocol %s of the context" % want
    if hdr is None and 'boundary="Encrypted Boundary"' not in text:
        hdr = "the content type does not announce the boundary used in the body"
    if hdr is None and not any(isinstance(t, T) and t.op == "len" and t.args[0] == d for t in subterms(ln)):
        hdr = "the content length is not the length of the encrypted message"
    enc = d.args[1]
    if seal is None and not any(isinstance(t, K) and t.v == "application/HTTP-%s-session-encrypted" % want for t in subterms(enc)):
        seal = "the encryption context is not set up for %s" % want
    if seal is None and not any(isinstance(t, T) and t.op == "contexts" for t in subterms(enc)) and auth != "credssp":
        seal = "the encryption context is not the authenticated one"
    return seal, hdr


def plain(w, o, e):
    d = e.data
    if any(isinstance(t, T) and t.op == "sealed" for t in subterms(d)):
        return "a message is encrypted although it must not be"
    if sent_xml(d) is None:
        return "what is sent is not the request"
    ct = header(e, "content-type")
    if ct is None or not any(isinstance(t, K) and str(t.v).startswith("application/soap+xml") for t in subterms(ct)):
        return "a plain request is not announced as application/soap+xml"
    return None
