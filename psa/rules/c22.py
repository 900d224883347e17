"""C22: certificate validation, proxies and certificate authentication are applied exactly as configured."""
from .c21 import *

TECHNIQUE = "static analysis: path enumeration of session set-up under every configuration; the settings in force at each HTTP exchange are compared"
CA, PROXY, ENVP = K("/some/ca.pem"), T("in_", "proxy"), T("in_", "env-proxies")
PEM, KEYPEM, KEYPW = T("in_", "pem"), T("in_", "keypem"), T("in_", "keypassword")
ENV_CA = T("in_", "env-ca")
BROAD = ("InsecureRequestWarning", "SecurityWarning", "HTTPWarning", "Warning", "UserWarning")


def run(rep, repo, tier):
    rep.rule("verify", "the server certificate is verified as configured at every exchange", 30)
    rep.rule("proxy", "an explicit proxy replaces, and disabling bypasses, the environment's", 12)
    rep.rule("warnings", "warnings about insecure requests are silenced exactly when validation is off", 3)
    rep.rule("certificate", "certificate authentication presents exactly the given files and is refused without TLS or one of them", 8)
    rep.rule("scheme", "requests go to an https URL exactly when TLS is on", 2)
    for _ in backgrounds(rep, {"cert_validation", "proxy", "no_proxy", "port", "username", "password"}):
        auths = {"negotiate": {}, "basic": {"username": T("in_", "u"), "password": T("in_", "p")}, "kerberos": {},
                 "credssp": {"username": T("in_", "u"), "password": T("in_", "p")},
                 "certificate": {"certificate_pem": PEM, "certificate_key_pem": KEYPEM}}
        for auth, kw in auths.items():
            for con, v, env, want in (("on, no environment", TRUE, TRUE, TRUE), ("on, environment CA", TRUE, ENV_CA, ENV_CA),
                                      ("off", FALSE, ENV_CA, FALSE), ("CA path", CA, ENV_CA, CA), ("off, no environment", FALSE, TRUE, FALSE),
                                      ("CA path, no environment", CA, TRUE, CA)):
                verify(rep, repo, auth, dict(kw), con, v, env, want)
        for ssl in (TRUE, FALSE):
            for env in (TRUE, ENV_CA):
                for con, a in (("environment", {}), ("explicit", {"proxy": PROXY}), ("disabled", {"no_proxy": TRUE}), ("explicit", {"proxy": PROXY, "no_proxy": TRUE}),
                               ("explicit", {"proxy": PROXY, "cert_validation": FALSE}), ("explicit", {"proxy": PROXY, "port": K(443)}), ("disabled", {"no_proxy": TRUE, "port": K(5985)}),
                               ("explicit", {"proxy": PROXY, "port": K(5986)}), ("explicit", {"proxy": K("http://proxy:3128")}), ("disabled", {"no_proxy": TRUE, "port": K(5986)}), ("disabled", {"no_proxy": TRUE, "cert_validation": CA})):
                    proxy(rep, repo, ssl, con, a, env)
            for port in (None, K(80), K(5985), K(5986)):
                scheme(rep, repo, ssl, port)
        for con, v in (("on", TRUE), ("off", FALSE), ("CA path", CA)):
            for a in ({"proxy": PROXY}, {"no_proxy": TRUE}, {"auth": K("basic"), "username": T("in_", "u"), "password": T("in_", "p")}):
                verify(rep, repo, "negotiate", dict(a), con, v, TRUE, v)
                verify(rep, repo, "negotiate", dict(a), con + ", environment CA", v, ENV_CA, ENV_CA if v == TRUE else v)
            silenced(rep, repo, con, v)
        certificate(rep, repo)


def paths(rep, repo, kw, op="get", env=None, **hk):
    w, st, ref = mk(rep, repo, kw, **hk)
    for t in [PROXY, PEM, KEYPEM, KEYPW, ENV_CA, ENVP, T("in_", "u"), T("in_", "p")] + [v for v in kw.values() if isinstance(v, T)]:
        st.facts[T("isnone", t)] = False
        st.facts[T("truth", t)] = True
    if env is not None:
        w.env_ca = [env]
    return w, w.op(st, ref, op)


def verify(rep, repo, auth, kw, con, v, env, want):
    more = ", ".join(sorted(kw))
    kw = dict({"ssl": TRUE, "auth": K(auth), "cert_validation": v}, **kw)
    w, outs = paths(rep, repo, kw, env=env)
    bad, n = None, 0
    for o in outs:
        for x in w.http(o):
            n += 1
            if x.conf["verify"] != want:
                bad = "validation in force is %s" % (x.conf["verify"],)
    if not n:
        bad = "nothing is sent"
    rep.ob("verify", bad is None, "wsman._TransportHTTP", "%s: %s%s" % (auth, con, " (%s)" % more if more else ""), bad or "")
    w.done()


def entries(t):
    """{key: value} of a frozen dict term, or None"""
    if isinstance(t, T) and t.op == "dict" and isinstance(t.args[0], tuple):
        return {(k.v if isinstance(k, K) else k): v for k, v in t.args[0]}
    return None


def proxy(rep, repo, ssl, con, a, env):
    w, outs = paths(rep, repo, dict(a, ssl=ssl), env=env)
    sch = "https" if ssl == TRUE else "http"
    bad, n = None, 0
    for o in outs:
        trust = o.st.globals.get(("tattr", SESSION, "trust_env"), TRUE)
        for x in w.http(o):
            n += 1
            p = x.conf["proxies"]
            d = entries(p)
            if any(e.name == "merge_environment_settings" and dict(e.fkw).get("url") != x.url for e in o.events):
                bad = "the environment's settings are looked up for another address"
            if con == "environment":
                # the merged settings, or nothing at all while the library still reads the environment itself
                if not (p == ENVP or (d in ({}, None) and p in (NONE, T("dict", ())) and trust != FALSE)):
                    bad = "the environment's proxies are not used"
            elif con == "explicit":
                if d is None or d.get(sch) != a["proxy"] or any(str(k).startswith(sch + "://") for k in d):
                    bad = "the given proxy is not the one in force"
            else:
                off = d is not None and d.get(sch) == FALSE and not any(str(k).startswith(sch + "://") for k in d)
                if not (off or (trust == FALSE and (p == NONE or d == {}))):
                    bad = "the environment's proxies stay in force"
    if not n:
        bad = "nothing is sent"
    rep.ob("proxy", bad is None, "wsman._TransportHTTP", "%s %s (%s)%s" % (sch, con, ", ".join(sorted(a)), " with CA environment" if env == ENV_CA else ""), bad or "")
    w.done()


def scheme(rep, repo, ssl, port):
    w, outs = paths(rep, repo, {"ssl": ssl, **({"port": port} if port else {})})
    sch = "https" if ssl == TRUE else "http"
    bad, n = None, 0
    for o in outs:
        for x in w.http(o):
            n += 1
            first = parts(x.url)[0]
            if not (isinstance(first, K) and str(first.v).startswith(sch + "://")):
                bad = "the request does not go to an %s URL" % sch
    if not n:
        bad = "nothing is sent"
    rep.ob("scheme", bad is None, "wsman._TransportHTTP", "%s port %s" % (sch, port.v if port else "default"), bad or "")
    w.done()


def silenced(rep, repo, con, v):
    w, outs = paths(rep, repo, {"ssl": TRUE, "cert_validation": v})
    bad, n, ever = None, 0, False
    for o in outs:
        if not w.http(o):
            continue
        n += 1
        hit = False
        for e in o.events:
            nm = str(e.name or "")
            if nm.endswith("disable_warnings"):
                hit = hit or not e.fargs or any(b in str(e.fargs) for b in BROAD[:3])
            if nm in ("warnings.simplefilter", "warnings.filterwarnings"):
                act = e.arg(0, "action")
                cat = e.arg(1 if nm.endswith("simplefilter") else 2, "category")
                c = "Warning" if cat is None else str(cat).rsplit(".", 1)[-1].strip("'\")>")
                if act in (K("ignore"), None) and c in BROAD:
                    hit = True
        ever = ever or hit
        if hit and v != FALSE:
            bad = "warnings about insecure requests are silenced though validation is on"
    if v == FALSE and not ever:
        bad = "warnings about insecure requests are not silenced though validation is off"
    if not n:
        bad = "nothing analysed"
    rep.ob("warnings", bad is None, "wsman._TransportHTTP", con, bad or "")
    w.done()


def certificate(rep, repo):
    full = {"auth": K("certificate"), "certificate_pem": PEM, "certificate_key_pem": KEYPEM}
    cases = [("no certificate", dict(full, certificate_pem=NONE), TRUE), ("no key", dict(full, certificate_key_pem=NONE), TRUE),
             ("no TLS", dict(full, encryption=K("never")), FALSE), ("no TLS, encryption auto", dict(full), FALSE),
             ("no TLS, port 5986", dict(full, encryption=K("never"), port=K(5986)), FALSE), ("no TLS, port 443, validation off", dict(full, encryption=K("never"), port=K(443), cert_validation=FALSE), FALSE),
             ("neither", {"auth": K("certificate")}, TRUE), ("no certificate, key password", dict(full, certificate_pem=NONE, certificate_key_password=KEYPW), TRUE),
             ("no key, key password", dict(full, certificate_key_pem=NONE, certificate_key_password=KEYPW), TRUE),
             ("no key, validation off", dict(full, certificate_key_pem=NONE, cert_validation=FALSE), TRUE)]
    for con, kw, ssl in cases:
        w, st, ref = mk_any(rep, repo, dict(kw, ssl=ssl))
        bad = None
        if ref is not None:
            for o in w.op(st, ref, "get"):
                if w.http(o) or o.sig != "raise":
                    bad = "a request is sent"
                elif not error_ok(w, o):
                    bad = "the refusal is %s" % w.exc(o)
        rep.ob("certificate", bad is None, "wsman._TransportHTTP", con, bad or "")
        w.done()
    for con, kw in (("with key password", dict(full, certificate_key_password=KEYPW)), ("without key password", dict(full))):
        w, outs = paths(rep, repo, dict(kw, ssl=TRUE))
        bad, n = None, 0
        for o in outs:
            for x in w.http(o):
                n += 1
                if x.conf["cert"] != T("tuple", PEM, KEYPEM):
                    bad = "the certificate presented is not the configured pair"
                if not any(isinstance(k, tuple) and k[0] == "titem" and k[2] == K("Authorization") and "secprofile/https/mutual" in str(v)
                           for k, v in o.st.globals.items()) and "secprofile/https/mutual" not in str(x.headers):
                    bad = "the request does not announce certificate authentication"
        if not n:
            bad = "nothing is sent"
        rep.ob("certificate", bad is None, "wsman._TransportHTTP", con, bad or "")
        w.done()
    keypw(rep, repo, full)


def keypw(rep, repo, full):
    """the key password reaches the TLS library through the adapter mounted for https"""
    for con, given_pw in (("password for the key", True),):
        w, outs = paths(rep, repo, dict(full, ssl=TRUE, **({"certificate_key_password": KEYPW} if given_pw else {})))
        bad, n = None, 0
        for o in outs:
            if not w.http(o):
                continue
            ms = [e for e in o.events if e.kind == "meth" and e.name == "mount" and e.arg(0, "prefix") == K("https://")]
            if not ms:
                bad = "no adapter is mounted for https"
                continue
            ad = ms[-1].args[1] if hasattr(ms[-1], "args") and len(ms[-1].args) > 1 else ms[-1].arg(1, "adapter")
            n += 1
            bad = bad or key_reaches(w, o, ad)
            if n > 3:
                break
        if not n:
            bad = bad or "nothing analysed"
        rep.ob("certificate", bad is None, "_pool_manager.create_request_adapter", con, bad or "")
        w.done()


def key_reaches(w, o, ad):
    if isinstance(ad, T) and KEYPW in subterms(ad):
        return None
    if isinstance(ad, Ref) and KEYPW in o.st.heap[ad.oid].attrs.values():
        outs = w.I.call_method(o.st.copy(), ad, "init_poolmanager", [K(10), K(10)], {})
        for p in outs:
            if not any(KEYPW in subterms(v) for e in p.events for k, v in e.fkw if k == "key_password"):
                return "the key password is not handed to the connection pools"
        return None if outs else "the connection pools are not created"
    return "the key password does not reach the https adapter"


def error_ok(w, o):
    anc = [a.rsplit(".", 1)[-1] for a in w.I.exc_ancestors(o.st, o.exc.v)]
    return "ValueError" in anc or "WinRMError" in anc


def mk_any(rep, repo, kw):
    """as mk; (world, state, None) when construction is refused with an argument error"""
    w = Http(rep, repo)
    w.fault_boundary()
    st = given()
    for t in (PEM, KEYPEM, KEYPW):
        st.facts[T("isnone", t)] = False
        st.facts[T("truth", t)] = True
    outs = w.I.construct(st, w.p.cls("wsman.WSMan"), [ENDPOINT_SERVER], dict(kw))
    if all(o.sig == "raise" and error_ok(w, o) for o in outs):
        return w, st, None
    r = ok(outs)
    return w, r.st, r.val
