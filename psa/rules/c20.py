"""C20: each operation is one request with its own action and exactly what it was given; the answer's body comes back."""
from .wsm import *

TECHNIQUE = "static analysis: exhaustive path enumeration of every operation; the request document of each path is read back"
ANON = "http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous"
NS = {"s": "http://www.w3.org/2003/05/soap-envelope", "wsa": "http://schemas.xmlsoap.org/ws/2004/08/addressing",
      "wsman": "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd", "wsmv": "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd"}
LANG = "{http://www.w3.org/XML/1998/namespace}lang"
OPTIONAL_RESOURCE = {"delete", "enumerate", "get", "pull", "put", "reconnect"}
CONF = {n: T("in_", n) for n in ("locale", "data_locale", "max_envelope_size", "operation_timeout")}
TIMEOUT = T("in_", "timeout")
ONAME, OVAL, OATTR, SNAME, SVAL, SNAME2, SVAL2 = [T("in_", n) for n in ("oname", "oval", "oattr", "sname", "sval", "sname2", "sval2")]


def given():
    st = State()
    for t in [ENDPOINT_SERVER, URI, RES, TIMEOUT, ONAME, OVAL, OATTR, SNAME, SVAL, SNAME2, SVAL2] + list(CONF.values()):
        st.facts[T("isnone", t)] = False
    st.facts[T("truth", TIMEOUT)] = True
    st.facts[T("truth", CONF["operation_timeout"])] = True
    return st


def world(rep, repo, **kw):
    w = Http(rep, repo)
    w.fault_boundary()
    st = given()
    for t in (TIMEOUT, CONF["operation_timeout"]):
        w.I.numeric.add(t)
        st = [s for s, b in w.I.truth(st, t) if b][0]
    a = dict(CONF)
    a["ssl"] = TRUE
    a.update(kw)
    objs = w.wsman(st, **a)
    if not objs:
        raise AnalysisError("WSMan cannot be constructed")
    return w, objs[0]


def run(rep, repo, tier):
    rep.rule("request", "one request per operation, posted to the endpoint, with the action and body of that operation", 26)
    rep.rule("header", "the header carries action, message id, resource, endpoint, session id, locales, envelope size and timeout", 26)
    rep.rule("sets", "options and selectors are exactly the given ones, in order, with their attributes", 39)
    rep.rule("body", "the body of the server's answer is returned", 13)
    rep.rule("ids", "every request has its own message id and all share the session id", 1)
    rep.rule("envelope", "an updated maximum envelope size is the one announced", 1)
    rep.rule("config", "reading the server's configuration is a get of the configuration resource", 1)
    rep.rule("reading", "no source spells an action by another meaning: the named actions are the protocol's URIs", 13)
    for _ in backgrounds(rep, set(CONF), op=False):
        for op in OPS:
            one(rep, repo, op)
        ids(rep, repo)
        envelope(rep, repo)
        envelope_read(rep, repo)
        understood(rep, repo)
        config(rep, repo)
        locales(rep, repo)
    actions(rep, repo)


def sets(w, st):
    """(state, option set, selector set) built through the public classes"""
    out = []
    for cls, opts in (("OptionSet", [[ONAME, OVAL, None], [K("second"), K("v2"), OATTR], [ONAME, K("v3"), None]]), ("SelectorSet", [[SNAME, SVAL, None], [SNAME2, SVAL2, None]])):
        o = [x for x in w.I.construct(st, w.p.cls("wsman." + cls), [], {}) if x.sig == "return"][0]
        st, ref = o.st, o.val
        for n, v, attr in opts:
            a = [n, v]
            if attr is not None:
                a.append(st.new(HDict([(K("MustComply"), attr)])))
            o = [x for x in w.I.call_method(st, ref, "add_option", a, {}) if x.sig == "return"][0]
            st = o.st
        out.append(ref)
    return [st] + out


def attrib(x):
    a = x.args[1]
    out = {}
    for kv in (a.args[0] if isinstance(a, T) and a.op == "dict" and isinstance(a.args[0], tuple) else ()):
        k, v = kv
        out[k.v if isinstance(k, K) else k] = v
    return out


def kids(x, ns, name):
    tag = "{%s}%s" % (NS[ns], name)
    return [c for c in x.args[3] if isinstance(c, T) and c.op == "xml" and isinstance(c.args[0], K) and c.args[0].v == tag]


def only(x, ns, name, bad):
    k = kids(x, ns, name)
    if len(k) != 1:
        bad.append("%d %s elements" % (len(k), name))
        return None
    return k[0]


def txt(v):
    """text equal to str(v)"""
    return [v, T("str", v)] if not isinstance(v, K) else [K(str(v.v))]


def same_text(t, v):
    return t in txt(v)


def parts(t):
    if isinstance(t, T) and t.op == "cat":
        return list(t.args)
    return [t]


def check_header(w, o, x, op, timeout, bad, opts=None, sels=None, size=None, url=None):
    I = w.I
    doc = sent_xml(x.data)
    if doc is None:
        bad.append("the request carries no document")
        return None
    hs, bs = kids(doc, "s", "Header"), kids(doc, "s", "Body")
    if len(hs) != 1 or len(bs) != 1 or local(doc.args[0]) != "Envelope":
        bad.append("not an envelope of one header and one body")
        return None
    h = hs[0]
    a = only(h, "wsa", "Action", bad)
    if a is not None and a.args[2] != K(ACTIONS[op]):
        bad.append("the action sent is %s" % (a.args[2],))
    r = only(h, "wsman", "ResourceURI", bad)
    if r is not None and not same_text(r.args[2], URI if url is None else url):
        bad.append("the resource URI sent is not the one given")
    to = only(h, "wsa", "To", bad)
    if to is not None and to.args[2] != x.url:
        bad.append("the address sent is not the endpoint")
    for ns, n, key in (("wsman", "Locale", "locale"), ("wsmv", "DataLocale", "data_locale")):
        e = only(h, ns, n, bad)
        if e is not None and attrib(e).get(LANG) != CONF[key]:
            bad.append("%s is not the configured one" % n)
    e = only(h, "wsman", "MaxEnvelopeSize", bad)
    if e is not None and not same_text(e.args[2], CONF["max_envelope_size"] if size is None else size):
        bad.append("the envelope size announced is not the configured one")
    e = only(h, "wsman", "OperationTimeout", bad)
    want = TIMEOUT if timeout else CONF["operation_timeout"]
    if e is not None and (len(parts(e.args[2])) != 3 or parts(e.args[2])[0] != K("PT") or parts(e.args[2])[2] != K("S")
                          or parts(e.args[2])[1] not in txt(want)):
        bad.append("the operation timeout is not the %s one" % ("given" if timeout else "configured"))
    e = only(h, "wsa", "ReplyTo", bad)
    if e is not None:
        ad = only(e, "wsa", "Address", bad)
        if ad is not None and ad.args[2] != K(ANON):
            bad.append("the reply address is not anonymous")
    m, s = only(h, "wsa", "MessageID", bad), only(h, "wsmv", "SessionId", bad)
    mid, sid = [uuid_of(e.args[2]) if e is not None else None for e in (m, s)]
    if m is not None and (mid is None or parts(m.args[2])[0] != K("uuid:")):
        bad.append("the message id is not a fresh UUID")
    if s is not None and (sid is None or parts(s.args[2])[0] != K("uuid:")):
        bad.append("the session id is not the connection's UUID")
    if mid is not None and mid == sid:
        bad.append("the message id is the session id")
    return h, bs[0], mid, sid


def uuid_of(t):
    u = {x for x in subterms(t) if isinstance(x, T) and x.op == "ret" and "uuid4" in str(opname(x))}
    return list(u)[0] if len(u) == 1 else None


def check_sets(h, opts, sels, bad):
    for name, child, want in (("OptionSet", "Option", opts), ("SelectorSet", "Selector", sels)):
        k = kids(h, "wsman", name)
        if want is None:
            if k:
                bad.append("%s sent though none was given" % name)
            continue
        if len(k) != 1:
            bad.append("%d %s elements" % (len(k), name))
            continue
        got = []
        for c in kids(k[0], "wsman", child):
            at = attrib(c)
            got.append((at.get("Name"), c.args[2], {n: v for n, v in at.items() if n != "Name"}))
        if len(got) != len(k[0].args[3]) or len(got) != len(want) or not all(
                g[0] == x[0] and same_text(g[1], x[1]) and g[2] == x[2] for g, x in zip(got, want)):
            bad.append("the %ss sent are not the given ones in their order" % child.lower())


OPTS = [(ONAME, OVAL, {}), (K("second"), K("v2"), {"MustComply": OATTR}), (ONAME, K("v3"), {})]
SELS = [(SNAME, SVAL, {}), (SNAME2, SVAL2, {})]


def one(rep, repo, op):
    variants = [("all", True, True, True, True), ("keywords", False, True, True, True), ("options", False, True, False, False),
                ("selectors", True, False, True, False)]
    if op in OPTIONAL_RESOURCE:
        variants.append(("no body", True, False, False, None))
    where = "wsman.WSMan." + op
    ret_bad, ret_n = [], 0
    for name, positional, with_o, with_s, with_t in variants:
        w, (st, ref) = world(rep, repo)
        st, oset, sset = sets(w, st)
        extra = [oset if with_o else NONE, sset if with_s else NONE, TIMEOUT if with_t else NONE]
        res = [URI] + ([RES] if with_t is not None else [])
        if positional:
            outs = w.I.call_method(st, ref, op, res + (extra if with_t is not None else []), {})
        else:
            kw = dict(zip(("option_set", "selector_set", "timeout"), extra))
            if op in OPTIONAL_RESOURCE:
                kw["resource"] = RES
                res = [URI]
            outs = w.I.call_method(st, ref, op, res, kw)
        b_req, b_hdr, b_set = [], [], []
        n = 0
        for o in outs:
            xs = w.http(o)
            n += 1
            if len(xs) != 1:
                b_req.append("%d HTTP requests" % len(xs))
                continue
            x = xs[0]
            cs = charset(x.data)
            if cs is not None:
                b_req.append("the document is sent in %s though announced as UTF-8" % cs)
            if x.method != K("POST"):
                b_req.append("the request is not a POST")
            r = check_header(w, o, x, op, bool(with_t), b_hdr)
            if r is None:
                continue
            h, body = r[0], r[1]
            want = (RES,) if with_t is not None else ()
            if tuple(body.args[3]) != want or body.args[2] not in (NONE, K("")):
                b_req.append("the body sent is not exactly the resource given")
            check_sets(h, OPTS if with_o else None, SELS if with_s else None, b_set)
            if o.sig == "return":
                ret_n += 1
                if not is_body(o.val, x):
                    ret_bad.append("what is returned is not the body of the answer")
        if not n:
            b_req.append("nothing analysed")
        if name in ("all", "keywords"):
            rep.ob("request", not b_req, where, name, "; ".join(sorted(set(b_req))[:3]))
            rep.ob("header", not b_hdr, where, name, "; ".join(sorted(set(b_hdr))[:3]))
        else:
            b_set += b_req + b_hdr
        if name != "keywords":
            rep.ob("sets", not b_set, where, name, "; ".join(sorted(set(b_set))[:3]))
        w.done()
    if not ret_n:
        ret_bad.append("no path returns")
    rep.ob("body", not ret_bad, where, op, "; ".join(sorted(set(ret_bad))[:2]))


def charset(t):
    """the encoding the document is written in, if it is one UTF-8 does not contain"""
    for x in subterms(t):
        if isinstance(x, T) and (opname(x) == "ET.tostring" or (x.op == "meth" and x.args[0] == "encode")):
            kw = [a.args[1] for a in x.args if isinstance(a, T) and a.op == "kw" and a.args[0] == "encoding"]
            e = kw[0] if kw else (x.args[2] if len(x.args) > 2 else None)
            if isinstance(e, K) and isinstance(e.v, str) and e.v.lower().replace("_", "-") not in ("utf-8", "utf8", "us-ascii", "ascii", "unicode"):
                return e.v
    return None


def is_body(v, x):
    """find(Body) on the parsed content of that very answer"""
    if not isinstance(v, T):
        return False
    if v.op == "meth" and v.args[0] == "find" and isinstance(v.args[2], K) and str(v.args[2].v).removeprefix("./") in ("s:Body", "{%s}Body" % NS["s"]):
        r = v.args[1]
        return isinstance(r, T) and "fromstring" in str(opname(r)) and x.resp in subterms(r)
    sub = list(subterms(v))
    # another way of selecting: some element of the parsed answer, by a comparison the path decided
    return any(isinstance(t, T) and "fromstring" in str(opname(t)) and x.resp in subterms(t) for t in sub) and v.op not in ("meth", "fn") \
        and not any(isinstance(t, T) and t.op == "meth" and t.args[0] == "find" for t in sub)


def ids(rep, repo):
    w, (st, ref) = world(rep, repo)
    bad = []
    n = 0
    first = [o for o in w.op(st, ref, "get") if o.sig == "return"][:2]
    for o1 in first:
        for o2 in w.op(o1.st, ref, "send")[:6]:
            xs = w.http(o2)
            if len(xs) < 2:
                bad.append("the second operation sends nothing")
                continue
            r1, r2 = [check_header(w, o2, x, op, False, bad) for x, op in zip(xs[-2:], ("get", "send"))]
            if r1 is None or r2 is None:
                continue
            n += 1
            if r1[2] == r2[2]:
                bad.append("two requests share a message id")
            if r1[3] != r2[3]:
                bad.append("the session id changes between requests")
    if not n:
        bad.append("nothing analysed")
    rep.ob("ids", not bad, "wsman.WSMan", "two operations", "; ".join(sorted(set(bad))[:3]))
    # the same option and selector sets given to two operations
    bad, n = [], 0
    st, oset, sset = sets(w, st)
    for o1 in [o for o in w.I.call_method(st, ref, "get", [URI], {"option_set": oset, "selector_set": sset}) if o.sig == "return"][:1]:
        for o2 in w.I.call_method(o1.st, ref, "send", [URI, RES, oset, sset], {})[:4]:
            for x in w.http(o2)[-1:]:
                n += 1
                r = check_header(w, o2, x, "send", False, bad)
                if r is not None:
                    check_sets(r[0], OPTS, SELS, bad)
    rep.ob("sets", not bad and n > 0, "wsman.WSMan", "the same sets for two operations", "; ".join(sorted(set(bad))[:3]) or "nothing sent")
    w.done()


def understood(rep, repo):
    """a server that does not know the options has to refuse them: the option set says so, however many options it has"""
    for cls in ("OptionSet", "SelectorSet"):
        for k in (1, 2, 3):
            w, (st, ref) = world(rep, repo)
            o = [x for x in w.I.construct(st, w.p.cls("wsman." + cls), [], {}) if x.sig == "return"][0]
            st, s = o.st, o.val
            names = [(T("in_", "n%d" % i), T("in_", "v%d" % i)) for i in range(k)]
            for nv in names:
                st = [x for x in w.I.call_method(st, s, "add_option", list(nv), {}) if x.sig == "return"][0].st
            bad, n = [], 0
            for o in w.I.call_method(st, ref, "send", [URI, RES], {"option_set" if cls == "OptionSet" else "selector_set": s}):
                for x in w.http(o):
                    n += 1
                    e = only(kids(sent_xml(x.data), "s", "Header")[0], "wsman", cls, bad)
                    if e is None:
                        continue
                    if len(e.args[3]) != k:
                        bad.append("%d of %d sent" % (len(e.args[3]), k))
                    if (attrib(e).get("{%s}mustUnderstand" % NS["s"]) in (K("true"), K("1"))) != (cls == "OptionSet"):
                        bad.append("the server is %stold that it must understand the set" % ("not " if cls == "OptionSet" else ""))
            rep.ob("sets", not bad and n > 0, "wsman." + cls, "%d entr%s" % (k, "y" if k == 1 else "ies"), "; ".join(sorted(set(bad))) or "nothing sent")
            w.done()


def envelope_read(rep, repo):
    """the size read from the server's configuration, in KiB, is the one announced afterwards"""
    cfgns = "http://schemas.microsoft.com/wbem/wsman/1/config"
    for kb in (150, 500, 8192):
        w, (st, ref) = world(rep, repo)
        bad, n = [], 0

        def answer(I, s, fv, args, kw, ctx, node):
            doc = I.xml(s, "{%s}Body" % NS["s"], {}, NONE, [I.xml(s, "{%s}Config" % cfgns, {}, NONE, [
                I.xml(s, "{%s}MaxTimeoutms" % cfgns, {}, K("60000"), []), I.xml(s, "{%s}MaxEnvelopeSizekb" % cfgns, {}, K(str(kb)), [])])])
            return [(s, doc)]
        w.p.func("wsman.WSMan.get_server_config")
        w.cfg.boundary["wsman.WSMan.get_server_config"] = answer
        for o in w.I.call_method(st, ref, "update_max_payload_size", [], {}):
            if o.sig != "return":
                bad.append("reading the size raises")
                continue
            for o2 in w.op(o.st, ref, "send")[:4]:
                for x in w.http(o2):
                    n += 1
                    check_header(w, o2, x, "send", False, bad, size=K(kb * 1024))
        rep.ob("envelope", not bad and n > 0, "wsman.WSMan.update_max_payload_size", "%d KiB configured on the server" % kb, "; ".join(sorted(set(bad))[:3]) or "nothing sent")
        w.done()


def envelope(rep, repo):
    w, (st, ref) = world(rep, repo)
    size = T("in_", "newsize")
    st.facts[T("isnone", size)] = False
    bad = []
    n = 0
    for o in w.I.call_method(st, ref, "update_max_payload_size", [size], {}):
        if o.sig != "return":
            bad.append("updating the size raises")
            continue
        for o2 in w.op(o.st, ref, "send")[:4]:
            for x in w.http(o2):
                n += 1
                check_header(w, o2, x, "send", False, bad, size=size)
    if not n:
        bad.append("nothing analysed")
    rep.ob("envelope", not bad, "wsman.WSMan.update_max_payload_size", "size given", "; ".join(sorted(set(bad))[:3]))
    w.done()


def config(rep, repo):
    w, (st, ref) = world(rep, repo)
    bad = []
    n = 0
    for o in w.I.call_method(st, ref, "get_server_config", [K("config")], {}):
        xs = w.http(o)
        if len(xs) != 1:
            bad.append("%d requests" % len(xs))
            continue
        n += 1
        r = check_header(w, o, xs[0], "get", False, bad, url=K("http://schemas.microsoft.com/wbem/wsman/1/config"))
        if r is not None and r[1].args[3]:
            bad.append("a body is sent")
        if o.sig == "return" and not is_body(o.val, xs[0]):
            bad.append("what is returned is not the body of the answer")
    if not n:
        bad.append("nothing analysed")
    rep.ob("config", not bad, "wsman.WSMan.get_server_config", "config", "; ".join(sorted(set(bad))[:3]))
    w.done()


def locales(rep, repo):
    """without a data locale the locale is the data locale"""
    for given_locale in (CONF["locale"], K("en-US")):
        w = Http(rep, repo)
        w.fault_boundary()
        bad, n = [], 0
        for st, ref in w.wsman(given(), **dict({k: v for k, v in CONF.items() if "locale" not in k}, ssl=TRUE, **({"locale": given_locale} if isinstance(given_locale, T) else {})))[:1]:
            for o in w.op(st, ref, "get"):
                for x in w.http(o):
                    n += 1
                    for ns, name in (("wsman", "Locale"), ("wsmv", "DataLocale")):
                        e = only(kids(sent_xml(x.data), "s", "Header")[0], ns, name, bad)
                        if e is not None and attrib(e).get(LANG) != given_locale:
                            bad.append("%s is %s" % (name, attrib(e).get(LANG)))
        rep.ob("header", not bad and n > 0, "wsman.WSMan.__init__", "locale %s, no data locale" % ("given" if isinstance(given_locale, T) else "not given"),
               "; ".join(sorted(set(bad))) or "nothing sent")
        w.done()


def actions(rep, repo):
    """the named actions of the action table"""
    w = World(rep, repo, wire_psrp=False)
    cls = w.p.cls("wsman.WSManAction")
    for op in OPS:
        st = State()
        e = cls.attrs.get(op.upper())
        v = w.I.class_expr(st, cls, op.upper(), e)[1] if e is not None else None
        rep.ob("reading", v == K(ACTIONS[op]), "wsman.WSManAction." + op.upper(), op, "the action is %s" % (v,))
    w.done()
