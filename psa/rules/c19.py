"""C19: WinRS shells are deleted exactly if open, with all output captured in order."""
import base64
import itertools
import re

from .wsm import *

TECHNIQUE = "static analysis: path enumeration of the shell and process operations over known reply trees, all short histories of opens, closes, polls and faults"
RSP = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
WST = "http://schemas.xmlsoap.org/ws/2004/09/transfer"
WSA = "http://schemas.xmlsoap.org/ws/2004/08/addressing"
WSMAN = "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd"
SOAP = "http://www.w3.org/2003/05/soap-envelope"
STATES = {s: "%s/CommandState/%s" % (RSP, s) for s in ("Done", "Pending", "Running")}
URI2 = T("in_", "uri")
CID = T("in_", "command-id")
TIMEOUT = 2150858793
OPS19 = ("create", "delete", "command", "receive", "send", "signal", "get")


def run(rep, repo, tier):
    rep.rule("open", "the shell is created with what it was given, and is open exactly from then on", 12)
    rep.rule("close", "over every history the shell is deleted exactly when it is open", 20)
    rep.rule("address", "every request names the shell by the selectors and resource the server returned", 15)
    rep.rule("receive", "state, return code and every stream come from the reply, streams in order and complete", 20)
    rep.rule("input", "input and signals name their own command, and the end of input is marked only when asked", 11)
    rep.rule("process", "a process gathers every reply in order until the server says it is done", 20)
    opening(rep, repo)
    closing(rep, repo, 4 if tier == "quick" else 5)
    addressing(rep, repo)
    receiving(rep, repo, tier)
    inputs(rep, repo)
    processes(rep, repo, tier)


class ShellWorld(World):
    """WSMan operations are the boundary; replies[op] = [reply, ...] (the last one repeats); a reply is a function
    (I, st) -> element, or the name of an error the request ends in"""

    def __init__(self, rep, repo, **replies):
        super().__init__(rep, repo, wire_psrp=False)
        self.replies = replies
        for op in OPS19:
            q = "wsman.WSMan." + op
            self.p.func(q)
            self.wire.add(q)
            self.cfg.boundary[q] = self.answer
        self.cfg.raises = lambda ev, st: [(self.error(st.globals["fail"]),)] if ev.kind == "pkg" and ev.name in self.wire and st.globals.get("fail") else ()

    def error(self, what):
        def make(I, s):
            s.globals["fail"] = None
            if isinstance(what, str):
                return I.mk_exc(what)
            o = [o for o in I.construct(s, self.p.cls("exceptions.WSManFaultError"), [what] + [NONE] * 5, {}) if o.sig == "return"][0]
            return o.val
        return make

    def answer(self, I, st, fv, args, kw, ctx, node):
        op = fv.func.qual.rsplit(".", 1)[-1]
        k = st.globals.get(("n", op), 0)
        st.globals[("n", op)] = k + 1
        rs = self.replies.get(op) or [empty]
        if k >= len(rs) and op == "receive":
            I.cut += 1
            self.starved += 1
            return []
        r = rs[min(k, len(rs) - 1)]
        if callable(r):
            return I.boundary_event(st, fv, args, kw, ctx, node, result=r(I, st))
        st.globals["fail"] = r
        return [(s, v) for s, v in I.boundary_event(st, fv, args, kw, ctx, node, result=NONE) if isinstance(v, Raised)]

    def shell(self, st, **kw):
        a = dict(kw)
        for x in (CID, T("in_", "id-1"), T("in_", "id-2")):
            text_fact(st, x)
        wsm = self.I.abs_inst(st, "wsman.WSMan", "wsman")
        for o in self.I.construct(st, self.p.cls("shell.WinRS"), [wsm], a):
            if o.sig == "return":
                return o.st, o.val
        raise AnalysisError("WinRS cannot be constructed")

    def field(self, o, ref, name):
        return self.I.freeze(o.st, self.I.getattr_(o.st, ref, name))

    def seq(self, st, steps):
        """outcomes of [(ref, method, args, kw), ...]; errors do not end the sequence. [(st, [outcome signal, ...])]"""
        cur = [(st, [])]
        for ref, m, a, kw in steps:
            nxt = []
            for s, log in cur:
                for o in self.I.call_method(s, ref, m, list(a), dict(kw)):
                    nxt.append((o.st, log + [o]))
            cur = nxt
        return cur


def empty(I, st):
    return I.xml(st, "{%s}Body" % SOAP)


def elem(I, st, ns, name, text=NONE, attrs=None, kids=()):
    return I.xml(st, "{%s}%s" % (ns, name), attrs, text, kids)


def created(selectors=(("ShellId", "sel-id"),), fields=(("ShellId", "sh-id"),), noset=False, timeout=None):
    def make(I, st):
        for _, v in tuple(selectors) + tuple(fields):
            if v is not None:
                text_fact(st, T("in_", v))
        kids = [elem(I, st, RSP, n, T("in_", v) if v is not None else NONE) for n, v in fields]
        if timeout is not None:
            kids.append(elem(I, st, RSP, "IdleTimeOut", timeout))
        shell = elem(I, st, RSP, "Shell", kids=kids)
        sels = [elem(I, st, WSMAN, "Selector", T("in_", v) if v is not None else NONE, {"Name": K(n)}) for n, v in selectors]
        par = elem(I, st, WSA, "ReferenceParameters", kids=[elem(I, st, WSMAN, "ResourceURI", URI2)] + ([] if noset else [elem(I, st, WSMAN, "SelectorSet", kids=sels)]))
        res = elem(I, st, WST, "ResourceCreated", kids=[elem(I, st, WSA, "Address", K("http://host:5985/wsman")), par])
        return elem(I, st, SOAP, "Body", kids=[res, shell])
    return make


def commanded(cid=CID):
    def make(I, st):
        return elem(I, st, SOAP, "Body", kids=[elem(I, st, RSP, "CommandResponse", kids=[elem(I, st, RSP, "CommandId", cid)])])
    return make


def received(state, rc, streams, cid=CID):
    """state: name or None; rc: None (absent), "" (empty element) or a text; streams: [(name, text or None[, the End attribute])]"""
    def make(I, st):
        kids = []
        for n, t, *end in streams:
            kids.append(elem(I, st, RSP, "Stream", NONE if t is None else t, dict({"Name": K(n), "CommandId": cid}, **({"End": K(end[0])} if end else {}))))
        if state:
            ex = [] if rc is None else [elem(I, st, RSP, "ExitCode", K(rc) if rc != "" and isinstance(rc, str) else NONE if rc == "" else rc)]
            kids.append(elem(I, st, RSP, "CommandState", attrs={"CommandId": cid, "State": K(STATES.get(state, state))}, kids=ex))
        return elem(I, st, SOAP, "Body", kids=[elem(I, st, RSP, "ReceiveResponse", kids=kids)])
    return make


def wire(w, st, since=0):
    return [e for e in st.events()[since:] if e.kind == "pkg" and e.name in w.wire]


def texts(x, *path):
    """texts of the elements of the frozen tree at this path of local names"""
    cur = [x]
    for p in path:
        cur = [c for y in cur for c in y.args[3] if isinstance(c, T) and c.op == "xml" and local(c.args[0]) == p]
    return [c.args[2] for c in cur]


def attrib(x):
    a = x.args[1]
    return {k.v: v for k, v in a.args[0]} if isinstance(a, T) and a.op == "dict" else {}


def arg(ev, name):
    return ev.arg(None, name)


def packed(w, st, v):
    """[(name, text, attributes)] a selector or option set is sent as"""
    while isinstance(v, T) and v.op == "inst":
        v = v.args[1]
    if not isinstance(v, Ref):
        return None
    outs = [o for o in w.I.call_method(st.copy(), v, "pack", [], {}) if o.sig == "return"]
    if len(outs) != 1:
        return None
    x = w.I.freeze(outs[0].st, outs[0].val)
    return [(attrib(c).get("Name"), bare(c.args[2]), {k: v for k, v in attrib(c).items() if k != "Name"}) for c in x.args[3]] if isinstance(x, T) and x.op == "xml" else None


def bare(v):
    """a text without str()"""
    while isinstance(v, T) and v.op == "str" and len(v.args) == 1 and isinstance(v.args[0], T):
        v = v.args[0]
    return v


def body(ev):
    """the element a request carries"""
    for x in [v for _, v in ev.fkw] + list(ev.fargs):
        if isinstance(x, T) and x.op == "xml":
            return x
    return None


# ---------------------------------------------------------------- open
GIVEN = {"id": T("in_", "given-id"), "input_streams": K("stdin extra"), "output_streams": K("stdout"), "codepage": K(65001), "idle_time_out": K(900),
         "lifetime": K(3600), "name": T("in_", "name"), "no_profile": TRUE, "working_directory": T("in_", "wd")}
WANT = {"InputStreams": "input_streams", "OutputStreams": "output_streams", "Name": "name", "WorkingDirectory": "working_directory"}
DEFAULT = {"InputStreams": K("stdin"), "OutputStreams": K("stdout stderr")}


def opening(rep, repo):
    I0 = None
    cases = [("nothing", ())] + [(n, (n,)) for n in sorted(GIVEN)] + [("an environment", ("environment",)), ("everything", tuple(GIVEN) + ("environment",))]
    for con, names in cases:
        w = ShellWorld(rep, repo, create=[created()])
        st = State()
        kw = {n: GIVEN[n] for n in names if n in GIVEN}
        env = [(K("B"), T("in_", "v1")), (K("a b"), K(7))]
        for t in [x for x in list(kw.values()) + [T("in_", "v1")] if isinstance(x, T)]:
            w.I.cfg and text_fact(st, t)
        if "environment" in names:
            kw["environment"] = st.new(HDict(env))
        st, sh = w.shell(st, **kw)
        bad, n = None, 0
        for o in w.I.call_method(st, sh, "open", [], {}):
            n += 1
            bad = bad or judge_open(w, o, sh, kw, names, env)
        w.done()
        rep.ob("open", bad is None and n > 0, "WinRS.open", "given %s" % con, bad or "no path")
    # base options and extra content
    w = ShellWorld(rep, repo, create=[created()])
    st, sh = w.shell(State(), no_profile=TRUE)
    st, opts = new(w, st, "wsman.OptionSet")
    outs = [o for o in w.I.call_method(st, opts, "add_option", [K("protocolversion"), K("2.3")], {}) if o.sig == "return"]
    st = outs[0].st
    extra = w.I.xml(st, "{urn:x}creationXml", None, T("in_", "content"))
    bad, n = None, 0
    for o in w.I.call_method(st, sh, "open", [opts, extra], {}):
        n += 1
        es = wire(w, o.st)
        ps = packed(w, o.st, arg(es[0], "option_set")) if es else None
        if o.sig != "return" or len(es) != 1:
            bad = "the shell is not created: %s" % show(o, w)
        elif [p for p, _, _ in ps or ()] != [K("protocolversion"), K("WINRS_NOPROFILE")]:
            bad = "the options sent are %s" % (ps,)
        elif [c.args[2] for c in body(es[0]).args[3] if local(c.args[0]) == "creationXml"] != [T("in_", "content")]:
            bad = "the content given is not sent"
    w.done()
    rep.ob("open", bad is None and n > 0, "WinRS.open", "base options and content", bad or "no path")
    # a second time, after the server's reply set the fields
    w = ShellWorld(rep, repo, create=[created(fields=(("ShellId", "sh-id"),), timeout=K("PT900.000S"))])
    st, sh = w.shell(State(), idle_time_out=K(900))
    bad, n = None, 0
    for s, log in w.seq(st, [(sh, "open", [], {}), (sh, "close", [], {}), (sh, "open", [], {})]):
        n += 1
        es = [e for e in wire(w, s) if e.name.endswith(".create")]
        got = texts(body(es[-1]), "IdleTimeOut") if len(es) == 2 else None
        if got is None or len(got) != 1 or not isinstance(got[0], K) or not re.fullmatch(r"PT900(\.0+)?S", str(got[0].v)):
            bad = "the second time IdleTimeOut is %s" % (got,)
    w.done()
    rep.ob("open", bad is None and n > 0, "WinRS.open", "again after closing", bad or "no path")
    # with
    for what, reply in (("it is created", created()), ("creating fails", "psa.OtherError")):
        w = ShellWorld(rep, repo, create=[reply])
        st, sh = w.shell(State())
        bad, n = None, 0
        for o in w.I.call_method(st, sh, "__enter__", [], {}):
            n += 1
            es = wire(w, o.st)
            if len(es) != 1 or not es[0].name.endswith(".create"):
                bad = "requests: %s" % [e.name for e in es]
            elif what == "it is created" and (o.sig != "return" or o.val != sh or w.field(o, sh, "opened") != TRUE):
                bad = "the block does not get an open shell"
            elif what != "it is created" and (o.sig != "raise" or w.field(o, sh, "opened") != FALSE):
                bad = "a shell that could not be created counts as open"
        w.done()
        rep.ob("open", bad is None and n > 0, "WinRS.__enter__", what, bad or "no path")


def text_fact(st, t):
    st.facts[T("isnone", t)] = False
    st.facts[T("isinst", t, ("str",))] = True
    st.facts[T("isinst", t, ("bytes",))] = False
    st.facts[T("truth", t)] = True


def new(w, st, qual, *a):
    for o in w.I.construct(st, w.p.cls(qual), list(a), {}):
        if o.sig == "return":
            return o.st, o.val
    raise AnalysisError("%s cannot be constructed" % qual)


def same(v, want):
    """a text is the given value's text"""
    if bare(v) == want:
        return True
    if isinstance(want, K) and isinstance(v, K):
        return str(v.v) == str(want.v)
    inner, ws = unwrap(v)
    return inner == want and all("str" in x for x in ws)


def judge_open(w, o, sh, kw, names, env):
    es = wire(w, o.st)
    if o.sig != "return" or [e.name for e in es] != ["wsman.WSMan.create"]:
        return "the shell is not created: %s" % show(o, w)
    e, x = es[0], body(es[0])
    if arg(e, "resource_uri") != K("http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd"):
        return "created for resource %s" % arg(e, "resource_uri")
    if x is None or local(x.args[0]) != "Shell":
        return "no Shell element is sent"
    if attrib(x).get("ShellId") != kw.get("id"):
        return "the shell id sent is %s" % attrib(x).get("ShellId")
    for tag, a in WANT.items():
        want = kw.get(a, DEFAULT.get(tag))
        got = texts(x, tag)
        if (got != [want]) if want is not None else got:
            return "%s sent is %s" % (tag, got)
    for tag, a in (("IdleTimeOut", "idle_time_out"), ("Lifetime", "lifetime")):
        got = texts(x, tag)
        if got != ([K("PT%dS" % kw[a].v)] if a in kw else []):
            return "%s sent is %s" % (tag, got)
    ev = [c for y in x.args[3] if local(y.args[0]) == "Environment" for c in y.args[3]]
    got = [(attrib(c).get("Name"), c.args[2]) for c in ev]
    want = env if "environment" in names else []
    if len(got) != len(want) or not all(same(a, c) and same(b, d) for (a, b), (c, d) in zip(got, want)):
        return "the environment sent is %s" % (got,)
    op = arg(e, "option_set")
    ps = packed(w, o.st, op) if op not in (None, NONE) else []
    want = ([("WINRS_NOPROFILE", "TRUE")] if "no_profile" in names else []) + ([("WINRS_CODEPAGE", "65001")] if "codepage" in names else [])
    if sorted((n.v, v.v) for n, v, _ in ps or ()) != sorted(want):
        return "the options sent are %s" % (ps,)
    if w.field(o, sh, "opened") != TRUE:
        return "the shell does not count as open"
    if w.field(o, sh, "id") != T("in_", "sh-id"):
        return "the shell id is not the server's"
    return None


# ---------------------------------------------------------------- close
def closing(rep, repo, depth):
    for n in range(1, depth + 1):
        for hist in itertools.product(("open", "open!", "close", "close!", "exit", "leave"), repeat=n):
            if n == depth and len(set(hist)) < 2 and n > 2:
                continue
            if n > 3 and not (hist[0] == "open" and "!" in "".join(hist)):
                continue
            history(rep, repo, hist, False)
            if n <= 2:
                history(rep, repo, hist, True)


def history(rep, repo, hist, named):
    # what is expected
    opened, want, creates, deletes = False, [], [], []
    for h in hist:
        if h.startswith("open"):
            if opened:
                want.append(())
            else:
                want.append(("create",))
                creates.append("psa.OtherError" if h.endswith("!") else created())
                opened = not h.endswith("!")
        elif opened:
            want.append(("delete",))
            deletes.append("psa.OtherError" if h.endswith("!") else empty)
            opened = h.endswith("!")
        else:
            want.append(())
    w = ShellWorld(rep, repo, create=creates or [created()], delete=deletes or [empty])
    st0 = State()
    text_fact(st0, GIVEN["id"])
    st, sh = w.shell(st0, **({"id": GIVEN["id"]} if named else {}))
    bad, cur = None, [st]
    for h, names in zip(hist, want):
        m = {"open": "open", "open!": "open", "close": "close", "close!": "close", "exit": "__exit__", "leave": "__exit__"}[h]
        nxt = []
        for s in cur:
            before = len(s.events())
            for o in w.I.call_method(s, sh, m, [NONE] * 3 if h == "exit" else [T("nn", "type"), T("nn", "error"), T("nn", "tb")] if h == "leave" else [], {}):
                got = tuple(e.name.rsplit(".", 1)[-1] for e in wire(w, o.st, before))
                if got != names:
                    bad = bad or "%s sends %s, expected %s" % (m, list(got) or "nothing", list(names) or "nothing")
                fails = h.endswith("!") and bool(names)
                if (o.sig == "raise") != fails:
                    bad = bad or "%s %s" % (m, "swallows the failure" if fails else "fails: %s" % w.exc(o))
                for e in wire(w, o.st, before):
                    if e.name.endswith(".delete"):
                        sel = packed(w, o.st, arg(e, "selector_set"))
                        if [(a, b) for a, b, _ in sel or ()] != [(K("ShellId"), T("in_", "sel-id"))]:
                            bad = bad or "the shell deleted is named by %s" % (sel,)
                nxt.append(o.st)
        cur = nxt
    w.done()
    rep.ob("close", bad is None and bool(cur), "WinRS", ("named: " if named else "") + " ".join(hist), bad or "no path")


# ---------------------------------------------------------------- addresses
SELS = {"no selector": (), "one selector": (("ShellId", "s1"),), "two selectors": (("Zone", "z1"), ("ShellId", "s1")), "a selector without text": (("ShellId", None),)}


def addressing(rep, repo):
    calls = {"command": [T("in_", "exe"), NONE], "receive": [], "send": [K("stdin"), T("in_", "data")], "signal": [T("in_", "code"), CID], "_get_shell": [], "close": []}
    for con, sels in SELS.items():
        for uri in ("the server's resource", "its own resource"):
            w = ShellWorld(rep, repo, create=[created(sels, (("ShellId", "sh-id"),) + ((("ResourceUri", "shell-uri"),) if uri.startswith("the") else ()))],
                           receive=[received("Running", None, [])])
            for m, a in calls.items():
                st, sh = w.shell(State())
                bad, n = None, 0
                for o in [o for o in w.I.call_method(st, sh, "open", [], {}) if o.sig == "return"]:
                    before = len(o.st.events())
                    for o2 in w.I.call_method(o.st, sh, m, list(a), {}):
                        n += 1
                        es = wire(w, o2.st, before)
                        if o2.sig != "return" or len(es) != 1:
                            bad = "sends %s: %s" % ([e.name for e in es], w.exc(o2))
                            continue
                        sel = packed(w, o2.st, arg(es[0], "selector_set"))
                        want = [(K(k), T("in_", v) if v else K("")) for k, v in sels]
                        got = [(k, K("") if t in (NONE, None) else t) for k, t, _ in sel or ()]
                        if got != want:
                            bad = "the shell is named by %s, the server named it %s" % (got, want)
                        ru = arg(es[0], "resource_uri")
                        wu = K(RSP) if m == "_get_shell" else T("in_", "shell-uri") if uri.startswith("the") else K(RSP + "/cmd")
                        if ru != wu:
                            bad = "the resource is %s" % ru
                rep.ob("address", bad is None and n > 0, "WinRS." + m, "%s, %s" % (con, uri), bad or "no path")
            w.done()
    # opened again, the shell is the one the server returned last
    w = ShellWorld(rep, repo, create=[created(), created((("ShellId", "sel-2"), ("Extra", "sel-3")))], delete=[empty] * 2)
    st, sh = w.shell(State())
    bad, n = None, 0
    for s, log in w.seq(st, [(sh, "open", [], {}), (sh, "close", [], {}), (sh, "open", [], {}), (sh, "signal", [T("in_", "code"), CID], {}), (sh, "close", [], {})]):
        n += 1
        got = [[(k, t) for k, t, _ in packed(w, s, arg(e, "selector_set")) or ()] for e in wire(w, s) if e.name.endswith((".signal", ".delete"))]
        want = [[(K("ShellId"), T("in_", "sel-id"))]] + [[(K("ShellId"), T("in_", "sel-2")), (K("Extra"), T("in_", "sel-3"))]] * 2
        if any(x.sig != "return" for x in log) or got != want:
            bad = "the shell deleted, signalled and deleted is named by %s" % (got,)
    rep.ob("address", bad is None and n > 0, "WinRS.open", "a second time with other selectors", bad or "no path")
    w.done()
    w = ShellWorld(rep, repo, create=[created(noset=True)])
    st, sh = w.shell(State())
    outs = w.I.call_method(st, sh, "open", [], {})
    rep.ob("address", bool(outs) and all(o.sig == "return" and w.field(o, sh, "opened") == TRUE for o in outs), "WinRS.open", "a reply without selectors", "fails")
    w.done()


# ---------------------------------------------------------------- receive
def b64d(v):
    """what a buffer is made of: the texts decoded, in order; None if something else is in it"""
    if v == K(b""):
        return []
    if isinstance(v, T) and v.op in ("cat", "concat"):
        out = []
        for x in v.args:
            y = b64d(x)
            if y is None:
                return None
            out += y
        return out
    if isinstance(v, T) and v.op in ("+", "add") or isinstance(v, T) and v.op == "bin" and v.args[0] in ("+", "Add"):
        xs = [x for x in v.args if isinstance(x, (T, K)) and not (isinstance(x, K) and x.v in ("+", "Add"))]
        out = []
        for x in xs:
            y = b64d(x)
            if y is None:
                return None
            out += y
        return out
    if isinstance(v, T) and "b64decode" in opname(v):
        x = v.args[-1]
        while isinstance(x, T) and x.op == "meth" and x.args[0] == "encode":
            x = x.args[1]
        return [x]
    return None


def B(i):
    return T("in_", "b64-%d" % i)


def shapes(names, depth):
    """streams of a reply: sequences of (name, has text)"""
    alpha = [(n, True) for n in names] + [(names[0], False)]
    for n in range(depth + 1):
        for seq in itertools.product(alpha, repeat=n):
            yield seq


def receiving(rep, repo, tier):
    depth = 3 if tier == "quick" else 4
    one_receive(rep, repo, "stdout stderr", ("stdout", "stderr"), list(shapes(("stdout", "stderr"), depth)))
    one_receive(rep, repo, "stdout", ("stdout",), list(shapes(("stdout",), 3)))
    one_receive(rep, repo, "pr stdout x", ("pr", "stdout", "x"), list(shapes(("pr", "x"), 2)))
    # state and return code
    for state in ("Running", "Done", "Pending", None, "urn:other"):
        for rc, want in (((None, NONE), ("", K(0)), ("0", K(0)), ("5", K(5)), ("-1073741510", K(-1073741510)), ("4294967295", K(4294967295))) if state else ((None, NONE),)):
            bad, n = None, 0
            w, o1 = opened(rep, repo, receive=[received(state, rc, [("stdout", B(0))])])
            for o in w.I.call_method(o1.st, o1.val, "receive", [], {}):
                n += 1
                r = w.I.seq_items(o.st, o.val) if o.sig == "return" else None
                if not r or len(r) != 3:
                    bad = "gives %s" % show(o, w)
                elif r[0] != K(STATES.get(state, state) if state else STATES["Pending"]):
                    bad = "the state is %s" % r[0]
                elif r[1] != want:
                    bad = "the return code is %s" % r[1]
            w.done()
            rep.ob("receive", bad is None and n > 0, "WinRS.receive", "state %s, exit code %r" % (state, rc), bad or "no path")
    # the request
    for con, a in (("plain", {}), ("a command", {"command_id": CID}), ("a timeout", {"timeout": T("in_", "secs")}), ("a stream", {"stream": K("stdout")})):
        w, o1 = opened(rep, repo, receive=[received("Running", None, [])])
        bad, n = None, 0
        for o in w.I.call_method(o1.st, o1.val, "receive", [], dict(a)):
            n += 1
            e = wire(w, o.st)[-1]
            x = body(e)
            d = [c for c in x.args[3] if local(c.args[0]) == "DesiredStream"] if x is not None else []
            if len(d) != 1 or d[0].args[2] != a.get("stream", K("stdout stderr")):
                bad = "the streams asked for are %s" % [c.args[2] for c in d]
            elif attrib(d[0]).get("CommandId") != a.get("command_id"):
                bad = "the command asked about is %s" % attrib(d[0]).get("CommandId")
            elif (arg(e, "timeout") or NONE) != a.get("timeout", NONE):
                bad = "the timeout is %s" % arg(e, "timeout")
        w.done()
        rep.ob("receive", bad is None and n > 0, "WinRS.receive", "asks for %s" % con, bad or "no path")


def opened(rep, repo, **replies):
    w = ShellWorld(rep, repo, create=[created()], **replies)
    st, sh = w.shell(State())
    for o in w.I.call_method(st, sh, "open", [], {}):
        if o.sig == "return":
            o.val = sh
            return w, o
    raise AnalysisError("WinRS.open never returns")


def one_receive(rep, repo, stream, names, seqs):
    for seq in seqs:
        whole(rep, repo, stream, names, seq, None)
        if 0 < len(seq) < 3:
            for end in ("true", "True", "false"):
                whole(rep, repo, stream, names, seq, end)


def whole(rep, repo, stream, names, seq, end):
    """a reply with these chunks; end: the End attribute of the last chunk of each stream (the earlier ones say false)"""
    parts = [(n, B(i) if full else None) for i, (n, full) in enumerate(seq)]
    if end:
        parts = [(n, t, end if n not in [m for m, _ in seq[i + 1:]] else "false") for i, (n, t) in enumerate(parts)]
    w, o1 = opened(rep, repo, receive=[received("Running", None, parts)])
    for i in range(len(seq)):
        text_fact(o1.st, B(i))
    bad, n = None, 0
    for o in w.I.call_method(o1.st, o1.val, "receive", [K(stream)], {}):
        n += 1
        r = w.I.seq_items(o.st, o.val) if o.sig == "return" else None
        if not r or len(r) != 3:
            bad = "gives %s" % show(o, w)
            continue
        for nm in names:
            v = item(w, o.st, r[2], nm)
            got = b64d(v) if v is not None else None
            want = [t for m, t, *_ in parts if m == nm and t is not None]
            if got != want:
                bad = "%s is %s, sent was %s" % (nm, v if got is None else got, want)
    w.done()
    rep.ob("receive", bad is None and n > 0, "WinRS.receive", "%s: %s" % (stream, " ".join(m + ("" if f else "(no text)") for m, f in seq) or "nothing") + (", end marked %s" % end if end else ""), bad or "no path")


def item(w, st, d, name):
    o = st.heap.get(d.oid) if isinstance(d, Ref) else None
    if isinstance(o, HDict):
        for k, v in o.items:
            if k == K(name):
                return w.I.freeze(st, v)
    return None


# ---------------------------------------------------------------- input, signals
def inputs(rep, repo):
    data = T("in_", "data")
    for con, kw in (("plain", {}), ("the end", {"end": TRUE}), ("not the end", {"end": FALSE}), ("a command", {"command_id": CID}), ("a command's end", {"command_id": CID, "end": TRUE})):
        w, o1 = opened(rep, repo)
        bad, n = None, 0
        for o in w.I.call_method(o1.st, o1.val, "send", [K("stdin"), data], dict(kw)):
            n += 1
            bad = bad or judge_send(w, o, data, kw.get("command_id"), kw.get("end", NONE), "stdin")
        w.done()
        rep.ob("input", bad is None and n > 0, "WinRS.send", con, bad or "no path")
    for d in (b"", b"\0", b"C:\\0\\", b"dir\r\n", b" \t", b"\xff\xfe", b"a" * 100):
        w, o1 = opened(rep, repo)
        bad, n = None, 0
        for o in w.I.call_method(o1.st, o1.val, "send", [K("stdin"), K(d)], {"command_id": CID}):
            n += 1
            bad = bad or judge_send(w, o, K(d), CID, NONE, "stdin")
        w.done()
        rep.ob("input", bad is None and n > 0, "WinRS.send", "%r" % d[:10], bad or "no path")
    for con, a in (("default", []), ("the end", [TRUE]), ("not the end", [FALSE])):
        w, o1 = opened(rep, repo, command=[commanded()])
        st, pr = new(w, o1.st, "shell.Process", o1.val, T("in_", "exe"))
        bad, n = None, 0
        for o in w.I.call_method(st, pr, "begin_invoke", [], {}):
            for o2 in w.I.call_method(o.st, pr, "send", [data] + a, {}):
                n += 1
                bad = bad or judge_send(w, o2, data, CID, a[0] if a else TRUE, "stdin")
        w.done()
        rep.ob("input", bad is None and n > 0, "Process.send", con, bad or "no path")
    for who in ("WinRS", "Process"):
        w, o1 = opened(rep, repo, command=[commanded()])
        if who == "WinRS":
            outs = w.I.call_method(o1.st, o1.val, "signal", [T("in_", "code"), CID], {})
        else:
            st, pr = new(w, o1.st, "shell.Process", o1.val, T("in_", "exe"))
            outs = [o2 for o in w.I.call_method(st, pr, "begin_invoke", [], {}) for o2 in w.I.call_method(o.st, pr, "signal", [T("in_", "code")], {})]
        bad = None if outs else "no path"
        for o in outs:
            es = [e for e in wire(w, o.st) if e.name.endswith(".signal")]
            x = body(es[0]) if len(es) == 1 else None
            if x is None or o.sig != "return":
                bad = "no signal is sent: %s" % show(o, w)
            elif attrib(x).get("CommandId") != CID or local(x.args[0]) != "Signal":
                bad = "the signal is for command %s" % attrib(x).get("CommandId")
            elif texts(x, "Code") != [T("in_", "code")]:
                bad = "the signal sent is %s" % texts(x, "Code")
        w.done()
        rep.ob("input", bad is None, who + ".signal", "a code", bad or "")
    # two processes on one shell keep their own ids
    w, o1 = opened(rep, repo, command=[commanded(T("in_", "id-1")), commanded(T("in_", "id-2"))], receive=[received("Running", None, [])] * 2)
    st, p1 = new(w, o1.st, "shell.Process", o1.val, T("in_", "exe"))
    st, p2 = new(w, st, "shell.Process", o1.val, T("in_", "exe"))
    bad, n = None, 0
    for s, log in w.seq(st, [(p1, "begin_invoke", [], {}), (p2, "begin_invoke", [], {}), (p1, "send", [data], {}), (p2, "signal", [K("c")], {}), (p1, "poll_invoke", [], {}), (p2, "poll_invoke", [], {})]):
        n += 1
        ids = []
        for e in wire(w, s):
            op = e.name.rsplit(".", 1)[-1]
            if op in ("send", "signal", "receive"):
                x = body(e)
                c = x if op == "signal" else x.args[3][0]
                ids.append(attrib(c).get("CommandId"))
        if ids != [T("in_", "id-%d" % i) for i in (1, 2, 1, 2)]:
            bad = "the requests of processes 1, 2, 1, 2 are for %s" % ids
    w.done()
    rep.ob("input", bad is None and n > 0, "Process", "two processes of a shell", bad or "no path")


CODECS = ("b64encode", "encode", "decode", "to_bytes", "to_string", "to_unicode", "str", "memoryview", "bytes")


def judge_send(w, o, data, cid, end, stream):
    es = [e for e in wire(w, o.st) if e.name.endswith(".send")]
    if o.sig != "return" or len(es) != 1:
        return "nothing is sent: %s" % show(o, w)
    x = body(es[0])
    ss = [c for c in x.args[3] if local(c.args[0]) == "Stream"] if x is not None else []
    if len(ss) != 1:
        return "%d streams are sent" % len(ss)
    a = attrib(ss[0])
    if a.get("Name") != K(stream):
        return "the stream is %s" % a.get("Name")
    if a.get("CommandId") != cid:
        return "the command is %s" % a.get("CommandId")
    e = a.get("End")
    said = isinstance(e, K) and str(e.v).lower() in ("true", "1")
    if e is not None and not isinstance(e, K) or said != (end == TRUE):
        return "the end of the input is %s" % ("marked" if said else "not marked")
    t = ss[0].args[2]
    if isinstance(data, K):
        try:
            return None if base64.b64decode(t.v, validate=True) == data.v else "what is sent is %s" % (t,)
        except (AttributeError, TypeError, ValueError):
            return "what is sent is %s" % (t,)
    inner, ok = t, False
    while isinstance(inner, T) and inner.op in ("meth", "fn") and opname(inner).rsplit(".", 1)[-1] in CODECS:
        ok = ok or "b64encode" in opname(inner)
        inner = inner.args[1]
    if inner != data or not ok:
        return "what is sent is %s" % (t,)
    return None


# ---------------------------------------------------------------- processes
def processes(rep, repo, tier):
    # the command
    for con, args, kw in (("no argument", NONE, {}), ("arguments", (T("in_", "a1"), K("a 2"), K(""), K("a 2"), T("in_", "a1"), K("\"-\"")), {}), ("without cmd", NONE, {"no_shell": TRUE})):
        w, o1 = opened(rep, repo, command=[commanded()])
        st = o1.st
        a = st.new(HList(list(args))) if isinstance(args, tuple) else NONE
        outs0 = [o for o in w.I.construct(st, w.p.cls("shell.Process"), [o1.val, T("in_", "exe")], dict(kw, arguments=a)) if o.sig == "return"]
        bad, n = None, 0
        pr = outs0[0].val
        for o in w.I.call_method(outs0[0].st, pr, "begin_invoke", [], {}):
            n += 1
            es = wire(w, o.st)[1:]
            x = body(es[0]) if len(es) == 1 else None
            if o.sig != "return" or x is None or not es[0].name.endswith(".command"):
                bad = "sends %s" % [e.name for e in es]
                continue
            ops = packed(w, o.st, arg(es[0], "option_set"))
            if texts(x, "Command") != [T("in_", "exe")]:
                bad = "the command is %s" % texts(x, "Command")
            elif texts(x, "Arguments") != (list(args) if isinstance(args, tuple) else []):
                bad = "the arguments are %s" % texts(x, "Arguments")
            elif [(k, v.v.upper()) for k, v, _ in ops or ()] != [(K("WINRS_SKIP_CMD_SHELL"), "TRUE" if kw else "FALSE")]:
                bad = "the options are %s" % (ops,)
            elif w.field(o, pr, "id") != CID:
                bad = "the id is not the server's"
        w.done()
        rep.ob("process", bad is None and n > 0, "Process.begin_invoke", con, bad or "no path")
    R = {"out": ("Running", None, [("stdout", 1)]), "err": ("Running", None, [("stderr", 1)]), "both": ("Running", None, [("stdout", 1), ("stderr", 1), ("stdout", 1)]), "none": (None, None, []),
         "late": TIMEOUT}
    last = {"done": ("Done", "3", [("stdout", 1)]), "done0": ("Done", "0", []), "done-": ("Done", None, [("stderr", 1)]),
            "failed": ("Done", "-1073741510", [("stderr", 1), ("stdout", 1), ("stderr", 1)])}
    depth = 2 if tier == "quick" else 3
    for n in range(depth + 1):
        for seq in itertools.product(R, repeat=n):
            for l in last if n < 2 else ("done",):
                gather(rep, repo, [(k, R[k]) for k in seq] + [(l, last[l])])
    again(rep, repo)
    for code in (K(5), "psa.OtherError"):
        w, o1 = opened(rep, repo, command=[commanded()], receive=[received("Running", None, [("stdout", B(0))]), code, received("Done", "0", [])])
        text_fact(o1.st, B(0))
        w.cfg.while_max = 4
        st, pr = new(w, o1.st, "shell.Process", o1.val, T("in_", "exe"))
        bad, n = None, 0
        for o in w.I.call_method(st, pr, "invoke", [], {}):
            n += 1
            if o.sig != "raise":
                bad = "the failure is swallowed"
            elif b64d(w.field(o, pr, "stdout")) != [B(0)]:
                bad = "the output received before is lost"
        w.done()
        rep.ob("process", bad is None and n > 0, "Process.invoke", "receiving fails", bad or "no path")


def gather(rep, repo, script):
    k, replies, out, err = 0, [], [], []
    for _, r in script:
        if r == TIMEOUT:
            replies.append(K(TIMEOUT))
            continue
        parts = []
        for nm, _ in r[2]:
            parts.append((nm, B(k)))
            (out if nm == "stdout" else err).append(B(k))
            k += 1
        replies.append(received(r[0], r[1], parts))
    rc = K(int(script[-1][1][1])) if script[-1][1][1] is not None else NONE
    for how in ("invoke", "begin_invoke + end_invoke", "begin_invoke + poll_invoke"):
        # nothing is asked for once the server said it is done: an extra reply is there to be left
        w, o1 = opened(rep, repo, command=[commanded()], receive=replies + [received("Done", "9", [("stdout", B(k))])])
        w.cfg.while_max = len(script) + 2
        for i in range(k + 1):
            text_fact(o1.st, B(i))
        st, pr = new(w, o1.st, "shell.Process", o1.val, T("in_", "exe"))
        steps = [(pr, m, [], {}) for m in how.split(" + ")]
        if how.endswith("poll_invoke"):
            steps = steps[:1] + steps[1:] * len(replies)
        bad, n = None, 0
        for s, log in w.seq(st, steps):
            n += 1
            o = log[-1]
            if any(x.sig != "return" for x in log):
                bad = "fails: %s" % [w.exc(x) for x in log if x.sig != "return"]
                continue
            rs = [e for e in wire(w, s) if e.name.endswith(".receive")]
            if len(rs) != len(replies):
                bad = "asks %d times, the server is done after %d" % (len(rs), len(replies))
            elif any(attrib(body(e).args[3][0]).get("CommandId") != CID for e in rs):
                bad = "asks about another command"
            elif b64d(w.field(o, pr, "stdout")) != out or b64d(w.field(o, pr, "stderr")) != err:
                bad = "stdout is %s, stderr is %s" % (w.field(o, pr, "stdout"), w.field(o, pr, "stderr"))
            elif w.field(o, pr, "rc") != rc:
                bad = "the return code is %s" % w.field(o, pr, "rc")
            elif w.field(o, pr, "state") != K(STATES["Done"]):
                bad = "the state is %s" % w.field(o, pr, "state")
        w.done()
        rep.ob("process", bad is None and n > 0, "Process." + how, " ".join(x for x, _ in script), bad or "no path: it is never done")


def again(rep, repo):
    """a process started a second time reports the second run"""
    w, o1 = opened(rep, repo, command=[commanded(), commanded(T("in_", "id-2"))],
                   receive=[received("Done", "1", [("stdout", B(0)), ("stderr", B(1))]), received("Running", None, [("stdout", B(2))]), received("Done", "0", [("stdout", B(3))])])
    for i in range(4):
        text_fact(o1.st, B(i))
    w.cfg.while_max = 5
    st, pr = new(w, o1.st, "shell.Process", o1.val, T("in_", "exe"))
    bad, n = None, 0
    for s, log in w.seq(st.copy(), [(pr, "invoke", [], {}), (pr, "begin_invoke", [], {})]):
        if any(w.field(log[-1], pr, x) != y for x, y in (("rc", NONE), ("stdout", K(b"")), ("stderr", K(b"")), ("state", K(STATES["Pending"])))):
            bad = "a run just started has the state %s and code %s and output of the one before" % (w.field(log[-1], pr, "state"), w.field(log[-1], pr, "rc"))
    for s, log in w.seq(st, [(pr, "invoke", [], {}), (pr, "invoke", [], {}), (pr, "signal", [K("c")], {})]):
        n += 1
        o = log[-1]
        ids = [attrib(body(e) if e.name.endswith("signal") else body(e).args[3][0]).get("CommandId") for e in wire(w, s) if e.name.endswith((".receive", ".signal"))]
        if ids != [CID] + [T("in_", "id-2")] * 3:
            bad = "the requests are for commands %s" % ids
        elif any(x.sig != "return" for x in log):
            bad = "fails"
        elif w.field(o, pr, "rc") != K(0) or b64d(w.field(o, pr, "stdout")) != [B(2), B(3)] or b64d(w.field(o, pr, "stderr")) != []:
            bad = "the second run reports code %s, stdout %s, stderr %s" % tuple(w.field(o, pr, x) for x in ("rc", "stdout", "stderr"))
    w.done()
    rep.ob("process", bad is None and n > 0, "Process.invoke", "a second time", bad or "no path")
