"""C24: a liveness check opens no connection, in this thread only and restored on every exit; it classifies faults exactly."""
from .c23 import *

TECHNIQUE = "static analysis: path enumeration of is_alive under every outcome of its request, with the connect hook of the session's adapters evaluated at each point"
RE = "requests.exceptions."
ADAPTERS = ("requests.adapters.HTTPAdapter",)
ORIG = {"http": Ext("orig.HTTPConnectionPool"), "https": Ext("orig.HTTPSConnectionPool")}


class Conn(Http):
    """HTTP world with the HTTP library's pool classes and context variables modelled"""

    def __init__(self, rep, repo, **kw):
        Http.__init__(self, rep, repo, **kw)
        c = self.cfg
        for a in ADAPTERS:
            c.ext[a] = lambda I, st, recv, args, k, ctx, n: [(st, T("adapter", st.uid()))]
        for m in ("contextvars.ContextVar",):
            c.ext[m] = lambda I, st, recv, args, k, ctx, n: [(st, T("ctxvar", args[0] if args else k.get("name", NONE), k.get("default", K("<none>"))))]
        c.ext["threading.local"] = lambda I, st, recv, args, k, ctx, n: [(st, T("threadlocal"))]
        old_get = c.ext[".get"]

        def get(I, st, recv, args, k, ctx, n):
            if isinstance(recv, T) and recv.op == "ctxvar":
                I.event(st, "ctx", "get", recv, [], {}, ctx, n)
                v = st.globals.get(("ctxval", recv))
                if v is not None:
                    return [(st, v)]
                if args:
                    return [(st, args[0])]
                if recv.args[1] != K("<none>"):
                    return [(st, recv.args[1])]
                return [(st, Raised(I.mk_exc("LookupError"), ctx.module.name, getattr(n, "lineno", 0)))]
            return old_get(I, st, recv, args, k, ctx, n)

        def set_(I, st, recv, args, k, ctx, n):
            if not (isinstance(recv, T) and recv.op == "ctxvar"):
                return None
            i = st.uid()
            st.globals[("ctxtoken", i)] = (recv, st.globals.get(("ctxval", recv)))
            st.globals[("ctxval", recv)] = args[0]
            return [(st, T("ctxtok", i))]

        def reset(I, st, recv, args, k, ctx, n):
            if not (isinstance(recv, T) and recv.op == "ctxvar"):
                return None
            t = args[0] if args else NONE
            tok = st.globals.pop(("ctxtoken", t.args[0]), None) if isinstance(t, T) and t.op == "ctxtok" else None
            if tok is None or tok[0] != recv:
                return [(st, Raised(I.mk_exc("ValueError"), ctx.module.name, getattr(n, "lineno", 0)))]
            if tok[1] is None:
                st.globals.pop(("ctxval", recv), None)
            else:
                st.globals[("ctxval", recv)] = tok[1]
            return [(st, NONE)]
        c.ext[".get"], c.ext[".set"], c.ext[".reset"] = get, set_, reset

        def classes(I, st, v):
            r = st.globals.get("shared-classes")
            if r is None:
                r = st.globals["shared-classes"] = st.new(HDict([(K(k), x) for k, x in ORIG.items()]))
            return r
        c.attrs["pool_classes_by_scheme"] = classes
        self.guard = None

    def thread(self, st):
        """the same program point seen from another thread: thread- and context-local values are unset"""
        s = st.copy()
        for k in list(s.globals):
            if isinstance(k, tuple) and (k[0] == "ctxval" or (k[0] == "tattr" and k[1] == T("threadlocal"))):
                del s.globals[k]
        return s

    def adapters(self, st, kws=({},)):
        """adapters created one after the other -> [(state, [adapter values])]"""
        f = self.p.func("_pool_manager.create_request_adapter")
        cur = [(st, [])]
        for kw in kws:
            nxt = []
            for s, got in cur:
                for o in self.I.run_func(s, FnV(f, None, None, None), [], dict(kw, max_retries=T("in_", "retries"))):
                    if o.sig == "return":
                        nxt.append((o.st, got + [o.val]))
            cur = nxt[:2]
        return cur

    def connection(self, st, manager, scheme="https", pool=None):
        """-> [(state, pool value, connection value, connect callable)] of a new connection made by that pool manager"""
        out = []
        ctx = self.ctx()
        if pool is None:
            s, d = self.attr1(st, manager, "pool_classes_by_scheme")
            cls = dict(s.heap[d.oid].items).get(K(scheme))
            pools = self.I.call(s, cls, [T("in_", "host"), K(5986)], {}, ctx, None)
        else:
            pools = [(st, pool)]
        for s, p in pools:
            if isinstance(p, Raised):
                continue
            s, cc = self.attr1(s, p, "ConnectionCls")
            for s2, c in self.I.call(s, cc, [], {}, ctx, None):
                if isinstance(c, Raised):
                    continue
                s2, f = self.attr1(s2, c, "connect")
                out.append((s2, p, c, f))
        return out

    def ctx(self):
        return Ctx(None, None, self.p.func("_pool_manager.create_request_adapter").module)

    def attr1(self, st, v, name):
        return self.I.attr(st, v, name, self.ctx())[0]

    def connect(self, st, f):
        """outcomes of calling the connect hook: [(refused?, reached the socket?, exception, state)]"""
        out = []
        s0 = st.copy()
        before = count(s0, "connect")
        for s, v in self.I.call(s0, f, [], {}, self.ctx(), None):
            out.append((isinstance(v, Raised), count(s, "connect") > before, self.I.exc_name(s, v) if isinstance(v, Raised) else None, s))
        return out


def count(st, name):
    return sum(1 for e in st.events() if e.kind not in ("set", "setitem", "del") and str(e.name or "").rsplit(".", 1)[-1] == name)


def run(rep, repo, tier):
    rep.rule("disabled", "while the check's request is under way a new connection is refused, in this thread only", 4)
    rep.rule("restored", "on every exit of the check, connections are as allowed as before it", 10)
    rep.rule("result", "false and the pool closed exactly when the shell is disconnected, unknown, timed out or unreachable", 14)
    rep.rule("adapters", "every adapter and every pool manager of a session asks before it connects", 6)
    rep.rule("manager", "the guard nests and is undone whether or not its body raises", 4)
    for ssl in (TRUE, FALSE):
        for outer in (False, True):
            during(rep, repo, ssl, outer)
    for con, step, fault, state, want in OUTCOMES:
        outcome(rep, repo, con, step, fault, state, want)
    hooks(rep, repo)


# outcome of the request -> fault code, shell state, what the check must do
DISC, CONN, GONE, TIMED = "Disconnected", "Connected", 0x8033805B, 0x80338029
OUTCOMES = [
    ("answered: connected", 200, None, CONN, True), ("answered: no state", 200, None, "", True), ("answered: disconnected", 200, None, DISC, False),
    ("unknown shell", 500, GONE, None, False), ("operation timed out", 500, TIMED, None, False),
    ("access denied fault", 500, 5, None, "raise"), ("shell fault", 500, 0x803381A6, None, "raise"), ("invalid shell fault", 500, 2150858770, None, "raise"),
    ("fault without code", 500, 0, None, "raise"), ("not authenticated", 401, None, None, "raise"), ("no fault document", 503, "none", None, "raise"),
    ("connection refused", RE + "ConnectionError", None, None, False), ("read timeout", RE + "ReadTimeout", None, None, False),
    ("connect timeout", RE + "ConnectTimeout", None, None, False), ("connection disabled", "pkg:_pool_manager.NewConnectionDisabled", None, None, False),
    ("socket timeout", "TimeoutError", None, None, False), ("bad URL", RE + "InvalidURL", None, None, "raise"),
    ("too many redirects", RE + "TooManyRedirects", None, None, "raise"), ("programming error", "ValueError", None, None, "raise"),
    ("interrupted", "KeyboardInterrupt", None, None, "raise"), ("out of memory", "MemoryError", None, None, "raise"),
]


def alive(rep, repo, ssl=TRUE, script=(200,), fault=None, state=None, probe=False, outer=False):
    """is_alive of an open pool over a real connection -> (world, [(outcome, pool, guard observations)])"""
    w = Conn(rep, repo, script=script)
    I = w.I
    w.wrap_boundary()
    w.shallow_messages()
    for m in ("serialize", "deserialize"):
        w.cfg.boundary["serializer.Serializer." + m] = "opaque"

    def parse(I, st, fv, args, kw, ctx, node):
        if fault == "none":
            return [(st, Raised(I.mk_exc("xml.etree.ElementTree.ParseError"), ctx.module.name, getattr(node, "lineno", 0)))]
        c = w.p.cls("exceptions.WSManFaultError")
        return [(o.st, o.val) for o in I.construct(st, c, [K(fault)] + [NONE] * 5, {})]
    w.p.func("wsman.WSMan._parse_wsman_fault")
    w.cfg.boundary["wsman.WSMan._parse_wsman_fault"] = parse
    st = given()
    out = []
    for s, ads in w.adapters(st, ({},))[:1]:
        s, m = w.attr1(s, ads[0], "poolmanager")
        for s, p, c, f in w.connection(s, m)[:1]:
            objs = w.wsman(s, ssl=ssl)
            s, ref = objs[0]
            rp = ok(I.construct(s, w.p.cls("powershell.RunspacePool"), [ref], {}))
            s, pool = rp.st, rp.val
            I.setattr_(s, pool, "state", K(w.pool_states["OPENED"]))
            # the connection is already authenticated and in use
            for o in w.op(s, ref, "get"):
                if o.sig == "return":
                    s = o.st
                    break
            s.globals["nhttp"] = 0
            for k in ("init", "body"):
                s.globals[("nhttp", k)] = 0
            ents = [s]
            if outer:
                g = ok(I.construct(s, w.p.cls("_pool_manager.DisableNewConnectionsContext"), [], {}))
                ents = [x.st for x in I.call_method(g.st, g.val, "__enter__", [], {}) if x.sig == "return"]
            orig = w._exchange

            def ex(I_, st_, *a, **k):
                w._exchange = orig
                mine = [(x[0], x[1]) for x in w.connect(st_, f)]
                other = [(x[0], x[1]) for x in w.connect(w.thread(st_), f)]
                r = orig(I_, st_, *a, **k)
                w._exchange = ex
                for s2, _ in r:
                    s2.globals["guard"] = s2.globals.get("guard", ()) + ((tuple(mine), tuple(other)),)
                return r
            for e in ents:
                w._exchange = ex
                if state is not None:
                    shell_state(w, state)
                n0 = len(e.events())
                for o in I.call_method(e, pool, "is_alive", [], {"timeout": TIMEOUT}):
                    w._exchange = orig
                    out.append((o, pool, o.st.globals.get("guard", ()), [(x[0], x[1]) for x in w.connect(o.st, f)], o.st.events()[n0:]))
                w._exchange = orig
    if not out:
        raise AnalysisError("is_alive has no path")
    return w, out


def shell_state(w, state):
    """the shell the server describes"""
    w.p.func("shell.WinRS._get_shell")

    def h(I, st, fv, args, kw, ctx, node):
        out = []
        for s, v in I.call_func(st, fv, args, kw, ctx, node, force=True):
            if not isinstance(v, Raised):
                v = s.new(HDict([(K("ShellId"), T("in_", "shell"))] + ([(K("State"), K(state))] if state else [])))
            out.append((s, v))
        return out
    w.cfg.boundary["shell.WinRS._get_shell"] = h


def during(rep, repo, ssl, outer):
    w, outs = alive(rep, repo, ssl, outer=outer)
    bad, n = None, 0
    for o, pool, guard, after, ev in outs:
        for mine, other in guard:
            n += 1
            if not mine or any(not r or sock for r, sock in mine):
                bad = "a new connection can be opened during the check"
            elif not other or any(r for r, _ in other):
                bad = "other threads cannot connect during the check"
    if not n:
        bad = "the check makes no request"
    con = "%s%s" % ("https" if ssl == TRUE else "http", ", inside an outer guard" if outer else "")
    rep.ob("disabled", bad is None, "powershell.RunspacePool.is_alive", con, bad or "")
    bad = None
    for o, pool, guard, after, ev in outs:
        if not after or any(r != outer for r, sock in after):
            bad = "after the check connections are %s" % ("still refused" if not outer else "allowed inside an outer guard")
    rep.ob("restored", bad is None, "powershell.RunspacePool.is_alive", con, bad or "")
    w.done()


def outcome(rep, repo, con, step, fault, state, want):
    w, outs = alive(rep, repo, TRUE, [step], fault, state)
    bad = bad2 = None
    if want != "raise" and not any(o.sig == "return" for o, *_ in outs):
        bad = "the check never returns"
    for o, pool, guard, after, ev in outs:
        st = w.final(o, pool, "state")
        if want == "raise":
            if o.sig != "raise":
                bad = "the fault is hidden: the check returns %s" % (o.val,)
            elif isinstance(step, str) and w.exc(o) != step and str(w.exc(o)).rsplit(".", 1)[-1] != step.rsplit(".", 1)[-1]:
                bad = "another error is raised instead: %s" % w.exc(o)
            elif st != K(w.pool_states["OPENED"]):
                bad = "the pool's state is changed though its shell is not known to be gone"
        elif step == 200 and w.exc(o) == "WinRMError" and st == K(w.pool_states["OPENED"]):
            continue  # the answer belongs to another request
        elif o.sig != "return" or o.val not in (TRUE, FALSE):
            bad = "the check %s" % ("raises %s" % w.exc(o) if o.exc else "returns %s" % (o.val,))
        elif o.val != K(want):
            bad = "the check returns %s" % o.val.v
        elif st != K(w.pool_states["OPENED" if want else "CLOSED"]):
            bad = "the pool is %s" % ("marked closed" if want else "not marked closed")
        if not after or any(r for r, _ in after):
            bad2 = "connections stay refused after the check"
    rep.ob("result", bad is None, "powershell.RunspacePool.is_alive", con, bad or "")
    rep.ob("restored", bad2 is None, "powershell.RunspacePool.is_alive", con, bad2 or "")
    w.done()


def hooks(rep, repo):
    """adapters with and without a key password, for both schemes, direct and through a proxy"""
    for kw, kn in (({}, "plain"), ({"key_password": KEYPW}, "key password")):
        for sch in ("http", "https"):
            for via in ("direct", "proxy", "another proxy"):
                w = Conn(rep, repo)
                bad, n = None, 0
                for s, ads in w.adapters(State(), (kw,)):
                    s, m = manager(w, s, ads[0], via)
                    if m is None:
                        bad = "the adapter makes no proxy manager"
                        continue
                    for s, p, c, f in w.connection(s, m, sch):
                        n += 1
                        free = w.connect(s, f)
                        if not free or any(r or not sock for r, sock, _, _ in free):
                            bad = "a connection cannot be made without the guard"
                        g = ok(w.I.construct(s.copy(), w.p.cls("_pool_manager.DisableNewConnectionsContext"), [], {}))
                        for e in w.I.call_method(g.st, g.val, "__enter__", [], {}):
                            got = w.connect(e.st, f)
                            if not got or any(not r or sock for r, sock, _, _ in got):
                                bad = "a connection is made while the guard is active"
                            elif any(str(x).rsplit(".", 1)[-1] != "NewConnectionDisabled" for _, _, x, _ in got):
                                bad = "the refusal is %s" % got[0][2]
                            # connections made by the same pool under the guard and after it
                            for x in w.I.call_method(e.st, g.val, "__exit__", [NONE, NONE, NONE], {}):
                                back = w.connect(x.st, f)
                                if x.sig != "return" or w.I.decide_val(x.st, x.val) is not False:
                                    bad = "leaving the guard swallows errors"
                                if not back or any(r for r, _, _, _ in back):
                                    bad = "connections stay refused after the guard"
                if not n:
                    bad = bad or "no connection analysed"
                rep.ob("adapters", bad is None, "_pool_manager.create_request_adapter", "%s %s %s" % (kn, sch, via), bad or "")
                w.done()
    for raised in (False, True):
        for depth in (1, 2):
            nest(rep, repo, raised, depth)


PROXY_MGR, OTHER_MGR = T("proxy-manager"), T("other-proxy-manager")


def manager(w, s, ad, via, times=1):
    """the pool manager an adapter uses directly or for a proxied request"""
    if via == "direct":
        return w.attr1(s, ad, "poolmanager")
    d = s.new(HDict([]))
    if isinstance(ad, Ref):
        s.heap[ad.oid].attrs["proxy_manager"] = d
    else:
        s.globals[("tattr", ad, "proxy_manager")] = d

    def mk_mgr(I, st, recv, args, k, ctx, n):
        """the HTTP library: one manager per proxy, made on demand and kept"""
        o = st.heap[d.oid]
        for key, v in o.items:
            if args and key == args[0]:
                return [(st, v)]
        mgr = PROXY_MGR if not o.items else OTHER_MGR
        st.heap[d.oid] = HDict(list(o.items) + [(args[0] if args else NONE, mgr)])
        return [(st, mgr)]
    w.cfg.ext["super.proxy_manager_for"] = mk_mgr
    w.cfg.ext["requests.adapters.HTTPAdapter.proxy_manager_for"] = mk_mgr
    w.cfg.ext[".proxy_manager_for"] = lambda I, st, recv, args, k, ctx, n: mk_mgr(I, st, recv, args, k, ctx, n) if not isinstance(recv, Ref) else None
    v = None
    for proxy in ["http://proxy:8080"] * times + (["http://other:8080"] if via == "another proxy" else []):
        s, f = w.attr1(s, ad, "proxy_manager_for")
        outs = [(s2, v) for s2, v in w.I.call(s, f, [K(proxy)], {}, w.ctx(), None) if not isinstance(v, Raised)]
        if not outs:
            return s, None
        s, v = outs[0]
    return s, v


def nest(rep, repo, raised, depth):
    w = Conn(rep, repo)
    bad = None
    exc = [NONE] * 3 if not raised else [Ext("ValueError"), w.I.mk_exc("ValueError"), T("in_", "tb")]
    for s, ads in w.adapters(State(), ({},))[:1]:
        s, m = w.attr1(s, ads[0], "poolmanager")
        for s, p, c, f in w.connection(s, m)[:1]:
            gs = []
            for _ in range(depth):
                g = ok(w.I.construct(s, w.p.cls("_pool_manager.DisableNewConnectionsContext"), [], {}))
                s = ok(w.I.call_method(g.st, g.val, "__enter__", [], {})).st
                gs.append(g.val)
            for i, g in enumerate(reversed(gs)):
                o = w.I.call_method(s, g, "__exit__", exc, {})
                if any(x.sig != "return" for x in o):
                    bad = "leaving the guard raises"
                    break
                s = o[0].st
                left = depth - 1 - i
                got = w.connect(s, f)
                if not got or any(r != (left > 0) for r, _, _, _ in got):
                    bad = "leaving one of %d guards leaves connections %s" % (depth, "allowed" if left else "refused")
    rep.ob("manager", bad is None, "_pool_manager.DisableNewConnectionsContext", "depth %d, body %s" % (depth, "raises" if raised else "completes"), bad or "")
    w.done()
