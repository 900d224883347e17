"""C25: customising connection pools is local to each adapter, never nests, and leaves the HTTP library's own state alone."""
import ast

from .c24 import *

TECHNIQUE = "static analysis: path enumeration of adapter and session set-up over a modelled shared pool-class table, and an effect scan of every module"


def run(rep, repo, tier):
    rep.rule("shared", "the HTTP library's shared pool-class table is unchanged by any number of adapters", 3)
    rep.rule("own", "each adapter's pool classes are its own", 3)
    rep.rule("nesting", "a connection of any adapter is made by one call of each original class and asks once", 12)
    rep.rule("sessions", "building sessions changes nothing of the HTTP library", 3)
    rep.rule("effects", "no module writes to an attribute or table of an imported HTTP module or class", 12)
    N = 3 if tier == "quick" else 6
    plain, key = {}, {"key_password": KEYPW}
    for name, kws in (("plain", [plain] * N), ("key password", [key] * N), ("mixed", [plain, key] * (N // 2 + 1))):
        table(rep, repo, name, kws)
    nesting(rep, repo, N)
    sessions(rep, repo)
    effects(rep, repo)


def shared_ok(st):
    r = st.globals.get("shared-classes")
    if r is None:
        return True
    o = st.heap.get(r.oid)
    return isinstance(o, HDict) and tuple(o.items) == tuple((K(k), x) for k, x in ORIG.items()) and not o.open


def table(rep, repo, name, kws):
    w = Conn(rep, repo)
    bad = own = None
    n = 0
    for s, ads in w.adapters(State(), kws):
        n += 1
        if not shared_ok(s):
            bad = "the shared table is changed"
        seen = {}
        for i, a in enumerate(ads):
            for via in ("direct", "proxy"):
                s, m = manager(w, s, a, via) if via == "direct" else manager(w, s.copy(), a, via)
                if m is None:
                    continue
                if not shared_ok(s):
                    bad = "the shared table is changed"
                s, d = w.attr1(s, m, "pool_classes_by_scheme")
                if isinstance(d, Ref) and d == s.globals.get("shared-classes") and via == "direct":
                    own = "the adapter uses the shared table"
                if isinstance(d, Ref) and via == "direct":
                    if d in seen:
                        own = "two adapters share one table"
                    seen[d] = i
    if not n:
        bad = "nothing analysed"
    rep.ob("shared", bad is None, "_pool_manager.create_request_adapter", name, bad or "")
    rep.ob("own", own is None, "_pool_manager.create_request_adapter", name, own or "")
    w.done()


CALLS = ("HTTPConnectionPool", "HTTPSConnectionPool", "ConnectionCls", "connect")


def nesting(rep, repo, N):
    """making the k-th connection of the j-th adapter costs what the first one did"""
    for via in ("direct", "proxy"):
        for kw, kn in (({}, "plain"), ({"key_password": KEYPW}, "key password")):
            w = Conn(rep, repo)
            cost, bad, n = {}, {}, 0
            for s, ads in w.adapters(State(), [kw] * N):
                for j, a in enumerate(ads):
                    s1, m = manager(w, s.copy(), a, via, times=1 if j == 0 else 2)
                    if m is None:
                        bad["adapter"] = "no pool manager"
                        continue
                    for sch in ("http", "https"):
                        e0 = s1.events()
                        for s2, p, c, f in w.connection(s1.copy(), m, sch):
                            for r, sock, _, s3 in w.connect(s2, f):
                                n += 1
                                check(w, bad, cost, "adapter", s3, len(e0), sch)
                            if not shared_ok(s2):
                                bad["adapter"] = "the shared table is changed"
                            # a second pool of the same manager, a second connection of the same pool
                            for s4, p4, c4, f4 in w.connection(s2.copy(), m, sch):
                                for r, sock, _, s5 in w.connect(s4, f4):
                                    check(w, bad, cost, "pool", s5, len(s2.events()), sch)
                            for s4, p4, c4, f4 in w.connection(s2.copy(), m, sch, pool=p):
                                for r, sock, _, s5 in w.connect(s4, f4):
                                    check(w, bad, cost, "connection", s5, len(s2.events()), sch, skip=True)
                            # the same connection connecting again
                            for r, sock, _, s5 in w.connect(s2, f):
                                for r2, _, _, s6 in w.connect(s5, f):
                                    check(w, bad, cost, "reconnect", s6, len(s5.events()), sch, skip=True, only=("connect",))
            if not n:
                bad.setdefault("adapter", "no connection analysed")
            for g in ("adapter", "pool", "connection", "reconnect"):
                rep.ob("nesting", g not in bad, "_pool_manager._wrap", "%s %s: next %s" % (kn, via, g), bad.get(g, ""))
            w.done()


def check(w, bad, cost, g, st, n0, sch, skip=False, only=None):
    ev = st.events()[n0:]
    names = [str(e.name or "").rsplit(".", 1)[-1] for e in ev if e.kind not in ("set", "setitem", "del")]
    want = {"HTTPSConnectionPool" if sch == "https" else "HTTPConnectionPool": 0 if skip else 1,
            "HTTPConnectionPool" if sch == "https" else "HTTPSConnectionPool": 0, "ConnectionCls": 0 if only else 1, "connect": 1}
    for k, v in want.items():
        c = names.count(k)
        if c != v:
            bad[g] = "%s is called %d times for one connection" % (k, c)
    asks = sum(1 for e in ev if e.kind == "ctx")
    first = cost.setdefault((sch, "asks"), asks)
    if asks != first or asks == 0:
        bad[g] = "the connect guard runs %d times" % asks


def sessions(rep, repo):
    for con, kw in (("https", {"ssl": TRUE}), ("http", {"ssl": FALSE}), ("certificate", {"ssl": TRUE, "auth": K("certificate"), "certificate_pem": PEM,
                                                                                  "certificate_key_pem": KEYPEM, "certificate_key_password": KEYPW})):
        w = Conn(rep, repo)
        st = given()
        for t in (PEM, KEYPEM, KEYPW):
            st.facts[T("isnone", t)] = False
        bad, n = None, 0
        cur = [st]
        for _ in range(2):
            nxt = []
            for s in cur[:2]:
                for s1, ref in w.wsman(s, **kw)[:1]:
                    for o in w.op(s1, ref, "get"):
                        if w.http(o):
                            nxt.append(o.st)
                            n += 1
                            if not shared_ok(o.st):
                                bad = "the shared table is changed"
                            for e in o.events:
                                if e.kind in ("set", "setitem", "del") and isinstance(e.frecv, Ext):
                                    bad = "%s of %s is written" % (e.name, e.frecv)
            cur = nxt
        if not n:
            bad = "nothing analysed"
        rep.ob("sessions", bad is None, "wsman._TransportHTTP", con, bad or "")
        w.done()


MUTATORS = {"update", "pop", "popitem", "setdefault", "clear", "append", "extend", "insert", "remove", "add", "discard", "__setitem__", "__setattr__"}


def effects(rep, repo):
    """stores through names bound to imported modules or classes of the HTTP stack"""
    w = World(rep, repo, wire_psrp=False)
    for name, mod in sorted(w.p.modules.items()):
        ext = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    ext[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module and not n.module.startswith("pypsrp"):
                for a in n.names:
                    ext[a.asname or a.name] = n.module + "." + a.name
        http = {k for k, v in ext.items() if v.split(".")[0] in ("requests", "urllib3", "http", "socket", "ssl", "httplib")}
        bad = None
        for fn, params in scopes(mod.tree):
            alias = {}
            for n in own_nodes(fn):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    r = root(n.value)
                    if r is not None and (r in http or r in alias) and r not in params and isinstance(n.value, (ast.Attribute, ast.Name, ast.Subscript)):
                        alias[n.targets[0].id] = r
            for n in own_nodes(fn):
                t = []
                if isinstance(n, (ast.Assign, ast.Delete)):
                    t = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    t = [n.target]
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
                        t = [ast.Attribute(value=n.args[0], attr="?", ctx=ast.Store())]
                    elif isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, (ast.Attribute, ast.Subscript, ast.Name)):
                        r = root(n.func.value)
                        if (r in http or r in alias) and r not in params:
                            bad = "line %d: %s() on %s" % (n.lineno, n.func.attr, ast.unparse(n.func.value))
                for x in [y for z in t for y in (z.elts if isinstance(z, (ast.Tuple, ast.List)) else [z])]:
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        r = root(x)
                        if (r in http or r in alias) and r not in params:
                            bad = "line %d: %s is assigned" % (getattr(n, "lineno", 0), ast.unparse(x))
        rep.ob("effects", bad is None, name, "%d imported HTTP names" % len(http), bad or "")
    w.done()


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def scopes(tree):
    """every function (and the module itself) with its parameter and local names"""
    out = [(tree, set())]
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            out.append((n, ps))
    return out


def own_nodes(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))
