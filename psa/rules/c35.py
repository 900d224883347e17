"""C35: the pipeline the server is given is the pipeline that was built."""
from .c28 import *

TECHNIQUE = "static analysis: abstract interpretation of the building methods, begin_invoke and the serializer over enumerated pipelines; the create-pipeline message each path hands to the fragmenter is read back and compared with a model of the pipeline built"
NONE_, OUTPUT, ERROR, ALL3, NULL = 0, 1, 2, 3, 8
STREAMS = {"Error": None, "Warning": "2.2", "Verbose": "2.2", "Debug": "2.2", "Information": "2.3"}
SENT_FROM = {"MergeError": "2.2", "MergeWarning": "2.2", "MergeVerbose": "2.2", "MergeDebug": "2.2", "MergeInformation": "2.3"}
V = ("2.1", "2.2", "2.3")


def newer(a, b):
    return tuple(map(int, a.split("."))) >= tuple(map(int, b.split(".")))


# ------------------------------------------------------------------------------------------------------------------ reading the message
def read(H, x):
    """what a reader of the element sees: None, (tag, text), [..], {name: ..}, {"#": n} for an enumeration"""
    h = H[x.oid]
    tag = h.tag.v if isinstance(h.tag, K) else h.tag
    kids = [c for c in h.children if isinstance(c, Ref) and isinstance(H.get(c.oid), HXml)]
    if tag == "Nil":
        return None
    if tag not in ("Obj", "MS", "LST", "DCT", "En", "STK", "QUE", "IE", "Props"):
        return (tag, h.text.v if isinstance(h.text, K) else h.text)
    out, lst, dct, prim = {}, None, None, None
    for c in kids:
        t = H[c.oid].tag
        t = t.v if isinstance(t, K) else t
        if t in ("MS", "Props"):
            for m in H[c.oid].children:
                n = dict_text(H, H[m.oid], "N")
                if n in out:
                    return ("twice", n)
                out[n] = read(H, m)
        elif t in ("LST", "STK", "QUE", "IE"):
            lst = [read(H, m) for m in H[c.oid].children]
        elif t == "DCT":
            dct = []
            for e in H[c.oid].children:
                kv = {dict_text(H, H[m.oid], "N"): read(H, m) for m in H[e.oid].children}
                dct.append((kv.get("Key"), kv.get("Value")))
        elif t not in ("TN", "TNRef", "ToString"):
            prim = read(H, c)
    if prim is not None and not out and lst is None and dct is None:
        return {"#": prim[1]} if prim[0] == "I32" else prim
    if dct is not None and not out and lst is None:
        return {"dct": dct}
    if lst is not None and not out:
        return lst
    return out


def num(n):
    return {"#": str(n)}


def prim(v):
    """how a plain value is written"""
    if v is None:
        return None
    if isinstance(v, bool):
        return ("B", "true" if v else "false")
    if isinstance(v, int):
        return ("I32", str(v))
    if isinstance(v, str):
        return ("S", v)
    if isinstance(v, list):
        return [prim(x) for x in v]
    if isinstance(v, dict):
        return {"dct": [(prim(a), prim(b)) for a, b in v.items()]}
    raise AnalysisError("no model of %r" % (v,))


def same_tree(a, b):
    """(path, got, wanted) of the first difference"""
    if isinstance(b, dict) and "dct" not in b and "#" not in b:
        if not isinstance(a, dict):
            return "", a, b
        for k in b:
            if k not in a:
                return k, "nothing", b[k]
            d = same_tree(a[k], b[k])
            if d:
                return (k + ("." + d[0] if d[0] else ""),) + d[1:]
        for k in a:
            if k not in b:
                return k, a[k], "nothing"
        return None
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return "", a if not isinstance(a, list) else "%d entries" % len(a), "%d entries" % len(b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = same_tree(x, y)
            if d:
                return ("[%d]" % i + ("." + d[0] if d[0] else ""),) + d[1:]
        return None
    return None if a == b else ("", a, b)


# ------------------------------------------------------------------------------------------------------------------ the model of a builder
class Model:
    def __init__(self, version):
        self.v = version
        self.cmds = []

    def new(self, text, script, local):
        self.cmds.append({"Cmd": text, "IsScript": script, "UseLocalScope": local, "Args": [], "MergeMyResult": 0, "MergeToResult": 0, "MergePreviousResults": 0,
                          "MergeError": 0, "MergeWarning": 0, "MergeVerbose": 0, "MergeDebug": 0, "MergeInformation": 0, "end": False})

    def do(self, m, *a, **kw):
        c = self.cmds[-1] if self.cmds else None
        if m in ("add_cmdlet", "add_script"):
            self.new(a[0], m == "add_script", kw.get("use_local_scope", a[1] if len(a) > 1 else None))
        elif m == "add_command":
            self.new(a[0]["cmd"], a[0].get("is_script"), a[0].get("use_local_scope"))
        elif m == "add_argument":
            c["Args"].append((None, a[0]))
        elif m == "add_parameter":
            c["Args"].append((a[0], a[1] if len(a) > 1 else None))
        elif m == "add_parameters":
            c["Args"].extend(a[0].items())
        elif m == "add_statement":
            c["end"] = True
        elif m == "clear_commands":
            self.cmds = []
        elif m == "merge_previous":
            c["MergePreviousResults"] = ALL3 if kw.get("enabled", a[0] if a else False) else 0
        elif m == "merge_reset":
            self.do("merge_previous", False)
            self.do("merge_all", "none")
        elif m == "merge_all":
            for s, low in STREAMS.items():
                if low is None or newer(self.v, low):
                    self.do("merge_" + s.lower(), *a)
        elif m.startswith("merge_"):
            to = {"none": NONE_, "output": OUTPUT, "null": NULL}[a[0] if a else "none"]
            s = m[6:].capitalize()
            c["Merge" + s] = to
            if s == "Error":
                c["MergeMyResult"] = ERROR if to else 0
                c["MergeToResult"] = to
        else:
            raise AnalysisError("no model of " + m)

    def cmd(self, c):
        d = {}
        for k, x in c.items():
            if k in SENT_FROM and not newer(self.v, SENT_FROM[k]) or k == "end":
                continue
            if k == "Args":
                d[k] = [{"N": prim(n), "V": prim(x)} for n, x in x]
            elif k.startswith("Merge"):
                d[k] = num(x)
            else:
                d[k] = prim(x)
        return d

    def statements(self):
        out, cur = [], []
        for i, c in enumerate(self.cmds):
            cur.append(self.cmd(c))
            if c["end"] or i == len(self.cmds) - 1:
                out.append(cur)
                cur = []
        return out

    def tree(self, no_input=True, apartment=2, streams=15, history=False, host=None, nested=False, text=None, redirect=False):
        st = self.statements()
        shell = {"IsNested": prim(nested), "Cmds": st[0], "History": prim(text), "RedirectShellErrorOutputPipe": prim(redirect),
                 "ExtraCmds": [{"Cmds": s} for s in st] if len(st) > 1 else None}
        return {"NoInput": prim(no_input), "ApartmentState": num(apartment), "RemoteStreamOptions": num(streams), "AddToHistory": prim(history),
                "HostInfo": host or NOHOST, "PowerShell": shell, "IsNested": prim(nested)}


NOHOST = {"_isHostNull": prim(True), "_isHostUINull": prim(True), "_isHostRawUINull": prim(True), "_useRunspaceHost": prim(True)}


def drop_null(t):
    """an absent optional member and a null one are the same to the server"""
    if isinstance(t, dict) and "dct" not in t:
        return {k: drop_null(v) for k, v in t.items() if v is not None}
    if isinstance(t, list):
        return [drop_null(x) for x in t]
    return t


# ------------------------------------------------------------------------------------------------------------------ running
def capture(w, kinds):
    """fragment()/fragment_multiple() serialise the messages given at that moment; the trees are kept in the state"""
    def h(I, st, fv, args, kw, ctx, node):
        out = []
        for s0, vals in I.bind_args(st, fv.func, fv.self_, args, kw, ctx, node):
            if isinstance(vals, Raised):
                out.append((s0, vals))
                continue
            ps, _ = fv.func.params()
            v = vals[ps[1]]
            msgs = s0.heap[v.oid].items if isinstance(v, Ref) and isinstance(s0.heap.get(v.oid), HList) else (v,)
            states = [(s0, ())]
            for m in msgs:
                mh = s0.heap.get(m.oid) if isinstance(m, Ref) else None
                cn = mh.cls.name if isinstance(mh, HInst) else None
                nxt = []
                for s, got in states:
                    if cn not in kinds:
                        nxt.append((s, got + ((cn, None),)))
                        continue
                    s1, ser = new_serializer(w, s)
                    for s2, x, why in there(w, s1, ser, m):
                        nxt.append((s2, got + ((cn, why if x is None else read(s2.heap, x)),)))
                states = nxt
            for s, got in states:
                s.globals["made"] = s.globals.get("made", ()) + got
                fr = s.new(HList([T("frag", s.uid(), 0, 1)]))
                out.append((s, fr))
        return out
    for m in ("fragment", "fragment_multiple"):
        w.p.func("powershell.Fragmenter." + m)
        w.cfg.boundary["powershell.Fragmenter." + m] = h
    for m in ("serialize", "deserialize"):
        w.cfg.boundary.pop("serializer.Serializer." + m, None)


def new_serializer(w, st):
    for o in w.I.construct(st, w.p.cls("serializer.Serializer")):
        if o.sig == "return":
            return o.st, o.val
    raise AnalysisError("a Serializer cannot be constructed")


def value_of(w, st, v):
    """(state, value) of a model value"""
    if isinstance(v, list):
        items = []
        for x in v:
            st, y = value_of(w, st, x)
            items.append(y)
        return st, st.new(HList(items))
    if isinstance(v, dict):
        items = []
        for a, b in v.items():
            st, y = value_of(w, st, b)
            items.append((K(a), y))
        return st, st.new(HDict(items))
    return st, K(v) if v is not None else NONE


def pool_of(w, version, host=NONE, apartment=2):
    st = State()
    pool = w.pool(st, K(w.pool_states["OPENED"]), protocol_version=K(version), host=host, apartment_state=K(apartment))
    return st, pool


def build(w, st, ps, model, steps):
    """states after calling the builder methods one after another"""
    states = [st]
    for m, a, kw in steps:
        model.do(m, *a, **kw)
        nxt = []
        for s in states:
            if m == "add_command":
                d = dict(a[0])
                s, c = make(w.I, w.p, s.copy(), "complex_objects.Command", protocol_version=K(model.v), **{k: K(v) if v is not None else NONE for k, v in d.items()})
                args = [c]
                kws = {}
            else:
                s = s.copy()
                args, kws = [], {}
                for x in a:
                    s, v = value_of(w, s, x)
                    args.append(v)
                for k, x in kw.items():
                    s, v = value_of(w, s, x)
                    kws[k] = v
            for o in w.I.call_method(s, ps, m, args, kws):
                if o.sig != "return":
                    return None, "%s fails: %s" % (m, w.exc(o))
                if o.val != ps:
                    return None, "%s does not give the pipeline back" % m
                nxt.append(o.st)
        states = nxt
    return states, None


def S(m, *a, **kw):
    return (m, a, kw)


ONE = [S("add_cmdlet", "Get-Item")]
BUILDS = {
    "one cmdlet": ONE,
    "one script": [S("add_script", "$a = 1 # x")],
    "a script in a local scope": [S("add_script", "x", True)],
    "a script outside a local scope": [S("add_script", "x", use_local_scope=False)],
    "a cmdlet in a local scope": [S("add_cmdlet", "x", True)],
    "a cmdlet outside a local scope": [S("add_cmdlet", "x", use_local_scope=False)],
    "a command object": [S("add_command", {"cmd": "x", "is_script": False, "use_local_scope": True})],
    "a script object between": [S("add_cmdlet", "a"), S("add_command", {"cmd": "x", "is_script": True}), S("add_cmdlet", "b")],
    "two commands piped": [S("add_cmdlet", "a"), S("add_cmdlet", "b")],
    "three commands piped": [S("add_cmdlet", "a"), S("add_script", "b"), S("add_cmdlet", "c")],
    "two statements": [S("add_cmdlet", "a"), S("add_statement"), S("add_cmdlet", "b")],
    "three statements": [S("add_cmdlet", "a"), S("add_statement"), S("add_script", "b"), S("add_statement"), S("add_cmdlet", "c"), S("add_cmdlet", "d")],
    "pipes and statements": [S("add_cmdlet", "a"), S("add_cmdlet", "b"), S("add_statement"), S("add_cmdlet", "c")],
    "a closed last statement": [S("add_cmdlet", "a"), S("add_cmdlet", "b"), S("add_statement")],
    "a statement of equal commands": [S("add_cmdlet", "a"), S("add_statement"), S("add_cmdlet", "a"), S("add_statement"), S("add_cmdlet", "a")],
    "arguments": [S("add_cmdlet", "a"), S("add_argument", "x"), S("add_argument", 1), S("add_argument", True), S("add_argument", None), S("add_argument", "")],
    "falsy arguments": [S("add_cmdlet", "a"), S("add_argument", 0), S("add_argument", False), S("add_argument", ""), S("add_parameter", "p", 0), S("add_parameter", "q", False), S("add_parameter", "r", "")],
    "container arguments": [S("add_cmdlet", "a"), S("add_argument", ["x", 1]), S("add_parameter", "p", {"k": "v"}), S("add_argument", [])],
    "parameters": [S("add_cmdlet", "a"), S("add_parameter", "p", "x"), S("add_parameter", "switch"), S("add_parameter", "q", None), S("add_parameter", "p", "again")],
    "a set of parameters": [S("add_cmdlet", "a"), S("add_parameters", {"zz": 1, "aa": None, "mm": "x"}), S("add_argument", "y")],
    "an empty set of parameters": [S("add_cmdlet", "a"), S("add_parameters", {})],
    "arguments of each of two commands": [S("add_cmdlet", "a"), S("add_argument", "1"), S("add_cmdlet", "b"), S("add_argument", "2"), S("add_parameter", "p", 3)],
    "arguments of each of two statements": [S("add_cmdlet", "a"), S("add_argument", "1"), S("add_statement"), S("add_cmdlet", "a"), S("add_parameters", {"p": 3})],
    "arguments of a command object": [S("add_command", {"cmd": "x", "is_script": False}), S("add_argument", "1"), S("add_command", {"cmd": "y", "is_script": False}), S("add_argument", "2")],
    "cleared and built anew": [S("add_cmdlet", "a"), S("add_argument", "1"), S("add_statement"), S("clear_commands"), S("add_script", "b")],
}
MERGES = {
    "error to output": [S("add_cmdlet", "a"), S("merge_error", "output")],
    "error to output and back": [S("add_cmdlet", "a"), S("merge_error", "output"), S("merge_error", "none")],
    "error, default target": [S("add_cmdlet", "a"), S("merge_error", "output"), S("merge_error")],
    "all to output": [S("add_cmdlet", "a"), S("merge_all", "output"), S("add_cmdlet", "b")],
    "all of the second only": [S("add_cmdlet", "a"), S("add_cmdlet", "b"), S("merge_all", "output")],
    "previous": [S("add_cmdlet", "a"), S("add_cmdlet", "b"), S("merge_previous", True)],
    "previous and back": [S("add_cmdlet", "a"), S("merge_previous", enabled=True), S("merge_previous")],
    "reset": [S("add_cmdlet", "a"), S("merge_all", "output"), S("merge_previous", True), S("merge_reset")],
    "reset of the second only": [S("add_cmdlet", "a"), S("merge_all", "output"), S("merge_previous", True), S("add_cmdlet", "b"), S("merge_error", "output"), S("merge_reset")],
}


def run(rep, repo, tier):
    rep.rule("commands", "the commands sent are the commands added: text, kind, scope, statement, arguments in order", 20)
    rep.rule("merges", "each command is sent with the stream merges set on it and no others", 15)
    rep.rule("options", "history, nesting, apartment state, stream options, error redirection and host reach the server as given", 15)
    rep.rule("again", "a pipeline invoked again, or extended in between, is sent as built so far", 6)
    for con, steps in BUILDS.items():
        for v in (V if tier != "quick" or con in ("two statements", "arguments") else ("2.3",)):
            judge(rep, repo, "commands", "%s at %s" % (con, v), v, steps)
    for con, steps in MERGES.items():
        for v in V:
            judge(rep, repo, "merges", "%s at %s" % (con, v), v, steps)
    for s in ("warning", "verbose", "debug", "information"):
        for to in ("output", "null", "none"):
            v = "2.3"
            judge(rep, repo, "merges", "%s to %s" % (s, to), v, [S("add_cmdlet", "a"), S("merge_" + s, "output"), S("merge_" + s, to), S("add_cmdlet", "b")])
    options(rep, repo)
    again(rep, repo)


def invoke(w, st, ps, kw, how="begin_invoke"):
    st.globals["made"] = ()
    return w.I.call_method(st, ps, how, [], {k: x for k, x in kw.items()})


def expect(w, o, tree):
    if o.sig == "raise":
        if any(e.exc is not None for e in w.wires(o)):
            return None
        return "fails: %s" % w.exc(o)
    made = [t for c, t in o.st.globals.get("made", ()) if c == "CreatePipeline"]
    if len(made) != 1:
        return "%d pipelines are created" % len(made)
    if isinstance(made[0], str):
        return made[0]
    d = same_tree(drop_null(made[0]), drop_null(tree))
    return "%s is sent as %s instead of %s" % (d[0], str(d[1])[:80], str(d[2])[:80]) if d else None


def new_ps(w, st, pool):
    for o in w.I.construct(st, w.p.cls("powershell.PowerShell"), [pool], {}):
        if o.sig == "return":
            return o.st, o.val
    raise AnalysisError("a PowerShell cannot be constructed")


def world(rep, repo, v, **kw):
    w = World(rep, repo)
    capture(w, ("CreatePipeline",))
    st, pool = pool_of(w, v, **kw)
    st, ps = new_ps(w, st, pool)
    return w, st, pool, ps


def judge(rep, repo, rule, con, v, steps):
    w, st, pool, ps = world(rep, repo, v)
    model = Model(v)
    states, bad = build(w, st, ps, model, steps)
    n = 0
    for s in states or ():
        for o in invoke(w, s, ps, {}):
            n += o.sig == "return"
            bad = bad or expect(w, o, model.tree())
    w.done()
    rep.ob(rule, bad is None and n > 0, "PowerShell.begin_invoke", con, bad or ("" if n else "no path completes"))


def options(rep, repo):
    cases = []
    for how in ("begin_invoke", "invoke"):
        cases += [(how, "nothing given", {}, {}, 2), (how, "nothing given, pool in STA", {}, {"apartment": 0}, 0), (how, "nothing given, pool in MTA", {}, {"apartment": 1}, 1),
                  (how, "added to the history", {"add_to_history": TRUE}, {"history": True}, 2), (how, "not added to the history", {"add_to_history": FALSE}, {}, 2),
                  (how, "errors redirected", {"redirect_shell_error_to_out": TRUE}, {"redirect": True}, 2),
                  (how, "no stream options", {"remote_stream_options": K(0)}, {"streams": 0}, 2),
                  (how, "stream options for warnings", {"remote_stream_options": K(2)}, {"streams": 2}, 2),
                  (how, "all together", {"add_to_history": TRUE, "redirect_shell_error_to_out": TRUE, "remote_stream_options": K(4), "apartment_state": K(1)},
                   {"history": True, "redirect": True, "streams": 4, "apartment": 1}, 2)]
        for a in (0, 1, 2):
            for p in (0, 1, 2):
                cases.append((how, "apartment state %d for a pool in %d" % (a, p), {"apartment_state": K(a)}, {"apartment": a}, p))
    for how, con, kw, want, apart in cases:
        w, st, pool, ps = world(rep, repo, "2.3", apartment=apart)
        w.model_replies([[("PipelineState", {"state": K(w.ps_states["COMPLETED"]), "error_record": NONE})]])
        m = Model("2.3")
        states, bad = build(w, st, ps, m, ONE)
        n = 0
        for s in states or ():
            for o in invoke(w, s, ps, kw, how):
                n += o.sig == "return"
                bad = bad or expect(w, o, m.tree(**want))
        w.done()
        rep.ob("options", bad is None and n > 0, "PowerShell." + how, con, bad or ("" if n else "no path completes"))
    for con, text in (("a history text", "what was typed"), ("an empty history text", "")):
        w, st, pool, ps = world(rep, repo, "2.3")
        w.I.setattr_(st, ps, "history_string", K(text))
        m = Model("2.3")
        states, bad = build(w, st, ps, m, ONE)
        n = 0
        for s in states or ():
            for o in invoke(w, s, ps, {}):
                n += o.sig == "return"
                bad = bad or expect(w, o, m.tree(text=text))
        w.done()
        rep.ob("options", bad is None and n > 0, "PowerShell.begin_invoke", con, bad or ("" if n else "no path completes"))
    # nested
    w, st, pool, ps = world(rep, repo, "2.3")
    w.I.setattr_(st, ps, "state", K(w.ps_states["RUNNING"]))
    m = Model("2.3")
    bad, n = None, 0
    for o in w.I.call_method(st, ps, "create_nested_power_shell", [], {}):
        if o.sig != "return":
            bad = "fails: %s" % w.exc(o)
            continue
        states, bad2 = build(w, o.st, o.val, m, ONE)
        m2, m = m, Model("2.3")
        bad = bad or bad2
        for s in states or ():
            for p in invoke(w, s, o.val, {}):
                n += p.sig == "return"
                bad = bad or expect(w, p, m2.tree(nested=True))
    w.done()
    rep.ob("options", bad is None and n > 0, "PowerShell.create_nested_power_shell", "a nested pipeline", bad or ("" if n else "no path completes"))
    for con, part in HOSTS.items():
        w = World(rep, repo)
        capture(w, ("CreatePipeline",))
        st, hv, tree = local_host(w, State(), part)
        pool = w.pool(st, K(w.pool_states["OPENED"]), protocol_version=K("2.3"), host=hv, apartment_state=K(2))
        st, ps = new_ps(w, st, pool)
        m = Model("2.3")
        states, bad = build(w, st, ps, m, ONE)
        n = 0
        for s in states or ():
            for o in invoke(w, s, ps, {}):
                n += o.sig == "return"
                bad = bad or expect(w, o, m.tree(host=tree))
        w.done()
        rep.ob("options", bad is None and n > 0, "complex_objects.HostInfo", con, bad or ("" if n else "no path completes"))


HOSTS = {"no host": "none", "a host without user interface": "host", "a host without raw user interface": "ui", "a full host": "raw"}


def local_host(w, st, part):
    """(state, host, what the server is told about it)"""
    if part == "none":
        return st, NONE, NOHOST
    tree = {"_isHostNull": prim(False), "_isHostUINull": prim(part == "host"), "_isHostRawUINull": prim(part != "raw"), "_useRunspaceHost": prim(False)}
    ui = raw = NONE
    if part == "raw":
        vals = {}
        color = lambda n: {"T": prim("System.ConsoleColor"), "V": prim(n)}
        pair = lambda t, a, x, b, y: {"T": prim("System.Management.Automation.Host." + t), "V": {a: prim(x), b: prim(y)}}
        st, vals["foreground_color"] = make(w.I, w.p, st, "complex_objects.Color", value=K(3))
        st, vals["background_color"] = make(w.I, w.p, st, "complex_objects.Color", value=K(0))
        n = 10
        for a in ("cursor_position", "window_position"):
            st, vals[a] = make(w.I, w.p, st, "complex_objects.Coordinates", x=K(n), y=K(n + 1))
            n += 2
        for a in ("buffer_size", "max_physical_window_size", "max_window_size", "window_size"):
            st, vals[a] = make(w.I, w.p, st, "complex_objects.Size", width=K(n), height=K(n + 1))
            n += 2
        st, raw = make(w.I, w.p, st, "host.PSHostRawUserInterface", window_title=K("title"), cursor_size=K(7), **vals)
        size = lambda k: pair("Size", "width", k, "height", k + 1)
        want = [color(3), color(0), pair("Coordinates", "x", 10, "y", 11), pair("Coordinates", "x", 12, "y", 13), {"T": prim("System.Int32"), "V": prim(7)},
                size(14), size(20), size(18), size(16), {"T": prim("System.String"), "V": prim("title")}]
        tree["_hostDefaultData"] = {"data": {"dct": [(prim(i), x) for i, x in enumerate(want)]}}
    if part != "host":
        st, ui = make(w.I, w.p, st, "host.PSHostUserInterface", raw_ui=raw)
    h = w.I.abs_inst(st, "host.PSHost", "host", ui=ui)
    st.heap[h.oid] = st.heap[h.oid].with_(sym=False)
    return st, h, tree


AGAIN = {
    "unchanged": (ONE, []),
    "unchanged statements": ([S("add_cmdlet", "a"), S("add_statement"), S("add_cmdlet", "b"), S("add_argument", 1)], []),
    "a command piped on": (ONE, [S("add_cmdlet", "b")]),
    "two commands piped on": ([S("add_cmdlet", "a"), S("add_cmdlet", "b")], [S("add_cmdlet", "c"), S("add_argument", "x"), S("add_script", "d")]),
    "a statement added": (ONE, [S("add_statement"), S("add_cmdlet", "b")]),
    "an argument added": (ONE, [S("add_argument", "x")]),
    "a merge added": ([S("add_cmdlet", "a"), S("add_cmdlet", "b")], [S("merge_all", "output")]),
    "cleared and built anew": ([S("add_cmdlet", "a"), S("add_statement"), S("add_cmdlet", "b")], [S("clear_commands"), S("add_script", "c"), S("add_cmdlet", "d")]),
}


def again(rep, repo):
    for con, (first, then) in AGAIN.items():
        w, st, pool, ps = world(rep, repo, "2.3")
        m = Model("2.3")
        states, bad = build(w, st, ps, m, first)
        n = 0
        ends = []
        for s in states or ():
            for o in invoke(w, s, ps, {}):
                if o.sig == "return":
                    bad = bad or expect(w, o, m.tree())
                    ends.append(o.st)
        for i, s in enumerate(ends):
            w.I.setattr_(s, ps, "state", K(w.ps_states["COMPLETED"]))
            m2 = Model("2.3")
            m2.cmds = [dict(c, Args=list(c["Args"])) for c in m.cmds]
            states, bad2 = build(w, s, ps, m2, then)
            bad = bad or bad2
            for s2 in states or ():
                for o in invoke(w, s2, ps, {}):
                    n += o.sig == "return"
                    bad = bad or expect(w, o, m2.tree())
        w.done()
        rep.ob("again", bad is None and n > 0, "PowerShell.begin_invoke", "invoked again: " + con, bad or ("" if n else "no path completes"))
