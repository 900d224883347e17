"""C18: the client helpers release the remote shell or pool and report results faithfully."""
from .client import *
from .c19 import B, STATES, ShellWorld, TIMEOUT, arg, attrib, b64d, bare, body, commanded, created, empty, packed, received, same, text_fact, texts, wire
from .c17 import DATA, HASH, PATH, Files

TECHNIQUE = "static analysis: path enumeration of each helper with a failure injected at every step, over known replies and generic outputs"
EXE, ENC = T("in_", "command"), T("in_", "encoding")
SCRIPT = T("in_", "script")


def run(rep, repo, tier):
    rep.rule("shell", "execute_cmd deletes the shell it created exactly once on every exit", 8)
    rep.rule("result", "stdout, stderr and return code are the server's, decoded as asked", 10)
    rep.rule("pool", "execute_ps, copy and fetch close the pool they opened exactly once on every exit", 12)
    rep.rule("script", "execute_ps runs the script given, after setting the environment, and returns its output, streams and success flag", 8)
    rep.rule("failed", "a failed remote script in copy or fetch raises an error of the library that names what went wrong", 4)
    rep.rule("streams", "every record the server sends is in its stream, in order, and the success flag follows the pipeline's state", 12)
    command(rep, repo, tier)
    scripts(rep, repo)
    pools(rep, repo)
    failed(rep, repo)
    streams(rep, repo, tier)


# ---------------------------------------------------------------- execute_cmd
class CmdWorld(ShellWorld):
    def execute(self, args, kw=None, env=None):
        st = State()
        for t in (EXE, ENC, T("in_", "command-id")) + tuple(B(i) for i in range(6)):
            text_fact(st, t)
        wsm = self.I.abs_inst(st, "wsman.WSMan", "wsman")
        c = self.I.abs_inst(st, "client.Client", "client")
        self.I.setattr_(st, c, "wsman", wsm)
        kw = dict(kw or {})
        if env is not None:
            kw["environment"] = st.new(HDict(env))
        outs = self.I.call_method(st, c, "execute_cmd", args, kw)
        self.done()
        return [o for o in outs if "cut" not in o.st.marks]


def command(rep, repo, tier):
    ok = lambda: [received("Running", None, [("stdout", B(0))]), received("Done", "0", [("stderr", B(1))])]
    cases = [("nothing fails", {}), ("create fails", {"create": ["psa.OtherError"]}), ("create faults", {"create": [K(5)]}), ("command fails", {"command": ["psa.OtherError"]}),
             ("the first receive fails", {"receive": ["psa.OtherError"]}), ("the first receive faults", {"receive": [K(5)]}),
             ("the second receive fails", {"receive": ok()[:1] + ["psa.OtherError"]}), ("signal fails", {"signal": ["psa.OtherError"]}), ("command faults", {"command": [K(5)]}), ("signal faults", {"signal": [K(5)]}), ("delete faults", {"delete": [K(5)]}),
             ("delete fails", {"delete": ["psa.OtherError"]}), ("a receive times out", {"receive": [K(TIMEOUT)] + ok()}),
             ("signal and delete fail", {"signal": ["psa.OtherError"], "delete": ["psa.OtherError"]})]
    for con, kw in cases:
        w = CmdWorld(rep, repo, **{**{"create": [created()], "command": [commanded()], "receive": ok(), "signal": [empty], "delete": [empty]}, **kw})
        w.cfg.while_max = 6
        outs = w.execute([EXE])
        bad = None if outs else "no path"
        for o in outs:
            es = wire(w, o.st)
            names = [e.name.rsplit(".", 1)[-1] for e in es]
            failing = [e for e in es if e.exc is not None and not con.endswith("times out")]
            made = [e for e in es if e.name.endswith(".create") and e.exc is None]
            if names.count("delete") != len(made):
                bad = "%d shell created, %d deleted: %s" % (len(made), names.count("delete"), names)
            elif made and names[-1] != "delete":
                bad = "the shell is used after it is deleted: %s" % names
            elif (o.sig == "raise") != bool(failing):
                bad = "%s: %s" % ("the failure is swallowed" if failing else "fails", show(o, w))
            elif failing and o.exc.v not in [e.exc for e in failing]:
                bad = "the error is replaced by %s" % w.exc(o)
            elif made and names[1:2] != ["command"]:
                bad = "sends %s" % names
        rep.ob("shell", bad is None, "Client.execute_cmd", con, bad or "")
    # results
    parts = {"": [], "o": [("stdout", B(0))], "e": [("stderr", B(1))], "oe": [("stdout", B(0)), ("stderr", B(1))], "oo": [("stdout", B(0)), ("stdout", B(1))]}
    for con, more in parts.items():
        for rc in (None, "0", "5", "-1073741510") if con in ("oe", "") or tier != "quick" else ("5",):
            for enc in (None, ENC):
                w = CmdWorld(rep, repo, create=[created()], command=[commanded()], receive=[received("Running", None, more), received("Done", rc, [("stdout", B(2))])])
                w.cfg.while_max = 6
                outs = w.execute([EXE] + ([enc] if enc is not None else []))
                bad = None if outs else "no path"
                for o in outs:
                    r = w.I.seq_items(o.st, o.val) if o.sig == "return" else None
                    if r is None or len(r) != 3:
                        bad = "gives %s" % show(o, w)
                        continue
                    want = [[t for n, t in more if n == s] + ([B(2)] if s == "stdout" else []) for s in ("stdout", "stderr")]
                    for v, wt, s in zip(r, want, ("stdout", "stderr")):
                        x = decode_of(v, enc or K("437"))
                        got = b64d(x) if x is not None else None
                        if got != wt:
                            bad = "%s is %s" % (s, str(v)[:120])
                    if r[2] != K(int(rc) if rc is not None else -1):
                        bad = "the return code is %s, the server's %s" % (r[2], rc)
                rep.ob("result", bad is None, "Client.execute_cmd", "output %s, exit code %s, %s" % (con or "none", rc, "an encoding" if enc is not None else "default encoding"), bad or "")
    # what is run
    for con, env in (("no environment", None), ("an environment", [(K("b"), T("in_", "v1")), (K("A"), K("2"))]),
                     ("an environment with empty and numeric texts", [(K("E"), K("")), (K("Z"), K("0")), (K("path"), K(" a;b "))])):
        w = CmdWorld(rep, repo, create=[created()], command=[commanded()], receive=ok())
        w.cfg.while_max = 6
        outs = w.execute([EXE], env=env)
        bad = None if outs else "no path"
        for o in outs:
            es = {e.name.rsplit(".", 1)[-1]: e for e in wire(w, o.st)}
            if "command" not in es or texts(body(es["command"]), "Command") != [EXE] or texts(body(es["command"]), "Arguments"):
                bad = "the command run is %s" % (body(es["command"]) if "command" in es else None,)
            x = body(es["create"])
            got = [(attrib(c).get("Name"), c.args[2]) for y in x.args[3] if y.args[0].v.endswith("}Environment") for c in y.args[3]]
            if len(got) != len(env or []) or not all(same(a, c) and same(b, d) for (a, b), (c, d) in zip(got, env or [])):
                bad = "the environment set is %s" % (got,)
        rep.ob("result", bad is None, "Client.execute_cmd", "runs the command, " + con, bad or "")


def decode_of(v, enc):
    """the bytes a text was decoded from by this encoding"""
    if v == K(""):
        return K(b"")
    if isinstance(v, T) and v.op == "meth" and v.args[0] == "decode" and (v.args[2:3] == (enc,) or any(isinstance(x, T) and x.op == "kw" and x.args == ("encoding", enc) for x in v.args)):
        return v.args[1]
    if isinstance(v, T) and v.op in ("fn", "str") and enc in v.args:
        x = [y for y in v.args if isinstance(y, T) and y != enc]
        return x[0] if x else None
    return None


# ---------------------------------------------------------------- execute_ps
class PsWorld(Files):
    def __init__(self, rep, repo, result, fault=None, chunks=0):
        super().__init__(rep, repo, chunks, result, None)
        if fault:
            self.cfg.raises = lambda ev, st: ["psa.OtherError", (self.lib,)] if ev.name == fault else ()

    def lib(self, I, s):
        return [o for o in I.construct(s, self.p.cls("exceptions.WinRMError"), [K("x")], {}) if o.sig == "return"][0].val


def judge_pool(o):
    evs = o.events
    made = [i for i, e in enumerate(evs) if e.name == "powershell.RunspacePool.open" and e.exc is None]
    closes = [i for i, e in enumerate(evs) if e.name == "powershell.RunspacePool.close"]
    runs = [i for i, e in enumerate(evs) if e.name == "powershell.PowerShell.invoke"]
    if len(closes) != len(made):
        return "%d pool opened, %d closed" % (len(made), len(closes))
    if made and (closes[0] < made[0] or any(r > closes[0] for r in runs)):
        return "the pool is used after it is closed"
    if any(not made or r < made[0] for r in runs):
        return "the pool is used before it is open"
    return None


def scripts(rep, repo):
    O = [T("in_", "line%d" % i) for i in range(2)]
    for n in (0, 1, 2):
        for flag in (False, True):
            w = PsWorld(rep, repo, (O[:n], flag))
            outs = w.run("execute_ps", [SCRIPT])
            bad = None if outs else "no path"
            for o in outs:
                bad = bad or judge_ps(w, o, O[:n], flag, ())
            rep.ob("script", bad is None, "Client.execute_ps", "%d lines, %s" % (n, "errors" if flag else "no errors"), bad or "")
    for lines in ([K("")], [K("a"), K("")], [K(""), K("a")], [K(" a "), K("\t")]):
        w = PsWorld(rep, repo, (list(lines), False))
        outs = w.run("execute_ps", [SCRIPT])
        bad = None if outs else "no path"
        text = "\n".join(x.v for x in lines)
        for o in outs:
            r = w.I.seq_items(o.st, o.val) if o.sig == "return" else None
            if not r or w.I.freeze(o.st, r[0]) != K(text):
                bad = "gives %s" % (w.exc(o) or str(r and r[0])[:80])
        rep.ob("script", bad is None, "Client.execute_ps", "the lines %r" % (text,), bad or "")
    for env in (((K("B"), T("in_", "v1")),), ((K("B"), T("in_", "v1")), (K("A"), K("x"))), ((K("A"), K("x")), (K("E"), K("")), (K("B"), K("0"))),
                ((K("Path"), K(" a;b ")), (K("path2"), K("$x 'y' \"z\"")))):
        w = PsWorld(rep, repo, (O[:1], False))
        st = State()
        c = w.client(st)
        w.facts(st)
        text_fact(st, T("in_", "v1"))
        outs = w.I.call_method(st, c, "execute_ps", [SCRIPT], {"environment": st.new(HDict(env))})
        w.done()
        bad = None if outs else "no path"
        for o in outs:
            bad = bad or judge_ps(w, o, O[:1], False, env)
        rep.ob("script", bad is None, "Client.execute_ps", "%d variables: %s" % (len(env), ", ".join(str(v.v) if isinstance(v, K) else "any" for _, v in env)), bad or "")


def judge_ps(w, o, lines, flag, env):
    if o.sig != "return":
        return "fails: %s" % w.exc(o)
    inv = [e for e in o.events if e.name == "powershell.PowerShell.invoke"]
    if len(inv) != 1:
        return "the script is run %d times" % len(inv)
    r = w.I.seq_items(o.st, o.val)
    if r is None or len(r) != 3:
        return "gives %s" % str(o.val)[:80]
    text = w.I.freeze(o.st, r[0])
    want = K("") if not lines else lines[0] if len(lines) == 1 else None
    flat = parts_of(text)
    if flat != joined(lines):
        return "the output is %s" % str(text)[:100]
    ps = inv[0].recv
    if w.I.freeze(o.st, r[1]) != w.I.freeze(o.st, w.I.getattr_(o.st, ps, "streams")):
        return "the streams are %s" % str(r[1])[:80]
    if r[2] != K(flag):
        return "the success flag is %s" % (r[2],)
    return judge_commands(inv[0].tok[1], env)


def joined(lines):
    out = []
    for i, x in enumerate(lines):
        if i:
            out.append(K("\n"))
        out.append(x)
    return out


def parts_of(v):
    if v == K(""):
        return []
    if isinstance(v, T) and v.op in ("cat", "concat"):
        return [y for x in v.args for y in parts_of(x)]
    if isinstance(v, T) and v.op == "meth" and v.args[0] == "join":
        its = v.args[2]
        its = its.args if isinstance(its, T) and its.op in ("list", "tuple") else None
        if its is None:
            return [v]
        out = []
        for i, x in enumerate(its):
            if i:
                out += parts_of(v.args[1])
            out += parts_of(x)
        return out
    return [bare(v)]


def judge_commands(cmds, env):
    """statements: New-Item env:..., then the script, then Out-String"""
    stmts, cur = [], []
    for c in cmds:
        cur.append(c)
        if c[3] == TRUE:
            stmts.append(cur)
            cur = []
    if cur:
        stmts.append(cur)
    if len(stmts) != len(env) + 1:
        return "%d statements are run" % len(stmts)
    for (k, v), s in zip(env, stmts):
        p = dict((a, b) for a, b in s[0][2])
        if s[0][0] != K("New-Item") or p.get(K("Path")) != K("env:") or p.get(K("Name")) != k or p.get(K("Value")) != v or p.get(K("Force")) != TRUE:
            return "variable %s is set by %s" % (k, s[0][:3])
        if s[-1][0] != K("Out-Null"):
            return "the output of setting a variable is in the result"
    s = stmts[-1]
    if len(s) != 2 or s[0][0] != K("Invoke-Expression") or list(s[0][2]) not in ([(K("Command"), SCRIPT)], [(NONE, SCRIPT)]):
        return "the script is run by %s" % str(s)[:120]
    if s[1][0] != K("Out-String") or [a for a, _ in s[1][2]] != [K("Stream")] or s[1][2][0][1] not in (NONE, TRUE):
        return "the output is made text by %s" % str(s[1])[:120]
    return None


# ---------------------------------------------------------------- pools
def pools(rep, repo):
    for meth, args, result in (("execute_ps", [SCRIPT], ([T("in_", "line0")], False)), ("copy", [SRC, DEST], ([PATH], False)), ("fetch", [SRC, DEST], ([DATA, HASH], False))):
        for had in (False, True):
            w = PsWorld(rep, repo, (result[0], had), None, 1)
            outs = w.run(meth, args)
            b = [judge_pool(o) for o in outs]
            opens = [o for o in outs if any(e.name.endswith("RunspacePool.open") for e in o.events)]
            rep.ob("pool", bool(opens) and not any(b), "Client." + meth, "nothing fails%s" % (", the script failed" if had else ""), next((x for x in b if x), "no path opens a pool"))
        w0 = PsWorld(rep, repo, result, None, 1)
        outs = w0.run(meth, args)
        names = sorted({e.name for o in outs for e in o.events if e.kind in ("ext", "meth", "pkg", "fn") and not e.name.startswith("builtins.")})
        for name in names:
            w = PsWorld(rep, repo, result, name, 1)
            fo = w.run(meth, args)
            bad = None if fo else "no path"
            for o in fo:
                if not any(e.exc is not None for e in o.events):
                    continue
                bad = bad or judge_pool(o)
                if o.sig != "raise" and name.split(".")[-1] in ("open", "close", "invoke"):
                    bad = bad or "a failing %s is swallowed" % name
            rep.ob("pool", bad is None, "Client." + meth, "%s fails" % name, bad or "")


def failed(rep, repo):
    for meth, items in (("copy", [[], [PATH]]), ("fetch", [[], [DATA, HASH]])):
        for it in items:
            for n in (0, 1, 2):
                w = PsWorld(rep, repo, (it, True), None, 1)
                E = [T("in_", "error%d" % i) for i in range(n)]
                w.errors = E
                outs = w.run(meth, [SRC, DEST])
                bad = None if outs else "no path"
                for o in outs:
                    if not w.lib_error(o):
                        bad = "gives %s" % show(o, w)
                        continue
                    txt = w.I.freeze(o.st, o.exc.v)
                    pos = []
                    for e in E:
                        if not has_any(txt, e):
                            bad = "the error does not say %s" % e
                rep.ob("failed", bad is None, "Client." + meth, "%d outputs, %d errors" % (len(it), n), bad or "")


def has_any(t, x):
    return any(y == x for y in subterms(t))


# ---------------------------------------------------------------- streams
RECORDS = {"output": ("PipelineOutput", "data"), "error": ("ErrorRecordMessage", None), "debug": ("DebugRecord", None), "verbose": ("VerboseRecord", None),
           "warning": ("WarningRecord", None), "progress": ("ProgressRecord", None), "information": ("InformationRecord", None)}


def streams(rep, repo, tier):
    seqs = [[n] for n in RECORDS] + [["output", "output"], ["error", "error"], ["output", "error", "output"], ["warning", "verbose", "warning"], list(RECORDS)]
    for seq in seqs:
        for cut in ((len(seq),) if len(seq) == 1 else (len(seq), 1)):
            for fin in ("COMPLETED", "FAILED", "STOPPED"):
                one_stream(rep, repo, seq, cut, fin, fin == "FAILED")
    one_stream(rep, repo, ["output"], 1, "FAILED", False)
    one_stream(rep, repo, ["error"], 1, "FAILED", True)
    one_stream(rep, repo, ["output"], 1, "STOPPED", True)


def one_stream(rep, repo, seq, cut, fin, record):
    w = World(rep, repo)
    I = w.I
    w.model_fragmenter((1,))
    w.shallow_messages()
    rec = T("nn", "error-record")
    msgs = [(RECORDS[n][0], {"data": T("in_", "out%d" % i)} if n == "output" else {}) for i, n in enumerate(seq)]
    end = ("PipelineState", {"state": K(w.ps_states[fin]), "error_record": rec if record else NONE})
    w.model_replies([msgs[:cut], msgs[cut:] + [end]] if cut < len(seq) else [msgs + [end]])
    w.cfg.while_max = 6
    st = State()
    st.facts[T("isnone", rec)] = False
    pool = w.pool(st, K(w.pool_states["OPENED"]))
    outs = [o for o in I.construct(st, w.p.cls("powershell.PowerShell"), [pool], {}) if o.sig == "return"]
    bad, n = None, 0
    for o0 in outs:
        ps = o0.val
        for o in I.call_method(o0.st, ps, "add_script", [T("in_", "script")], {}):
            if o.sig != "return":
                continue
            for o2 in I.call_method(o.st, ps, "invoke", [], {}):
                if "cut" in o2.st.marks:
                    continue
                n += 1
                bad = bad or judge_streams(w, o2, ps, seq, cut, fin, rec if record else None)
    w.done()
    rep.ob("streams", bad is None and n > 0, "PowerShell.invoke", "%s%s, %s%s" % (" ".join(seq), "" if cut == len(seq) else " in two replies", fin, " with a record" if record else ""), bad or "no path")


def judge_streams(w, o, ps, seq, cut, fin, rec):
    I = w.I
    if o.sig != "return":
        return "fails: %s" % w.exc(o)
    if w.final(o, ps, "had_errors") != K(fin == "FAILED"):
        return "the success flag of a %s pipeline is %s" % (fin, w.final(o, ps, "had_errors"))
    got = I.seq_items(o.st, w.final(o, ps, "output"))
    want = [T("in_", "out%d" % i) for i, n in enumerate(seq) if n == "output"]
    if got is None or list(got) != want:
        return "the output is %s" % (got,)
    if I.seq_items(o.st, o.val) is None or list(I.seq_items(o.st, o.val)) != want:
        return "what is returned is %s" % (o.val,)
    sm = w.final(o, ps, "streams")
    for name in RECORDS:
        if name == "output":
            continue
        its = I.seq_items(o.st, I.getattr_(o.st, sm, name))
        ids = [tag(o.st, x) for x in its] if its is not None else None
        want = []
        for i, n in enumerate(seq):
            if n == name:
                want.append(T("data", 0, i) if i < cut else T("data", 1, i - cut))
        if name == "error" and rec is not None:
            want.append(rec)
        if ids != want:
            return "%s holds %s, sent was %s" % (name, ids, want)
    return None


def tag(st, v):
    o = st.heap.get(v.oid) if isinstance(v, Ref) else None
    return o.name if o is not None and getattr(o, "name", None) is not None else v
