"""C17: file transfers are verified and leave no partial results."""
import re

from .client import *
from .. import pwsh

TECHNIQUE = "static analysis: path enumeration of copy and fetch with a failure injected at every step and generic file contents; path analysis of the parsed remote scripts"
QUIET = ("os.close", "os.remove", "os.unlink", "uuid.uuid4", "builtins.int", "builtins.str", "upper", "encode", "decode", "strip", "lower", "__enter__", "__exit__")
TMP, FD = T("tmp-path"), T("tmp-fd")
PATHLIB = ("pathlib.Path", "pathlib.PurePath")


def run(rep, repo, tier):
    rep.rule("fetch", "the destination is touched only after the hash of what is stored there equals the server's, and then gets exactly that", 2)
    rep.rule("refused", "a mismatch, an empty reply or an error raises and leaves the destination alone", 8)
    rep.rule("temporary", "on every exit the temporary file is closed once and removed", 8)
    rep.rule("copy", "every byte of the local file is sent in order, then its checksum, and nothing else", 8)
    rep.rule("script", "the remote script is the library's own, run with the path and the expansion flag, and arrives complete", 6)
    rep.rule("remote", "the remote copy moves the file only after the checksum matched, and removes its temporary file; the remote fetch reports the hash of what it sent", 8)
    fetch(rep, repo)
    copy(rep, repo, tier)
    scripts(rep, repo)


class Files(ClientWorld):
    def __init__(self, rep, repo, chunks, result, fault=None):
        super().__init__(rep, repo, chunks, result)
        if fault:
            self.cfg.raises = lambda ev, st: ["psa.OtherError"] if self.step(ev) == fault else ()
        cfg = self.cfg
        cfg.ext["tempfile.NamedTemporaryFile"] = lambda I, st, r, a, k, ctx, n: self.ext(I, st, "tempfile.NamedTemporaryFile", a, k, ctx, n, T("file", TMP, K("w+b"), "named"))
        cfg.attrs["name"] = lambda I, st, t: TMP if isinstance(t, T) and t.op == "file" and t.args[0] == TMP else None

    def step(self, ev):
        return ev.name if ev.kind in ("ext", "meth", "pkg", "fn") and ev.name not in QUIET and not ev.name.startswith("os.path") else None


def steps(outs, w):
    """the steps of the paths, each of which can fail"""
    return sorted({w.step(e) for o in outs for e in o.events} - {None})


def arg_terms(e):
    return [x for x in list(e.fargs) + [v for _, v in e.fkw]]


def touches(e):
    """the event changes the destination"""
    if e.kind not in ("ext", "meth", "fn", "pkg") or e.name in QUIET or e.name.startswith("os.path") or e.name in PATHLIB or e.kind == "pkg":
        return False
    if e.name == "open":
        a = arg_terms(e)
        mode = a[1] if len(a) > 1 else K("r")
        return has(a[0], DEST) and not (isinstance(mode, K) and str(mode.v).startswith("r") and "+" not in str(mode.v))
    if e.kind == "meth":
        return has(e.frecv, DEST) and not isinstance(e.frecv, K) and e.name in ("write", "write_bytes", "write_text", "unlink", "touch", "replace", "rename", "truncate", "writelines") \
            and not (e.name == "replace" and len(e.fargs) == 2)
    return any(has(a, DEST) for a in arg_terms(e))


def verified(o, upto, alg):
    """contents whose hash was found equal to the server's (facts hold from where they were decided: the events up to there are checked by order)"""
    out = []
    for f, v in o.st.facts.items():
        if v is not True or not isinstance(f, T):
            continue
        hs = [x for x in subterms(f) if isinstance(x, T) and x.op == "hashed"]
        if hs and has(f, HASH) and (f.op == "==" or any("compare_digest" in opname(x) for x in subterms(f) if isinstance(x, T))):
            out += [h.args[2] for h in hs if h.args[1] == alg]
    return out


def content(parts):
    return T("cat", *parts) if len(parts) != 1 else parts[0]


def plain(v):
    """contents without views and copies"""
    while isinstance(v, T) and v.op in ("fn", "ret") and v.args and any(str(a) in ("builtins.memoryview", "builtins.bytes", "builtins.bytearray") for a in v.args[:2]):
        v = v.args[-1]
    return v


def stored(o, before):
    """(what the temporary file holds when event number `before` happens, complaint)"""
    data, bad = [], None
    for i, e in enumerate(o.events[:before]):
        if e.exc is not None:
            continue
        if e.name == "os.write" and FD in arg_terms(e)[:1]:
            data.append(plain(arg_terms(e)[1]))
            r = used_result(o, e)
            if not r:
                bad = "os.write may store only a part and its result is not looked at"
        if e.kind == "meth" and e.name == "write" and isinstance(e.frecv, T) and e.frecv.op == "file" and e.frecv.args[0] in (FD, TMP):
            data.append(plain(e.fargs[0]))
            if not any(x.frecv == e.frecv and (x.kind == "exit" or x.name in ("close", "flush")) for x in o.events[i:before]):
                bad = "what was written is still in the buffer when the file is copied"
        if e.kind == "meth" and e.name in ("write_bytes",) and has(e.frecv, TMP):
            data.append(plain(e.fargs[0]))
    return data, bad


def used_result(o, e):
    i = next(k for k, x in enumerate(o.events) if x is e)
    for f in o.st.facts:
        if any("os.write" in str(opname(x)) for x in subterms(f) if isinstance(x, T)):
            return True
    return any("os.write" in str(opname(y)) for x in o.events[i + 1:] for a in arg_terms(x) for y in subterms(a) if isinstance(y, T))


def judge_fetch(w, o, alg):
    """complaint about the destination, or None"""
    evs = o.events
    n = 0
    good = verified(o, None, alg)
    for i, e in enumerate(evs):
        if not touches(e):
            continue
        n += 1
        if not good:
            return "%s although the hash was not found equal to the server's" % e.name, n
        a = arg_terms(e)
        if e.name == "open" or e.kind == "meth" and e.name != "write" and e.name != "write_bytes":
            continue
        if e.kind == "meth":
            data, bad = [plain(e.fargs[0])], None
        elif any(has(x, TMP) or has(x, FD) for x in a):
            data, bad = stored(o, i)
        else:
            continue
        if bad:
            return bad, n
        if not any(content(g) == content(data) for g in good):
            return "what is stored is not what was verified", n
        if not has(content(data), DATA):
            return "what is stored is not the data of the reply", n
    return None, n


def judge_temp(o):
    evs = o.events
    made = [i for i, e in enumerate(evs) if e.name == "tempfile.mkstemp" and e.exc is None]
    if not made:
        return None
    closes = [e for e in evs if e.exc is None and (e.name == "os.close" and FD in arg_terms(e))]
    for e in evs:
        if e.name == "open" and e.exc is None and arg_terms(e)[:1] == [FD] and dict(e.fkw).get("closefd", TRUE) == TRUE:
            closes += [x for x in evs if isinstance(x.frecv, T) and x.frecv.op == "file" and x.frecv.args[0] == FD and (x.kind == "exit" or x.name == "close")][:1]
    gone = [e for e in evs if e.exc is None and e.name in ("os.remove", "os.unlink", "shutil.move", "os.replace", "os.rename") and arg_terms(e)[:1] == [TMP]
            or e.exc is None and e.kind == "meth" and e.name == "unlink" and has(e.frecv, TMP)]
    if len(closes) != 1:
        return "the temporary file is closed %d times" % len(closes)
    if len(gone) != 1:
        return "the temporary file is removed %d times" % len(gone)
    return None


def fetch(rep, repo):
    alg = pwsh.hash_name(pwsh.read(repo, "fetch.ps1")) or "sha1"
    where = "Client.fetch"
    for expand in (FALSE, TRUE):
        con = "expanded" if expand == TRUE else "as given"
        w = Files(rep, repo, 0, ([DATA, HASH], False))
        outs = w.run("fetch", [SRC, DEST], {"expand_variables": expand})
        bad, done = None, 0
        for o in outs:
            b, n = judge_fetch(w, o, alg)
            bad = bad or b
            if o.sig == "return":
                if not n:
                    bad = bad or "returns without storing anything"
                elif not bad:
                    done += 1
            elif n and not any(e.exc is not None for e in o.events):
                bad = bad or "raises after storing the file"
        rep.ob("fetch", bad is None and done > 0, where, "a reply, destination %s" % con, bad or "no path stores the file: %s" % [show(o, w) for o in outs][:3])
        t = [judge_temp(o) for o in outs]
        rep.ob("temporary", bool(outs) and not any(t), where, "a reply, destination %s" % con, next((x for x in t if x), "no path"))
        miss = [o for o in outs if not verified(o, None, alg)]
        bad = None if miss else "no path for a wrong hash"
        for o in miss:
            if o.sig != "raise" or not w.lib_error(o):
                bad = "a wrong hash gives %s" % show(o, w)
        rep.ob("refused", bad is None, where, "a wrong hash, destination %s" % con, bad or "")
        names = steps(outs, w)
        for name in names:
            w = Files(rep, repo, 0, ([DATA, HASH], False), name)
            fo = w.run("fetch", [SRC, DEST], {"expand_variables": expand})
            bad, tb = None if fo else "no path", None
            for o in fo:
                failed = [e for e in o.events if e.exc is not None]
                if not failed:
                    continue
                b, n = judge_fetch(w, o, alg)
                bad = bad or b
                if o.sig != "raise":
                    bad = bad or "a failing %s is swallowed" % name
                tb = tb or judge_temp(o)
            rep.ob("refused", bad is None, where, "%s fails, destination %s" % (name, con), bad or "")
            rep.ob("temporary", tb is None, where, "%s fails, destination %s" % (name, con), tb or "")
        for what, result in (("the remote script failed", ([DATA, HASH], True)), ("the remote script failed without output", ([], True)), ("an empty reply", ([], False)), ("a reply of one text", ([HASH], False))):
            w = Files(rep, repo, 0, result)
            fo = w.run("fetch", [SRC, DEST], {"expand_variables": expand})
            bad, tb = None if fo else "no path", None
            for o in fo:
                tb = tb or judge_temp(o)
                b, n = judge_fetch(w, o, alg)
                if "one text" in what and verified(o, None, alg):
                    continue
                if n or o.sig != "raise":
                    bad = bad or "%s: %s" % ("the destination is written" if n else "does not raise", show(o, w))
                if result[1] and not w.lib_error(o):
                    bad = bad or "gives %s" % w.exc(o)
            rep.ob("refused", bad is None, where, "%s, destination %s" % (what, con), bad or "")
            rep.ob("temporary", tb is None, where, "%s, destination %s" % (what, con), tb or "")


def decoded(v):
    """content of a base64 text"""
    if v == K("") or v == K(b""):
        return K(b"")
    inner, ws = unwrap(v)
    x = v
    seen = False
    while isinstance(x, T) and x.op in ("meth", "fn", "ret"):
        if "b64encode" in opname(x):
            return x.args[-1]
        y = [a for a in (x.args[1:] if x.op != "ret" else x.args[2:]) if isinstance(a, (T, K))]
        if not y:
            return None
        x = y[0]
    return None


def raw(v):
    """text without encoding"""
    while isinstance(v, T) and v.op == "meth" and v.args[0] in ("encode", "decode"):
        v = v.args[1]
    return v


def copy(rep, repo, tier):
    where = "Client.copy"
    alg = pwsh.hash_name(pwsh.read(repo, "copy.ps1")) or "sha1"
    for expand in (FALSE, TRUE):
        for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5):
            w = Files(rep, repo, n, ([PATH], False))
            w.cfg.while_max = n + 2
            outs = w.run("copy", [SRC, DEST], {"expand_variables": expand})
            con = "a file of %d blocks, %s" % (n, "expanded" if expand == TRUE else "as given")
            bad = None if any(o.sig == "return" for o in outs) else "no path completes"
            for o in outs:
                bad = bad or judge_copy(w, o, n, alg, expand)
            rep.ob("copy", bad is None, where, con, bad or "")
        w = Files(rep, repo, 2, ([PATH], True))
        fo = w.run("copy", [SRC, DEST], {"expand_variables": expand})
        bad = None if fo else "no path"
        for o in fo:
            if o.sig != "raise" or not w.lib_error(o):
                bad = "a failed remote script gives %s" % show(o, w)
        rep.ob("copy", bad is None, where, "the remote script failed, %s" % ("expanded" if expand == TRUE else "as given"), bad or "")
        names = steps(outs, w)
        for name in names:
            w = Files(rep, repo, 2, ([PATH], False), name)
            fo = w.run("copy", [SRC, DEST], {"expand_variables": expand})
            bad = None if fo else "no path"
            for o in fo:
                if any(e.exc is not None for e in o.events) and o.sig != "raise":
                    bad = "a failing %s is swallowed" % name
            rep.ob("copy", bad is None, where, "%s fails, %s" % (name, "expanded" if expand == TRUE else "as given"), bad or "")


def a_path(e):
    a = arg_terms(e)
    return a[0] if a and isinstance(a[0], T) and has(a[0], SRC) else None


def judge_copy(w, o, n, alg, expand):
    if o.sig != "return":
        return "fails: %s" % w.exc(o)
    inv = [e for e in o.events if e.name == "powershell.PowerShell.invoke"]
    if len(inv) != 1:
        return "the remote script is run %d times" % len(inv)
    items, _ = inv[0].tok
    if not items:
        return "nothing is sent"
    for e in o.events:
        if e.name == "open":
            a = arg_terms(e)
            mode = a[1] if len(a) > 1 else dict(e.fkw).get("mode", K("r"))
            if not isinstance(mode, K) or "b" not in mode.v:
                return "the file is read as text"
        if e.name in ("open", "os.path.getsize") and a_path(e) is not None:
            for fn in ("expandvars", "expanduser"):
                if any("os.path." + fn in str(opname(t)) for t in subterms(a_path(e)) if isinstance(t, T)) != (expand == TRUE):
                    return "%s of the path is %s" % (fn, "not done" if expand == TRUE else "done")
    data = []
    for x in items[:-1]:
        d = decoded(x)
        if d is None:
            return "%s is sent, which is not base64 of the file" % str(x)[:80]
        if d != K(b""):
            data.extend(d.args if isinstance(d, T) and d.op == "cat" else [d])
    if data != w.chunks:
        return "the data sent is %s of a file of %d blocks" % ([str(x)[:40] for x in data], n)
    h = decoded(items[-1])
    h = raw(h) if h is not None else None
    if not (isinstance(h, T) and h.op == "hashed" and h.args[0] == "hexdigest" and h.args[1] == alg):
        return "the last item is not the %s checksum but %s" % (alg, str(items[-1])[:80])
    got = [y for x in h.args[2] for y in (x.args if isinstance(x, T) and x.op == "cat" else [x])]
    if got != w.chunks:
        return "the checksum is that of %s" % ([str(x)[:40] for x in got],)
    if not has(o.val, PATH):
        return "the path the server reported is not returned"
    return None


# ------------------------------------------------------------------ the remote side
def scripts(rep, repo):
    for meth, name, first, second in (("copy", "copy.ps1", DEST, SRC), ("fetch", "fetch.ps1", SRC, DEST)):
        for expand in (FALSE, TRUE):
            w = Files(rep, repo, 1, ([PATH] if meth == "copy" else [DATA, HASH], False))
            outs = w.run(meth, [SRC, DEST], {"expand_variables": expand})
            bad = None if outs else "no path"
            for o in outs:
                for e in o.events:
                    if e.name == "powershell.PowerShell.invoke" and e.exc is None:
                        cmds = e.tok[1]
                        if len(cmds) != 1 or cmds[0][0] != T("script", K(name)) and cmds[0][0] != T("script", name) or cmds[0][1] != TRUE:
                            bad = "runs %s" % (str(cmds)[:120],)
                        elif [(p, v) for p, v in cmds[0][2]] != [(NONE, first), (NONE, expand)]:
                            bad = "is given %s" % (str(cmds[0][2])[:120],)
            rep.ob("script", bad is None, "Client." + meth, "%s, %s" % (name, "expanded" if expand == TRUE else "as given"), bad or "")
        arrives(rep, repo, name)
    arrives(rep, repo, "synthetic.ps1", SYNTH)
    for con, ok, msg in pwsh.check_copy(pwsh.read(repo, "copy.ps1")):
        rep.ob("remote", ok, "pwsh_scripts/copy.ps1", con, msg)
    for con, ok, msg in pwsh.check_fetch(pwsh.read(repo, "fetch.ps1")):
        rep.ob("remote", ok, "pwsh_scripts/fetch.ps1", con, msg)


SYNTH = """# a comment line
<#
.SYNOPSIS
 a block
#>
$a = 'one # two'
  $b = "#three"   

# another
if ($a) {
    $c = $b.Split('#')[0]
    Write-Output -InputObject "$a-$c"
}
$d = 1
"""


def arrives(rep, repo, name, text=None):
    w = World(rep, repo)
    text = pwsh.read(repo, name) if text is None else text
    asked = []

    def data(I, st, r, a, k, ctx, n):
        asked.append([x.v if isinstance(x, K) else None for x in list(a) + list(k.values())])
        return [(st, K(text.encode("utf-8")))]
    w.cfg.ext["pkgutil.get_data"] = data
    outs = w.I.run_func(State(), FnV(w.p.func("_utils.get_pwsh_script"), None, None, None), [K(name)])
    w.done()
    bad = None if outs else "no path"
    want = pwsh.parse(text)
    for o in outs:
        if o.sig != "return" or not isinstance(o.val, K) or not isinstance(o.val.v, str):
            bad = "gives %s" % (w.exc(o) or str(o.val)[:80])
        elif pwsh.parse(o.val.v) != want:
            bad = "the text sent is not the script"
    if asked and not all(name in a for a in asked):
        bad = "reads %s" % asked
    rep.ob("script", bad is None, "_utils.get_pwsh_script", name, bad or "")
