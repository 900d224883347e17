"""the client helpers with the pool, the pipeline and the local files as boundary (shared by C17 and C18)"""
from .c28 import *

SRC, DEST = T("in_", "src"), T("in_", "dest")
PATH = T("in_", "reply-path")
DATA, HASH = T("in_", "reply-data"), T("in_", "reply-hash")
POOL_OPS = ("open", "connect", "disconnect", "close")
CLEANUP = ("os.close", "os.remove", "os.unlink")
EVENTS = ("ext", "meth", "pkg")


class ClientWorld(World):
    """RunspacePool.open/close, PowerShell.invoke/begin_invoke/end_invoke and the WinRS operations are boundary; `result` gives what a
    pipeline ends with: (output items, had errors)"""

    def __init__(self, rep, repo, chunks=1, result=None, faults=()):
        super().__init__(rep, repo)
        I, cfg = self.I, self.cfg
        self.chunks = [T("chunk", i) for i in range(chunks)]
        self.result, self.sent = result, []
        self.faults = faults
        self.errors = []
        self.boundary("shell.Process.invoke")
        for m in ("open", "close"):
            self.wire.add("powershell.RunspacePool." + m)

        def popen(I, st, fv, args, kw, ctx, node):
            out = []
            for s, v in I.boundary_event(st, fv, args, kw, ctx, node, result=NONE):
                if not isinstance(v, Raised):
                    I.setattr_(s, fv.self_, "protocol_version", K("2.3"))
                    I.setattr_(s, fv.self_, "state", K(self.pool_states["OPENED"]))
                out.append((s, v))
            return out

        def pclose(I, st, fv, args, kw, ctx, node):
            return I.boundary_event(st, fv, args, kw, ctx, node, result=NONE)

        def invoke(I, st, fv, args, kw, ctx, node):
            out = []
            for s, vals in I.bind_args(st, fv.func, fv.self_, args, kw, ctx, node):
                if isinstance(vals, Raised):
                    out.append((s, vals))
                    continue
                inp = vals.get("input", NONE)
                for s2, items in I.iterate(s, inp, ctx, node) if inp != NONE else [(s, [])]:
                    if isinstance(items, Raised):
                        out.append((s2, items))
                        continue
                    flat = []
                    for x in items:
                        y = I.seq_items(s2, x)
                        flat.extend([I.freeze(s2, z) for z in y] if y is not None else [I.freeze(s2, x)])
                    for s3, v in I.boundary_event(s2, fv, args, kw, ctx, node, result=NONE):
                        if s3.trace[1].exc is None:
                            s3.trace[1].tok = (tuple(flat), self.commands(s3, fv.self_))
                            if self.result:
                                outp, bad = self.result
                                I.setattr_(s3, fv.self_, "output", s3.new(HList(outp)))
                                I.setattr_(s3, fv.self_, "had_errors", K(bad))
                                I.setattr_(s3, fv.self_, "state", K(self.ps_states["FAILED" if bad else "COMPLETED"]))
                                v = I.getattr_(s3, fv.self_, "output")
                                if self.errors:
                                    I.setattr_(s3, I.getattr_(s3, fv.self_, "streams"), "error", s3.new(HList(self.errors)))
                        out.append((s3, v))
            return out
        self.p.func("powershell.RunspacePool.open"), self.p.func("powershell.RunspacePool.close"), self.p.func("powershell.PowerShell.invoke")
        cfg.boundary["powershell.RunspacePool.open"] = popen
        cfg.boundary["powershell.RunspacePool.close"] = pclose
        cfg.boundary["powershell.PowerShell.invoke"] = invoke
        cfg.boundary["_utils.get_pwsh_script"] = lambda I, st, fv, args, kw, ctx, node: [(st, T("script", I.freeze(st, args[0] if args else kw["name"])))]
        cfg.ext["tempfile.mkstemp"] = lambda I, st, r, a, k, ctx, n: self.ext(I, st, "tempfile.mkstemp", a, k, ctx, n, T("tuple", T("tmp-fd"), T("tmp-path")))
        cfg.ext["builtins.open"] = self.fopen
        cfg.ext["io.open"] = self.fopen
        cfg.ext["os.fdopen"] = self.fopen
        cfg.ext[".read"] = self.fread
        cfg.ext[".stat"] = lambda I, st, r, a, k, ctx, n: None
        for n in ("os.path.getsize",):
            cfg.ext[n] = lambda I, st, r, a, k, ctx, nd: [(st, self.total())]
        cfg.attrs["st_size"] = lambda I, st, t: self.total() if isinstance(t, T) and has(t, SRC) else None
        for alg in ("sha1", "sha256", "md5", "sha512", "new"):
            cfg.ext["hashlib." + alg] = (lambda alg: lambda I, st, r, a, k, ctx, n: self.hnew(st, alg, a, k))(alg)
        for m in ("update", "hexdigest", "digest"):
            cfg.ext["." + m] = (lambda m: lambda I, st, r, a, k, ctx, n: self.hmeth(st, m, r, a))(m)
        if faults:
            cfg.raises = lambda ev, st: ["psa.OtherError"] if ev.name in self.faults else ()

    # ---------------------------------------------------------------- local files
    def ext(self, I, st, name, a, k, ctx, n, res):
        return I.opaque(st, "ext", name, None, a, k, ctx, n, result=res)

    def total(self):
        return mk_lin(*self.sum_(self.chunks))

    def sum_(self, cs):
        L = (0, {})
        for c in cs:
            L = lin_add(L, lin_of(self.clen(c)))
        return L

    def clen(self, c):
        return T("len", c)

    def fopen(self, I, st, r, a, k, ctx, n):
        mode = a[1] if len(a) > 1 else k.get("mode", K("r"))
        f = T("file", I.freeze(st, a[0]), mode, st.uid())
        return I.opaque(st, "ext", "open", None, a, k, ctx, n, result=f)

    def fread(self, I, st, r, a, k, ctx, n):
        if not (isinstance(r, T) and r.op == "file" and has(r.args[0], SRC)):
            return None
        out = []
        for s, v in I.opaque(st, "meth", "read", r, a, k, ctx, n, result=NONE):
            if not isinstance(v, Raised):
                pos = s.globals.get("pos", 0)
                rest = self.chunks[pos:]
                whole = not a or a[0] == K(-1)
                s.globals["pos"] = len(self.chunks) if whole else pos + 1
                v = (T("cat", *rest) if len(rest) > 1 else rest[0]) if rest and whole else rest[0] if rest else K(b"")
            out.append((s, v))
        return out

    def hnew(self, st, alg, a, k):
        if alg == "new":
            alg = a[0].v if a and isinstance(a[0], K) else "?"
            a = a[1:]
        h = T("hasher", alg, st.uid())
        data = a[0] if a else k.get("string", k.get("data"))
        st.globals[("hash", h)] = (self.I.freeze(st, data),) if data is not None and data != K(b"") else ()
        return [(st, h)]

    def hmeth(self, st, m, r, a):
        if not (isinstance(r, T) and r.op == "hasher"):
            return None
        if m == "update":
            st.globals[("hash", r)] += (self.I.freeze(st, a[0]),)
            return [(st, NONE)]
        v = T("hashed", m, r.args[0], st.globals[("hash", r)])
        if m == "hexdigest":
            self.text(st, v)
        return [(st, v)]

    def text(self, st, v):
        st.facts[T("isinst", v, ("bytes",))] = False
        st.facts[T("isinst", v, ("str",))] = True
        st.facts[T("isnone", v)] = False

    def facts(self, st):
        """every chunk read is non-empty bytes; so is every reply text"""
        I = self.I
        for v in (SRC, DEST, DATA, HASH, PATH):
            self.text(st, v)
        for c in self.chunks:
            st.facts[T("truth", c)] = True
            I.nonneg.add(self.clen(c))
            st.facts[T("isinst", c, ("bytes",))] = True
            at = I.eq_atom(st, c, K(b""))
            if isinstance(at, T):
                st.facts[at] = False
        tot = self.total()
        for i in range(len(self.chunks) + 1):
            part = mk_lin(*self.sum_(self.chunks[:i]))
            for x, y, diff in ((part, tot, i < len(self.chunks)), (part, K(0), i > 0)):
                at = I.eq_atom(st, x, y)
                if isinstance(at, T) and diff:
                    self.fact(st, at, False)
            for hi, lo, pos in ((tot, part, i < len(self.chunks)), (part, K(0), i > 0)):
                at = I.pos_atom(mk_lin(*lin_add(lin_of(hi), lin_of(lo), -1)))
                if isinstance(at, T):
                    self.fact(st, at, pos)

    def fact(self, st, at, val):
        while isinstance(at, T) and at.op == "not":
            at, val = at.args[0], not val
        st.facts[at] = val

    # ---------------------------------------------------------------- what a pipeline runs
    def commands(self, st, ps):
        """((command text, is script, ((parameter name, value), ...)), ...)"""
        I, out = self.I, []
        cmds = I.getattr_(st, ps, "commands")
        for c in I.seq_items(st, cmds) or ():
            a = st.heap[c.oid].attrs if isinstance(c, Ref) else {}
            ar = []
            for p in I.seq_items(st, a.get("args", NONE)) or ():
                pa = st.heap[p.oid].attrs if isinstance(p, Ref) else {}
                ar.append((I.freeze(st, pa.get("name", NONE)), I.freeze(st, pa.get("value", NONE))))
            out.append((I.freeze(st, a.get("cmd", NONE)), a.get("is_script"), tuple(ar), a.get("end_of_statement")))
        return tuple(out)

    def client(self, st):
        return self.I.abs_inst(st, "client.Client", "client")

    def run(self, meth, args, kw=None):
        st = State()
        c = self.client(st)
        self.facts(st)
        outs = self.I.call_method(st, c, meth, args, kw or {})
        self.done()
        return [o for o in outs if "cut" not in o.st.marks]
