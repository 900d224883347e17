"""a small PowerShell front end: parser for the subset the transfer scripts use, and a path evaluator over symbolic terms"""
import os
import re

from .loader import AnalysisError

TOK = re.compile(r"""
  (?P<ws>[ \t\r]+|`\r?\n)|(?P<nl>\n|;)|(?P<bc><\#.*?\#>)|(?P<c>\#[^\n]*)
 |(?P<ds>"(?:[^"`]|`.|"")*")|(?P<ss>'(?:[^']|'')*')
 |(?P<var>\$(?:[A-Za-z_][\w:]*|\{[^}]*\}|[?$^_]))|(?P<sub>[$@]\(|@\{)
 |(?P<type>\[[A-Za-z_][\w.]*(?:\[\])?\](?=[ \t]*(?:::|['"$(\[])|[ \t]*\r?\n|\)))
 |(?P<op>::|-(?:[ci]?(?:ne|eq|lt|gt|le|ge|like|match)|not|and|or|is|isnot|as|in|join|split|replace|band|bor)\b|\+=|-=|\*=|>\s*\$null\b|[-+*/%=!.,|&<>(){}\[\]])
 |(?P<num>\d+)
 |(?P<word>-?[A-Za-z_\\/][\w\-\\/:]*)
 |(?P<other>.)""", re.X | re.S | re.I)


def read(repo, name):
    p = os.path.join(repo, "src", "pypsrp", "pwsh_scripts", name)
    if not os.path.isfile(p):
        raise AnalysisError("script %s not found" % name)
    with open(p, encoding="utf-8-sig") as f:
        return f.read()


def tokens(text):
    out, depth = [], []
    for m in TOK.finditer(text):
        k, s = m.lastgroup, m.group()
        if k in ("ws", "bc", "c"):
            continue
        if k == "nl":
            if depth and depth[-1] in "([":
                if s == ";" and depth[-1] == "(":
                    out.append(("nl", s))
                continue
            if out and out[-1] in (("op", "|"), ("op", ","), ("op", "="), ("op", "+=")):
                continue
            out.append(("nl", "\n"))
            continue
        if s in ("(", "[", "{") or k == "sub":
            depth.append("{" if s.endswith("{") else s[-1])
        elif s in (")", "]", "}") and depth:
            depth.pop()
        if k == "op" and s.startswith(">") and "null" in s.lower():
            s = ">$null"
        out.append((k, s if k in ("ds", "ss") else s.lower()))
    return out


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ("end", "")

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def skip(self):
        while self.peek()[0] == "nl":
            self.i += 1

    def want(self, s):
        self.skip()
        if self.peek()[1] != s:
            raise AnalysisError("PowerShell: expected %r, found %r" % (s, self.peek()[1]))
        self.i += 1

    def stmts(self, end=None):
        out = []
        while True:
            self.skip()
            k, s = self.peek()
            if k == "end":
                if end:
                    raise AnalysisError("PowerShell: unterminated block")
                return out
            if s == end and k == "op":
                self.i += 1
                return out
            out.append(self.stmt())

    def block(self):
        self.want("{")
        return self.stmts("}")

    def cond(self):
        self.want("(")
        e = self.expr_list()
        self.want(")")
        return e

    def stmt(self):
        k, s = self.peek()
        if k == "word":
            nxt = self.peek(1)[1]
            if s in ("begin", "process", "end") and nxt == "{":
                self.i += 1
                return ("block", s, self.block())
            if s in ("if", "while", "foreach") and nxt == "(":
                self.i += 1
                if s == "if":
                    arms, other = [(self.cond(), self.block())], []
                    while True:
                        j = self.i
                        self.skip()
                        w = self.peek()[1]
                        if w == "elseif":
                            self.i += 1
                            arms.append((self.cond(), self.block()))
                        elif w == "else":
                            self.i += 1
                            other = self.block()
                            break
                        else:
                            self.i = j
                            break
                    return ("if", arms, other)
                if s == "while":
                    return ("while", self.cond(), self.block())
                c = self.raw("{")
                return ("foreach", c, self.block())
            if s == "try":
                self.i += 1
                b, catch, fin = self.block(), None, []
                while True:
                    j = self.i
                    self.skip()
                    w = self.peek()[1]
                    if w == "catch":
                        self.i += 1
                        self.raw("{")
                        catch = (catch or []) + self.block()
                    elif w == "finally":
                        self.i += 1
                        fin = self.block()
                    else:
                        self.i = j
                        break
                return ("try", b, catch, fin)
            if s == "function":
                self.i += 1
                name = self.next()[1]
                self.raw("{")
                return ("func", name, self.braces())
            if s in ("throw", "return"):
                self.i += 1
                e = None if self.peek()[0] in ("nl", "end") or self.peek()[1] == "}" else self.pipe()
                return (s, e)
        return self.simple()

    def raw(self, stop):
        out = []
        while self.peek()[1] != stop and self.peek()[0] != "end":
            out.append(self.next())
        return tuple(out)

    def braces(self):
        self.want("{")
        out, d = [], 1
        while d:
            t = self.next()
            if t[0] == "end":
                raise AnalysisError("PowerShell: unterminated block")
            if t[0] in ("op", "sub") and t[1].endswith("{"):
                d += 1
            elif t == ("op", "}"):
                d -= 1
            if t[0] != "nl":
                out.append(t)
        return tuple(out[:-1])

    def simple(self):
        if self.peek()[0] == "var" and self.peek(1)[1] in ("=", "+=", "-="):
            v, o = self.next()[1], self.next()[1]
            return ("assign", v, o, self.pipe())
        e = self.pipe()
        quiet = False
        if self.peek()[1] == ">$null":
            self.i += 1
            quiet = True
        return ("expr", e, quiet)

    def pipe(self):
        e = self.element()
        while self.peek()[1] == "|":
            self.i += 1
            self.skip()
            e = ("pipe", e, self.element())
        return e

    def element(self):
        k, s = self.peek()
        if k == "word" and not s.startswith("-"):
            self.i += 1
            args = []
            while True:
                k2, s2 = self.peek()
                if k2 in ("nl", "end") or s2 in ("|", "}", ")", ">$null") or s2.startswith(">"):
                    break
                if k2 == "word":
                    w = self.next()[1]
                    while self.peek()[1] == "." and self.peek(1)[0] == "word" or self.peek()[1] == "[" and self.peek(1)[1] == "]":
                        w += self.next()[1] + self.next()[1]
                    args.append(("word", w))
                elif s2 == ",":
                    self.i += 1
                elif s2 == "-":
                    self.i += 1
                    args.append(("word", "-" + self.next()[1]))
                elif k2 == "op" and s2.startswith("-"):
                    args.append(("word", self.next()[1]))
                else:
                    args.append(self.postfix())
            return ("cmd", s, tuple(args))
        return self.expr_list()

    def expr_list(self):
        k, s = self.peek()
        if k == "word" and not s.startswith("-"):
            return self.pipe()
        e = self.binary()
        if self.peek()[1] == ",":
            items = [e]
            while self.peek()[1] == ",":
                self.i += 1
                items.append(self.binary())
            return ("list",) + tuple(items)
        return e

    def binary(self):
        a = self.unary()
        while self.peek()[0] == "op" and (re.match(r"-[a-z]", self.peek()[1]) or self.peek()[1] in ("+", "-", "*", "/", "%")):
            o = self.next()[1]
            a = ("bin", re.sub(r"^-[ci](?=(ne|eq|lt|gt|le|ge|like|match)$)", "-", o), a, self.unary())
        return a

    def unary(self):
        if self.peek()[1] in ("-not", "!"):
            self.i += 1
            return ("not", self.unary())
        return self.postfix()

    def args(self):
        out = []
        while self.peek()[1] != ")":
            if self.peek()[0] == "end":
                raise AnalysisError("PowerShell: unterminated call")
            if self.peek()[1] == ",":
                self.i += 1
                continue
            out.append(self.binary() if self.peek()[0] != "word" else self.pipe())
        self.i += 1
        return tuple(out)

    def postfix(self):
        k, s = self.next()
        if k == "var":
            e = ("const", None) if s == "$null" else ("const", s == "$true") if s in ("$true", "$false") else ("var", s)
        elif k == "num":
            e = ("const", int(s))
        elif k == "ss":
            e = ("const", s[1:-1].replace("''", "'"))
        elif k == "ds":
            e = ("const", s[1:-1]) if "$" not in s else ("text", s[1:-1])
        elif k == "type":
            e = ("type", s[1:-1])
            if self.peek()[1] != "::":
                if self.peek()[0] in ("nl", "end") or self.peek()[1] in (")", "}", "]"):
                    return e
                e = ("cast", e[1], self.postfix())
        elif s == "(":
            e = self.pipe()
            self.want(")")
        elif k == "sub":
            close = "}" if s == "@{" else ")"
            e = ("sub", tuple(_hash(x) for x in self.stmts(close)))
        elif s == "{":
            self.i -= 1
            e = ("scriptblock", self.braces())
        elif k == "word":
            if self.peek()[1] == "[" and self.peek(1)[1] == "]":
                self.i += 2
                s += "[]"
            return ("word", s)
        elif s == "[":
            name = "".join(x[1] for x in self.raw("]"))
            self.want("]")
            e = ("type", name)
            if self.peek()[1] != "::" and self.peek()[0] in ("var", "ds", "ss", "num") or self.peek()[1] == "(":
                e = ("cast", name, self.postfix())
        else:
            raise AnalysisError("PowerShell: cannot read %r" % (s,))
        while True:
            k, s = self.peek()
            if s == "." and self.peek(1)[0] in ("word", "var"):
                self.i += 1
                n = self.next()[1]
                if self.peek()[1] == "(":
                    self.i += 1
                    e = ("call", e, n, self.args())
                else:
                    e = ("prop", e, n)
            elif s == "::":
                self.i += 1
                n = self.next()[1]
                if self.peek()[1] == "(":
                    self.i += 1
                    e = ("static", e[1], n, self.args())
                else:
                    e = ("sprop", e[1], n)
            elif s == "[" and k == "op":
                self.i += 1
                x = self.binary()
                self.want("]")
                e = ("idx", e, x)
            else:
                return e


def _hash(x):
    return x if isinstance(x, tuple) else tuple(x)


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else x


def parse(text):
    return freeze(Parser(text).stmts())


def hash_name(text):
    for n in walk(parse(text)):
        if isinstance(n, tuple) and n and n[0] in ("static", "sprop", "cmd", "type"):
            m = re.search(r"(sha\d+|md5)", str(n).lower())
            if m:
                return m.group(1)
    return None


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def has(t, x):
    return any(y == x for y in walk(t))


# ------------------------------------------------------------------ paths
class Path:
    def __init__(self):
        self.env, self.acts, self.conds, self.out, self.end, self.objs = {}, [], [], [], None, {}

    def copy(self):
        p = Path()
        p.env, p.acts, p.conds, p.out, p.end, p.objs = dict(self.env), list(self.acts), list(self.conds), list(self.out), self.end, dict(self.objs)
        return p


def val(p, e):
    """symbolic value of an expression; calls are recorded as effects"""
    if not isinstance(e, tuple) or not e:
        return e
    k = e[0]
    if k == "var":
        return p.env.get(e[1], e)
    if k in ("const", "type", "word", "sprop", "scriptblock"):
        return e
    if k == "text":
        return ("text", e[1])
    if k == "call":
        r = val(p, e[1])
        a = tuple(val(p, x) for x in e[3])
        v = ("call", r, e[2], a)
        p.acts.append(v)
        return v
    if k == "static":
        a = tuple(val(p, x) for x in e[3])
        v = ("static", e[1], e[2], a)
        p.acts.append(v)
        if e[2] in ("create", "new") or e[2].startswith("gettemp"):
            v = ("new", v, len(p.acts))
            p.acts[-1] = v
        return v
    if k == "cmd":
        a = tuple(val(p, x) for x in e[2])
        v = ("cmd", e[1], a)
        p.acts.append(v)
        if e[1] == "new-object":
            v = ("new", v, len(p.acts))
        return v
    if k == "prop":
        r = val(p, e[1])
        # what an object holds when the property is read
        return ("prop", r, e[2], tuple(x for x in p.acts if isinstance(x, tuple) and x[0] == "call" and x[1] == r) if e[2] == "hash" else ())
    if k == "pipe":
        a, b = val(p, e[1]), val(p, e[2])
        return ("pipe", a, b)
    return (k,) + tuple(val(p, x) if isinstance(x, tuple) else x for x in e[1:])


def decide(p, c):
    """[(path, bool)]"""
    if c[0] == "not":
        return [(q, not b) for q, b in decide(p, c[1])]
    if c[0] == "bin" and c[1] in ("-and", "-or"):
        out = []
        for q, b in decide(p, c[2]):
            if b == (c[1] == "-or"):
                out.append((q, b))
            else:
                out.extend(decide(q, c[3]))
        return out
    v = val(p, c)
    if v[0] == "const":
        return [(p, bool(v[1]))]
    if v[0] == "bin" and v[1] in ("-eq", "-ne"):
        a, b, eq = v[2], v[3], v[1] == "-eq"
        if a == b:
            return [(p, eq)]
        if a[0] == "const" and b[0] == "const":
            return [(p, (a[1] == b[1]) == eq)]
        if ("const", None) in (a, b):
            o = b if a == ("const", None) else a
            if o[0] in ("static", "call", "new", "cmd", "in"):
                return [(p, not eq)]
        key = ("eq", frozenset((a, b)))
        for k, b0 in p.conds:
            if k == key:
                return [(p, b0 == eq)]
        q = p.copy()
        p.conds.append((key, True))
        q.conds.append((key, False))
        return [(p, eq), (q, not eq)]
    key = ("true", v)
    q = p.copy()
    p.conds.append((key, True))
    q.conds.append((key, False))
    return [(p, True), (q, False)]


def run(p, body, loops=2):
    """[Path]; path.end is None, 'throw' or 'return'"""
    cur = [p]
    for s in body:
        nxt = []
        for q in cur:
            if q.end:
                nxt.append(q)
            else:
                nxt.extend(step(q, s, loops))
        cur = nxt
        if len(cur) > 4000:
            raise AnalysisError("PowerShell: too many paths")
    return cur


def step(p, s, loops):
    k = s[0]
    if k == "assign":
        v = val(p, s[3])
        if s[2] != "=":
            v = ("bin", s[2][0], p.env.get(s[1], ("var", s[1])), v)
        p.env[s[1]] = v
        return [p]
    if k == "expr":
        v = val(p, s[1])
        if not s[2] and not silent(v):
            p.out.append(shown(v))
        return [p]
    if k in ("throw", "return"):
        if s[1] is not None:
            v = val(p, s[1])
            if k == "return":
                p.out.append(v)
        p.end = k
        return [p]
    if k == "if":
        out, cur = [], [p]
        for c, b in s[1]:
            nxt = []
            for q in cur:
                for q2, t in decide(q, c):
                    if t:
                        out.extend(run(q2, b, loops))
                    else:
                        nxt.append(q2)
            cur = nxt
        for q in cur:
            out.extend(run(q, s[2], loops))
        return out
    if k == "while":
        out, cur = [], [p]
        for i in range(loops + 1):
            nxt = []
            for q in cur:
                if q.end:
                    out.append(q)
                    continue
                for q2, t in decide(q, s[1]):
                    if not t:
                        out.append(q2)
                    elif i < loops:
                        nxt.extend(run(q2, s[2], loops))
            cur = nxt
        return out
    if k == "try":
        out = []
        for q in run(p, s[1], loops):
            cur = [q]
            if q.end == "throw" and s[2] is not None:
                q.end = None
                cur = run(q, s[2], loops)
            for r in cur:
                e, r.end = r.end, None
                for f in run(r, s[3], loops):
                    f.end = f.end or e
                    out.append(f)
        return out
    if k == "foreach":
        return run(p, s[2], loops)
    return [p]


VOID = ("write", "close", "dispose", "delete", "move", "flush", "copy", "setvalue", "clear")


def silent(v):
    if v[0] in ("call", "static") and v[2] in VOID:
        return True
    if v[0] == "pipe":
        return silent(v[2])
    return v[0] == "cmd" and v[1] in ("write-warning", "write-verbose", "write-debug", "set-property", "out-null", "move-item", "remove-item", "copy-item", "set-strictmode", "write-host", "write-information")


def shown(v):
    if v[0] == "cmd" and v[1] == "write-output":
        a = [x for x in v[2] if x[0] != "word"]
        return a[0] if len(a) == 1 else ("list",) + tuple(a)
    return v


def blocks(text):
    d = {"begin": (), "process": (), "end": ()}
    tree = parse(text)
    plain = []
    for s in tree:
        if s[0] == "block":
            d[s[1]] = s[2]
        else:
            plain.append(s)
    return d, tuple(plain)


INPUT = "$input"
UNBOUND = ("prop", ("var", "$myinvocation"), "unboundarguments", ())


def b64(v, name):
    return v[3][0] if v[0] == "static" and v[2] == name and v[3] else None


def check_copy(text):
    """[(obligation, ok, complaint)]"""
    out = []
    d, plain = blocks(text)
    for n in (0, 1, 2, 3):
        p = Path()
        cur = run(p, d["begin"])
        cur = [q for q in cur if not q.end]
        ins = [("in", i) for i in range(n + 1)]
        for x in ins:
            nxt = []
            for q in cur:
                if q.end:
                    continue
                q.env[INPUT] = x
                nxt.extend(run(q, d["process"]))
            cur = nxt
        res = []
        for q in cur:
            if not q.end:
                q.env.pop(INPUT, None)
                res.extend(run(q, d["end"] or plain))
        data, sums = [("in", i) for i in range(n)], ("in", n)
        moved, bad, wrong = 0, None, 0
        for q in res:
            mv = [i for i, a in enumerate(q.acts) if is_move(q, a)]
            eqs = [k[1] for k, b in q.conds if k[0] == "eq" and b]
            good = any(matches(pair, sums) for pair in eqs)
            if not good:
                wrong += 1
                if mv:
                    bad = "the file is moved although the checksum was not found equal to the one sent"
                elif q.end != "throw":
                    bad = "a wrong checksum is not reported"
                elif any(touches_output(q, a) for a in q.acts):
                    bad = "a wrong checksum changes the destination"
            else:
                if len(mv) != 1:
                    bad = "the file is moved %d times after the checksum matched" % len(mv)
                    continue
                moved += 1
                hashed = hashed_data(q, sums)
                wr = [a for a in q.acts[:mv[0]] if a[0] == "call" and a[2] == "write" and a[1][0] == "new"]
                got = [decoded(a[3][0]) for a in wr]
                if got != data:
                    bad = "what is stored of %d blocks is %s" % (n, short(got))
                elif any(not whole(a) for a in wr + [a for a in q.acts if a[0] == "call" and a[2] == "transformblock"]):
                    bad = "only a part of a block is stored or hashed"
                elif hashed != data:
                    bad = "what is hashed of %d blocks is %s" % (n, short(hashed))
                else:
                    fd = wr[0][1] if wr else None
                    if fd is not None and not any(a[0] == "call" and a[1] == fd and a[2] in ("close", "dispose") for a in q.acts[:mv[0]]):
                        bad = "the file is moved before it is closed"
                    elif not replaces(q, mv[0]):
                        bad = "a file at the destination is not replaced"
                    elif not (len(q.out) == 1 and mentions_arg(q.out[0], 0) and has(q.out[0], target(q.acts[mv[0]]))):
                        bad = "the output is %s, not the path of the file" % short(q.out)
            if not bad:
                tmp = temp_path(q)
                if tmp is None:
                    bad = "no temporary file is made"
                elif not any(is_delete(a, tmp) for a in q.acts):
                    bad = "the temporary file is not deleted"
        out.append(("%d blocks" % n, bad is None and moved > 0 and wrong > 0, bad or "no path %s" % ("moves the file" if not moved else "for a wrong checksum")))
    for flag in (True, False):
        p = Path()
        bad, seen, looked = None, 0, 0
        for q in _run_all(text, 1):
            for a in q.acts:
                if is_move(q, a):
                    seen += 1
                    dest = a[3][1] if a[0] == "static" and len(a[3]) > 1 else a
                    ex = has_call(dest, "expandenvironmentvariables")
                    want = [b for k, b in q.conds if mentions_idx(k, 1)]
                    looked += want[:1] == [flag]
                    if want and want[0] == flag and ex != flag:
                        bad = "the destination is %s" % ("not expanded" if flag else "expanded")
                    if not mentions_arg(dest, 0):
                        bad = "the file is not moved to the destination given"
        out.append(("the destination, %s" % ("expanded" if flag else "as given"), bad is None and looked > 0, bad or ("the flag is not looked at" if seen else "never moved")))
    return out


def whole(a):
    """a call (block, 0, its length, ...)"""
    b = a[3]
    return len(b) == 1 or len(b) >= 3 and b[1] == ("const", 0) and b[2][0] == "prop" and b[2][1] == b[0] and b[2][2] in ("length", "count")


def target(a):
    """where a move goes"""
    if a[0] == "static":
        return a[3][1] if len(a[3]) > 1 else None
    b = a[2]
    for i, x in enumerate(b[:-1]):
        if x[0] == "word" and x[1].startswith("-dest"):
            return b[i + 1]
    rest = [x for x in b if x[0] != "word"]
    return rest[-1] if rest else None


def replaces(q, i):
    a = q.acts[i]
    if a[0] == "cmd":
        return any(x == ("word", "-force") for x in a[2])
    if a[2] == "replace" or len(a[3]) > 2 and a[3][2] == ("const", True):
        return True
    return any(is_delete(x, target(a)) for x in q.acts[:i])


def _run_all(text, n):
    d, plain = blocks(text)
    cur = [q for q in run(Path(), d["begin"]) if not q.end]
    for i in range(n + 1):
        nxt = []
        for q in cur:
            q.env[INPUT] = ("in", i)
            nxt.extend(run(q, d["process"]))
        cur = nxt
    res = []
    for q in cur:
        q.env.pop(INPUT, None)
        res.extend(run(q, d["end"] or plain))
    return res


def short(x):
    return str(x)[:120]


def mentions_idx(k, i):
    for y in walk(tuple(k[1]) if isinstance(k[1], frozenset) else k[1]):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "idx" and y[2] == ("const", i) and (y[1] == UNBOUND or y[1] == ("var", "$args")):
            return True
    return False


def mentions_arg(v, i):
    return mentions_idx(("x", v), i)


def has_call(v, name):
    return any(isinstance(y, tuple) and len(y) > 2 and y[0] in ("static", "call") and y[2] == name for y in walk(v))


def temp_path(q):
    for a in q.acts:
        if a[0] == "new" and a[1][0] == "static" and a[1][2].startswith("gettemp"):
            return a
    return None


def is_move(q, a):
    tmp = temp_path(q)
    if a[0] == "static" and a[2] in ("move", "copy", "replace") and a[3] and a[3][0] == tmp:
        return True
    return a[0] == "cmd" and a[1] in ("move-item", "copy-item") and has(a[2], tmp)


def is_delete(a, tmp):
    return a[0] == "static" and a[2] == "delete" and a[3][:1] == (tmp,) or a[0] == "cmd" and a[1] == "remove-item" and has(a[2], tmp)


def touches_output(q, a):
    return (a[0] == "static" and a[2] in ("delete", "move", "copy", "create", "writeallbytes", "replace") or a[0] == "cmd" and a[1] in ("remove-item", "move-item", "copy-item", "new-item", "set-content")) \
        and mentions_arg(a, 0)


def decoded(v):
    return b64(v, "frombase64string")


def matches(pair, sums):
    """the hash computed here and the checksum sent"""
    a, b = tuple(pair) if len(pair) == 2 else (tuple(pair)[0],) * 2
    for x, y in ((a, b), (b, a)):
        if any(isinstance(t, tuple) and len(t) > 2 and t[0] == "prop" and t[2] == "hash" for t in walk(x)) and has(y, sums) and not any(isinstance(t, tuple) and len(t) > 2 and t[0] == "prop" and t[2] == "hash" for t in walk(y)):
            return True
    return False


def hashed_data(q, sums=None):
    """blocks that went into the hash when it was read, by the comparison of this path"""
    for k, b in q.conds:
        if k[0] == "eq" and b and (sums is None or matches(k[1], sums)):
            for t in walk(tuple(k[1])):
                if isinstance(t, tuple) and len(t) == 4 and t[0] == "prop" and t[2] == "hash":
                    return blocks_of(t)
    return None


def blocks_of(t):
    got, final = [], False
    for c in t[3]:
        if c[2] == "transformblock":
            got.append(decoded(c[3][0]) or c[3][0])
        elif c[2] == "transformfinalblock":
            if c[3][1:] != (("const", 0), ("const", 0)):
                got.append(decoded(c[3][0]) or c[3][0])
            final = True
        elif c[2] == "computehash":
            got, final = [decoded(c[3][0]) or c[3][0]], True
    return got if final else ["not finished"]


def check_fetch(text):
    out = []
    d, plain = blocks(text)
    body = tuple(d["begin"]) + tuple(d["process"]) + tuple(d["end"]) + plain
    res = run(Path(), body, 2)
    done = [q for q in res if q.end != "throw"]
    bad, full = None, 0
    for q in done:
        if not q.out:
            bad = "a path reports nothing"
            continue
        h = q.out[-1]
        hs = [t for t in walk(h) if isinstance(t, tuple) and len(t) == 4 and t[0] == "prop" and t[2] == "hash"]
        data = [b64(x, "tobase64string") for x in q.out[:-1]]
        if not hs:
            bad = "the last output is %s, not the hash" % short(h)
        elif any(x is None for x in data):
            bad = "outputs %s" % short(q.out)
        elif blocks_of(hs[0]) != data:
            bad = "the hash is of %s, sent is %s" % (short(blocks_of(hs[0])), short(data))
        elif data:
            full += 1
            if not has_call(h, "replace") or not has_call(h, "tolowerinvariant") and not has_call(h, "tolower"):
                bad = "the hash is not plain lower-case hexadecimal"
    out.append(("the hash of what is sent", bad is None and full > 0, bad or "no path sends a file"))
    opened = {t for q in done for t in q.acts if isinstance(t, tuple) and t[0] in ("call", "static") and t[2] in ("openread", "open", "readallbytes")}
    out.append(("the file asked for", bool(opened) and all(mentions_arg(t, 0) for t in opened), "the file read is not the one asked for"))
    for flag in (True, False):
        bad, seen = None, 0
        for q in done:
            want = [b for k, b in q.conds if mentions_idx(k, 1)]
            seen += want[:1] == [flag]
            for t in q.acts:
                if isinstance(t, tuple) and t[0] in ("call", "static") and t[2] in ("openread", "open", "readallbytes") and want and want[0] == flag and has_call(t, "expandenvironmentvariables") != flag:
                    bad = "the path is %s" % ("not expanded" if flag else "expanded")
        out.append(("the path, %s" % ("expanded" if flag else "as given"), bad is None and seen > 0, bad or "the flag is not looked at"))
    thrown = [q for q in res if q.end == "throw"]
    out.append(("a directory or a missing file", len(thrown) >= 2 and not any(q.out for q in thrown), "is not refused, or something is sent first"))
    return out
