"""C13: pipeline input always ends with exactly one end-of-input."""
from ..values import HGen
from .common import *

TECHNIQUE = "static analysis: path enumeration of begin_invoke/invoke over the shapes of input, reading the sequence of input messages fragmented and sent"
A, B, C = (T("in_", "item%d" % i) for i in range(3))


def gen(*items):
    """items: terms, or lists of terms (a list yielded by the generator)"""
    def make(I, st):
        vals = tuple(st.new(HList(list(x))) if isinstance(x, list) else x for x in items)
        flat = [y for x in items for y in (x if isinstance(x, list) else [x])]
        return st.new(HGen(None, None, vals, 0)), flat
    return make


def lst(*items):
    return lambda I, st: (st.new(HList(list(items))), list(items))


def one(x):
    return lambda I, st: (x, [x])


CASES = {
    "a list of one": lst(A), "a list of two": lst(A, B), "a list of three": lst(A, B, C), "an empty list": lst(), "a list holding None": lst(NONE),
    "a list ending in None": lst(A, NONE),
    "a generator of one": gen(A), "a generator of two": gen(A, B), "a generator of three": gen(A, B, C), "an empty generator": gen(),
    "a generator yielding None": gen(A, NONE, B), "a generator starting with None": gen(NONE, A), "a generator ending with None": gen(A, NONE),
    "a generator of lists": gen([A, B], [C]), "a generator with an empty list": gen([], A), "a generator ending with an empty list": gen(A, []),
    "a single object": one(A), "zero": one(K(0)), "false": one(FALSE), "an empty string": one(K("")), "a string": one(K("text")), "empty bytes": one(K(b"")),
}


def run(rep, repo, tier):
    rep.rule("create", "the pipeline is created expecting input exactly when input is given", len(CASES) + 4)
    rep.rule("items", "every input object is sent once and in order, as the data of an input message", len(CASES) - 2)
    rep.rule("end", "exactly one end-of-input message is sent, after the last input object", len(CASES) - 2)
    rep.rule("none", "without input nothing follows the creation of the pipeline", 2)
    for meth in ("begin_invoke", "invoke"):
        for label, mk in CASES.items():
            if meth == "invoke" and tier == "quick" and label not in ("a list of two", "a generator yielding None", "zero", "an empty generator"):
                continue
            judge(rep, repo, meth, label, mk)
        judge(rep, repo, meth, "no input", None)


def msgs_of(ev):
    """messages of a fragment()/fragment_multiple() event, in order (frozen instances)"""
    for k in ("blocks", "data"):
        v = ev.arg(None, k)
        if v is None:
            continue
        out = []

        def walk(x):
            if isinstance(x, T) and x.op == "inst":
                out.append(x)
            elif isinstance(x, T) and x.op in ("list", "tuple"):
                for y in x.args:
                    if isinstance(y, tuple):
                        for z in y:
                            walk(z)
                    else:
                        walk(y)
            else:
                out.append(x)
        walk(v)
        return out
    return []


def attr_of(inst, name):
    for k, v in inst.args[2]:
        if k == name:
            return v
    return None


def judge(rep, repo, meth, label, mk):
    w = World(rep, repo)
    w.model_fragmenter((1, 2))
    w.shallow_messages()
    w.model_replies([[("PipelineState", {"state": K(w.ps_states["COMPLETED"]), "error_record": NONE})]])
    w.cfg.while_max = 8
    I = w.I
    st = State()
    pool = w.pool(st)
    ps = w.ps(st, pool, K(w.ps_states["NOT_STARTED"]), _from_disconnect=FALSE)
    I.setattr_(st, ps, "commands", st.new(HList([I.abs_inst(st, "complex_objects.Command", "cmd", root=False)])))
    st.facts[T("isnone", A)] = False
    for x in (A, B, C):
        for k in ("list", "generator"):
            st.facts[T("isinst", x, (k,))] = False
    args, want = [], []
    if mk is not None:
        v, want = mk(I, st)
        args = [v]
    outs = I.call_method(st, ps, meth, args)
    where, con = "PowerShell.%s" % meth, "%s: %s" % (meth, label)
    create = items = end = none = None
    n = 0
    for o in outs:
        if o.sig != "return":
            # input that cannot be sent at all would be a failure of its own
            m = "%s instead of completing" % w.exc(o)
            items = items or m
            end = end or m
            continue
        n += 1
        evs = [e for e in o.events if e.kind == "pkg" and e.name.startswith("powershell.Fragmenter.fragment")]
        seq = []
        created = None
        for e in evs:
            for m in msgs_of(e):
                cls = m.args[0].rsplit(".", 1)[-1] if isinstance(m, T) and m.op == "inst" else None
                if cls == "CreatePipeline":
                    created = attr_of(m, "no_input")
                elif cls == "PipelineInput":
                    seq.append(("item", attr_of(m, "data")))
                elif cls == "EndOfPipelineInput":
                    seq.append(("end", None))
                elif cls is not None:
                    continue
                else:
                    seq.append(("?", m))
        # the fragments sent, in order, name the messages they belong to
        sent = []
        for e in w.wires(o):
            if e.name == "shell.WinRS.send":
                for a in list(e.fargs) + [x for _, x in e.fkw]:
                    sent += [t for t in subterms(a) if isinstance(t, T) and t.op == "frag"][:1]
        made = [e for e in evs if not any(m.args[0].endswith("CreatePipeline") for m in msgs_of(e) if isinstance(m, T) and m.op == "inst")]
        expect = [T("frag", e.tok[0], i, e.tok[1], e.arg(None, "blocks") if e.arg(None, "blocks") is not None else e.arg(None, "data"))
                  for e in made if getattr(e, "tok", None) for i in range(e.tok[1])]
        own = set(e.tok[0] for e in made if getattr(e, "tok", None))
        sent = [t for t in sent if t.args[0] in own or t.args[0] not in [e.tok[0] for e in evs if getattr(e, "tok", None)]]
        if isinstance(created, T) and created in o.st.facts:
            created = K(o.st.facts[created])
        b = created if isinstance(created, K) else None
        if mk is None:
            if b is None or b.v is not True:
                create = "created with no_input=%r although no input is given" % (created,)
            if seq or sent:
                none = "input messages are sent although no input is given"
            continue
        if b is None or b.v is not False:
            create = "created with no_input=%r although input is given" % (created,)
        got = [d for k, d in seq if k == "item"]
        fz = [I.freeze(o.st, x) for x in want]
        if got != fz:
            items = "%d of %d objects are sent%s" % (len(got), len(fz), "" if len(got) != len(fz) else " out of order or altered")
        ends = [i for i, (k, _) in enumerate(seq) if k == "end"]
        if len(ends) != 1:
            end = "%d end-of-input messages are sent" % len(ends)
        elif ends[0] != len(seq) - 1:
            end = "an input object follows the end-of-input message"
        if [(t.args[0], t.args[1]) for t in sent] != [(t.args[0], t.args[1]) for t in expect]:
            end = end or "the fragments of the input messages are not sent once and in order"
    if not n:
        m = "no path completes"
        create, items, end, none = create or m, items or m, end or m, none or m
    if I.cut and mk is not None and meth == "begin_invoke":
        end = end or "input is sent without end"
    rep.ob("create", create is None, where, con, create or "")
    if mk is None:
        rep.ob("none", none is None, where, con, none or "")
    else:
        rep.ob("items", items is None, where, con, items or "")
        rep.ob("end", end is None, where, con, end or "")
    w.done()
