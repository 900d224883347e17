"""C27: every declared property of a wire object exists and has a unique wire name."""
import ast
import re

from .common import *
from ..loader import Class
from .c15 import serializer

TECHNIQUE = "static analysis: abstract construction and serialisation of every protocol object class, obligation per declared property"
GROUPS = ("_property_sets", "_adapted_properties", "_extended_properties")
SECTION = {"_property_sets": None, "_adapted_properties": "Props", "_extended_properties": "MS"}
MODES = {"new": "right after construction", "filled": "with a value that counts as false", "shared": "with an object another property holds too"}
CONTAINER = {"LST", "IE", "QUE", "STK", "DCT", "Obj", "ObjDynamic"}


def run(rep, repo, tier):
    rep.rule("exists", "every declared property can be read on a new instance", 200)
    rep.rule("unique", "no two properties of an object share a wire name, and every property that needs a name has one", 200)
    rep.rule("types", "the type names an object declares are the ones serialised, in that order", 30)
    rep.rule("emitted", "every declared property is serialised once, in its section, under its name and tag, whatever its value", 400)
    rep.rule("enum", "an enumeration names exactly the values it defines, each by its own name", 120)
    rep.rule("typeref", "in a document of several objects each object's type names are its own, given in full or by reference", 6)
    typerefs(rep, repo)
    w0 = World(rep, repo)
    for c in sorted(w0.p.all_classes(), key=lambda c: c.qual):
        if c.module.name in ("complex_objects", "messages") and is_wire(w0, c):
            judge(rep, repo, c)
    w0.done()
    enums(rep, repo)


def is_wire(w, c):
    ms = [x.qual if isinstance(x, Class) else x for x in w.p.mro(c)]
    return "complex_objects.ComplexObject" in ms


def real(rep, repo, cipher=T("nn", "cipher")):
    w = World(rep, repo)
    for m in ("serialize", "deserialize"):
        w.cfg.boundary.pop("serializer.Serializer." + m, None)
    st, ser = serializer(w, cipher)
    return w, st, ser


def make(I, p, st, qual, *args, **kw):
    for o in I.construct(st, p.cls(qual), list(args), kw):
        if o.sig == "return":
            return o.st, o.val
    raise AnalysisError("%s cannot be constructed" % qual)


def arguments(w, st, c):
    """[(st, args, kw)] the smallest arguments a new instance makes sense with"""
    I, p = w.I, w.p
    n = c.qual.split(".", 1)[1]
    if n in ("Pipeline", "Pipeline._ExtraCmds"):
        out = []
        for k in (1, 2):
            s = st.copy()
            cmds = []
            for i in range(k):
                s, x = make(I, p, s, "complex_objects.Command", cmd=K("c%d" % i), protocol_version=K("2.3"), is_script=FALSE, use_local_scope=NONE,
                            end_of_statement=TRUE)
                cmds.append(x)
            out.append((s, [], {"cmds": s.new(HList(cmds))}))
        return out
    if n == "Array":
        row = lambda: st.new(HList([K(0), K(1)]))
        return [(st, [], {"array": st.new(HList([row(), row()]))})]
    if n == "HostInfo":
        s = st.copy()
        s, h = host(w, s)
        return [(st, [], {"host": NONE}), (s, [], {"host": h})]
    if n == "_HostDefaultData":
        s, h = host(w, st)
        ui = s.heap[h.oid].attrs["ui"]
        return [(s, [], {"raw_ui": s.heap[ui.oid].attrs["raw_ui"]})]
    if n.startswith("_HostDefaultData.") and init_params(w, c):
        kind = {"_Color": "Color", "_Coordinates": "Coordinates", "_Size": "Size"}.get(c.name)
        if kind:
            s, x = make(I, p, st, "complex_objects." + kind, **({"value": K(0)} if kind == "Color" else {"x": K(0), "y": K(1)} if kind == "Coordinates" else
                                                                {"width": K(0), "height": K(1)}))
            return [(s, [x], {})]
    if n == "Command":
        return [(st.copy(), [], {"cmd": K("c"), "protocol_version": K(v)}) for v in ("2.1", "2.2", "2.3")]
    if n == "Enum":
        m = st.new(HDict([(K(0), K("Zero"))]))
        return [(st, [], {"enum_type": K("System.Some"), "string_map": m, "value": K(0)})]
    kw = {x: T("nn", "given " + x) for x in init_params(w, c)}
    if is_enum(w, c):
        v = first_value(w, c)
        if v is not None:
            kw["value"] = K(v)
    return [(st, [], kw)]


def is_enum(w, c):
    return any(b.qual == "complex_objects.Enum" for b in w.p.mro(c) if isinstance(b, Class))


def first_value(w, c):
    """a defined value of the enumeration, preferring 0"""
    vals = set(const_table(w.p, c.qual).values())
    for o in w.I.construct(State(), c, [], {}):
        for s, v in w.I.attr(o.st, o.val, "_string_map", None):
            if isinstance(v, Ref) and isinstance(s.heap.get(v.oid), HDict):
                vals |= {k.v for k, _ in s.heap[v.oid].items if isinstance(k, K)}
    return min(vals) if vals else None


def host(w, st):
    I = w.I
    s = st
    vals = {}
    for a, cn, kw in (("foreground_color", "Color", {"value": K(0)}), ("background_color", "Color", {"value": K(0)}),
                      ("cursor_position", "Coordinates", {"x": K(0), "y": K(0)}), ("window_position", "Coordinates", {"x": K(0), "y": K(0)}),
                      ("buffer_size", "Size", {"width": K(0), "height": K(0)}), ("window_size", "Size", {"width": K(0), "height": K(0)}),
                      ("max_window_size", "Size", {"width": K(0), "height": K(0)}), ("max_physical_window_size", "Size", {"width": K(0), "height": K(0)})):
        s, vals[a] = make(I, w.p, s, "complex_objects." + cn, **kw)
    raw = I.abs_inst(s, "host.PSHostRawUserInterface", "raw_ui", cursor_size=K(0), window_title=K(""), **vals)
    ui = I.abs_inst(s, "host.PSHostUserInterface", "ui", raw_ui=raw)
    h = I.abs_inst(s, "host.PSHost", "host", ui=ui)
    for x in (raw, ui, h):
        s.heap[x.oid] = s.heap[x.oid].with_(sym=False)
    return s, h


def init_params(w, c):
    """parameters without default of the constructor"""
    m = w.p.find_member(c, "__init__")
    if not m or m[0] != "method":
        return []
    a = m[1].node.args
    pos = a.posonlyargs + a.args
    req = [x.arg for x in pos[1:len(pos) - len(a.defaults)]]
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return req


def declared(I, st, ref):
    """[(group, attribute, meta ref)]"""
    out = []
    for g in GROUPS:
        for s, v in I.attr(st, ref, g, None):
            it = I.items_of(s, v)
            if it is None:
                raise AnalysisError("the declarations in %s are not decidable" % g)
            for pr in it:
                pair = I.items_of(s, pr)
                if pair is None or len(pair) != 2 or not isinstance(pair[0], K):
                    raise AnalysisError("a declaration in %s is not an (attribute, description) pair" % g)
                out.append((g, pair[0].v, pair[1]))
            break
    return out


def mattr(I, st, meta, name):
    v = st.heap[meta.oid].attrs.get(name)
    return v.v if isinstance(v, K) else v


def sample(w, st, meta):
    """a value for a property of this description that counts as false where there is one"""
    I = w.I
    tag = mattr(I, st, meta, "tag")
    if tag in ("I32", "I64", "U32", "U64", "U16", "I16", "By", "SB"):
        return st, K(0)
    if tag == "B":
        return st, FALSE
    if tag in ("S", "SS", "XD", "URI", "SBK", "DT", "TS", "Version"):
        return st, K("")
    if tag == "C":
        return st, K("\0")
    if tag in ("Sg", "Db", "D"):
        return st, K(0.0)
    if tag == "BA":
        return st, K(b"")
    if tag in ("LST", "IE", "STK"):
        return st, st.new(HList([]))
    if tag == "DCT":
        return st, st.new(HDict([]))
    if tag == "ObjDynamic":
        return make(I, w.p, st, "complex_objects.GenericComplexObject")
    oc = st.heap[meta.oid].attrs.get("object")
    if tag == "Obj" and isinstance(oc, ClsV):
        s, args, kw = arguments(w, st, oc.cls)[0]
        s, x = make(I, w.p, s, oc.cls.qual, *args, **kw)
        return s, x
    if tag in ("*", "Obj"):
        return st, K(0) if tag == "*" else None
    return st, None


def judge(rep, repo, c):
    w, st0, ser = real(rep, repo)
    I = w.I
    where = c.qual
    cases = arguments(w, st0, c)
    gone, seen_names, tybad, embad = {}, {}, None, {}
    n = 0
    for s, args, kw in cases:
        for o in I.construct(s, c, args, kw):
            if o.sig != "return":
                rep.ob("exists", False, where, "%s()" % c.name, "a new instance cannot be created: %s" % w.exc(o))
                continue
            n += 1
            st, ref = o.st, o.val
            decl = declared(I, st, ref)
            for g, a, m in decl:
                gone.setdefault(a, None)
                if not readable(I, st, ref, a):
                    gone[a] = "does not exist on a new instance"
            byname = {}
            for g, a, m in decl:
                nm = mattr(I, st, m, "name")
                byname.setdefault(nm, []).append((g, a))
            for g, a, m in decl:
                nm = mattr(I, st, m, "name")
                seen_names.setdefault((g, a), None)
                if nm is None and g != "_property_sets":
                    seen_names[(g, a)] = "has no wire name"
                elif nm is not None and len(byname[nm]) > 1:
                    seen_names[(g, a)] = "shares the wire name %s with %s" % (nm, ", ".join(x for _, x in byname[nm] if x != a) or "itself")
            for mode in ("new", "filled", "shared"):
                b = emission(w, st.copy(), ser, ref, decl, gone, mode)
                for k, v in b.items():
                    embad[k, mode] = embad.get((k, mode)) or v
            if c.qual != "complex_objects.GenericComplexObject":
                tybad = tybad or types(w, st.copy(), ser, ref)
    for a, b in sorted(gone.items()):
        rep.ob("exists", b is None, where, "%s.%s" % (c.name, a), b or "")
    for (g, a), b in sorted(seen_names.items()):
        rep.ob("unique", b is None, where, "%s.%s" % (c.name, a), b or "")
    rep.ob("types", tybad is None and n > 0, where, c.name, tybad or ("" if n else "no instance"))
    for (a, mode), b in sorted(embad.items()):
        rep.ob("emitted", b is None, where, "%s.%s, %s" % (c.name, a, MODES[mode]), b or "")
    w.done()


def readable(I, st, ref, a):
    s = st.copy()
    if isinstance(s.heap.get(ref.oid), HInst):
        s.heap[ref.oid] = s.heap[ref.oid].with_(sym=False)
    outs = I.attr(s, ref, a, None)
    return bool(outs) and not any(isinstance(v, Raised) for _, v in outs)


def declared_types(w, st, ref):
    """the lists of type names the instance carries: (attribute, [names])"""
    out = []
    for a, v in st.heap[ref.oid].attrs.items():
        it = w.I.items_of(st, v) if isinstance(v, Ref) and isinstance(st.heap[v.oid], HList) else None
        if it and all(isinstance(x, K) and isinstance(x.v, str) for x in it) and \
                all(re.match(r"^[A-Z]\w*(\.[A-Za-z_]\w*)+", x.v) for x in it):
            out.append((a, [x.v for x in it]))
    return out


def xml_children(I, st, x):
    return [y for y in st.heap[x.oid].children]


def types(w, st, ser, ref):
    want = declared_types(w, st, ref)
    if len(want) > 1:
        return "declares type names twice: %s" % ", ".join(a for a, _ in want)
    outs = w.I.call_method(st, ser, "serialize", [ref], {})
    if not outs:
        return "no path"
    for o in outs:
        if o.sig != "return" or not isinstance(o.val, Ref):
            return "cannot be serialised: %s" % (w.exc(o) or o.sig)
        got = []
        tn = [k for k in xml_children(w.I, o.st, o.val) if o.st.heap[k.oid].tag in (K("TN"), K("TNRef"))]
        if len(tn) > 1:
            return "has %d type name elements" % len(tn)
        for k in tn:
            got = [o.st.heap[y.oid].text for y in xml_children(w.I, o.st, k)]
        exp = [K(x) for x in (want[0][1] if want else [])]
        if got != exp:
            return "declares the types %s but %s" % ([x.v for x in exp], "serialises %s" % [getattr(x, "v", "?") for x in got] if got else "serialises none")
    return None


TYPES = {"A, X": ["Ns.A", "Ns.X"], "A, Y": ["Ns.A", "Ns.Y"], "B, X": ["Ns.B", "Ns.X"], "A": ["Ns.A"], "none": []}


def typerefs(rep, repo):
    """every ordered choice of three objects, the first one repeated"""
    for first in TYPES:
        for second in TYPES:
            w, st, ser = real(rep, repo)
            I = w.I
            want, xs = [], []
            for k in (first, second, first):
                st, x = make(I, w.p, st, "complex_objects.GenericComplexObject")
                I.setattr_(st, x, "types", st.new(HList([K(t) for t in TYPES[k]])))
                xs.append(x)
                want.append(TYPES[k])
            bad, n = None, 0
            for o in I.call_method(st, ser, "serialize", [st.new(HList(xs))], {}):
                n += 1
                if o.sig != "return" or not isinstance(o.val, Ref):
                    bad = "cannot be serialised: %s" % (w.exc(o) or o.sig)
                    continue
                defs, got = {}, []
                for node in preorder(o.st.heap, o.val):
                    t = o.st.heap[node.oid].tag
                    if t == K("Obj"):
                        got.append((node, None))
                    elif t in (K("TN"), K("TNRef")):
                        rid = dict_text(o.st.heap, o.st.heap[node.oid], "RefId")
                        if t == K("TN"):
                            if rid in defs:
                                bad = "two TN elements have the RefId %s" % rid
                            defs[rid] = [getattr(o.st.heap[y.oid].text, "v", None) for y in o.st.heap[node.oid].children]
                        elif rid not in defs:
                            bad = "a TNRef to %s, which is not defined before" % rid
                        if got:
                            got[-1] = (got[-1][0], defs.get(rid))
                got = [t or [] for _, t in got[1:]]
                if bad is None and got != want:
                    bad = "are serialised as %s" % got
            rep.ob("typeref", bad is None and n > 0, "Serializer._create_tn", "objects of the types %s / %s / %s" % (first, second, first), bad or "no path")
            w.done()


def preorder(H, x):
    yield x
    for y in H[x.oid].children:
        if isinstance(y, Ref) and isinstance(H.get(y.oid), HXml):
            yield from preorder(H, y)


def emission(w, st, ser, ref, decl, gone, mode):
    """{attribute: complaint or None} of serialising this instance"""
    I = w.I
    res = {a: None for _, a, _ in decl}
    if any(gone.get(a) for _, a, _ in decl):
        return {a: ("cannot be serialised: %s" % gone[a]) if gone.get(a) else None for _, a, _ in decl}
    if mode == "shared":
        st, v = make(I, w.p, st, "complex_objects.GenericComplexObject")
        free = [a for g, a, m in decl if mattr(I, st, m, "tag") in ("*", "ObjDynamic") and not is_prop(w, st, ref, a)]
        if len(free) < 2:
            return {}
        for a in free:
            I.setattr_(st, ref, a, v)
    if mode == "filled":
        for g, a, m in decl:
            cls = st.heap[ref.oid].cls
            if is_prop(w, st, ref, a):
                continue
            st, v = (st, K(first_value(w, cls))) if a == "value" and is_enum(w, cls) and first_value(w, cls) is not None else sample(w, st, m)
            if v is not None:
                I.setattr_(st, ref, a, v)
    vals = {}
    for g, a, m in decl:
        for s, v in I.attr(st.copy(), ref, a, None):
            vals[a] = v
    meta = {a: (g, mattr(I, st, m, "name"), mattr(I, st, m, "tag"), mattr(I, st, m, "optional"), m) for g, a, m in decl}
    outs = I.call_method(st, ser, "serialize", [ref], {})
    if not outs:
        return {a: "no path" for a in res}
    for o in outs:
        if o.sig != "return" or not isinstance(o.val, Ref):
            for a in res:
                res[a] = "the object cannot be serialised: %s" % (w.exc(o) or o.sig)
            return res
        H = o.st.heap
        top = [H[k.oid] for k in H[o.val.oid].children]
        sect = {}
        for k in top:
            if isinstance(k.tag, K) and k.tag.v in ("MS", "Props"):
                if k.tag.v in sect:
                    return {a: "the %s section occurs twice" % k.tag.v for a in res}
                sect[k.tag.v] = [H[y.oid] for y in k.children]
        sect[None] = [k for k in top if isinstance(k.tag, K) and k.tag.v not in ("MS", "Props", "TN", "TNRef", "ToString")]
        for a, (g, nm, tag, opt, m) in meta.items():
            kids = sect.get(SECTION[g], [])
            mine = [k for k in kids if dict_text(H, k, "N") == nm] if nm is not None else kids
            none = vals.get(a) == NONE
            if none and opt:
                if mine:
                    res[a] = "is optional and not set but serialised"
                continue
            if len(mine) != 1:
                res[a] = "is serialised %d times in its section under the name %s" % (len(mine), nm)
                continue
            got = mine[0].tag.v if isinstance(mine[0].tag, K) else None
            if none:
                ok = got == "Nil"
            elif tag == "*":
                ok = got != "Nil"
            elif tag in CONTAINER:
                ok = got in ("Obj", "Ref")
            else:
                ok = got == tag
            if not ok:
                res[a] = "is serialised with the tag %s, declared %s%s" % (got, tag, ", value None" if none else "")
            elif not none and got not in ("Obj", "Ref", "Nil") and mine[0].text == NONE:
                res[a] = "is serialised without its value"
    return res


def is_prop(w, st, ref, a):
    m = w.p.find_member(st.heap[ref.oid].cls, a)
    return bool(m) and m[0] == "prop"


def dict_text(H, x, key):
    d = H.get(x.attrib.oid) if isinstance(x.attrib, Ref) else None
    if isinstance(d, HDict):
        for k, v in d.items:
            if k == K(key):
                return v.v if isinstance(v, K) else v
    return None


# ------------------------------------------------------------------------------------------------------------------ enumerations
def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def name_of(w, st, c, value, kw=None):
    """the possible names of the value: list of texts or ('raise', exception)"""
    out = []
    for o in w.I.construct(st.copy(), c, [] if kw is not None else [K(value)], dict(kw, value=K(value)) if kw is not None else {}):
        if o.sig != "return":
            out.append(("raise", w.exc(o)))
            continue
        if kw is not None:
            for s, v in w.I.attr(o.st, o.val, "_to_string", None):
                out.append(("raise", str(v)) if isinstance(v, Raised) else v.v if isinstance(v, K) else v)
        else:
            for p in w.I.call_method(o.st, o.val, "__str__", [], {}):
                out.append(p.val.v if p.sig == "return" and isinstance(p.val, K) else ("raise", w.exc(p)) if p.sig == "raise" else p.val)
    return out


def enums(rep, repo):
    w, st, _ = real(rep, repo)
    n = 0
    for c in sorted(w.p.all_classes(), key=lambda c: c.qual):
        bases = [x.qual for x in w.p.mro(c) if isinstance(x, Class)]
        plain = c.qual in ("complex_objects.RunspacePoolState", "complex_objects.PSInvocationState")
        if c.qual == "complex_objects.Enum" or not (plain or "complex_objects.Enum" in bases):
            continue
        n += 1
        consts = const_table(w.p, c.qual)
        kw = None if plain else {}
        flags = bool(consts) and is_flags(consts)
        table = None
        if not plain:
            for o in w.I.construct(st.copy(), c, [], {}):
                for s, v in w.I.attr(o.st, o.val, "_string_map", None):
                    table = s.heap.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(table, HDict):
            keys = {k.v for k, _ in table.items if isinstance(k, K)}
            names = [v.v for _, v in table.items if isinstance(v, K)]
            rep.ob("enum", len(set(names)) == len(names) == len(table.items), c.qual, "%s: one name per value" % c.name, "two values have the same name")
            if consts and table.items:
                rep.ob("enum", keys == set(consts.values()), c.qual, "%s: the values" % c.name, "names %s, defines %s" % (sorted(keys), sorted(consts.values())))
        for cn, v in sorted(consts.items()):
            got = name_of(w, st, c, v, kw)
            bad = None
            if not got:
                bad = "no path"
            for g in got:
                if not isinstance(g, str):
                    bad = "has no name: %s" % (g,)
                elif norm(g) != norm(cn):
                    bad = "is named %s" % g
            rep.ob("enum", bad is None, c.qual, "%s.%s" % (c.name, cn), bad or "")
        if flags:
            single = sorted(v for v in consts.values() if v & (v - 1) == 0)
            full = max(consts.values())
            for i, a in enumerate(single):
                for b in single[i + 1:]:
                    if a | b in consts.values() or a | b > full:
                        continue
                    got = name_of(w, st, c, a | b, kw)
                    ns = [k for k in consts if consts[k] in (a, b)]
                    ok = bool(got) and all(isinstance(g, str) and sorted(norm(x) for x in g.split(",")) == sorted(norm(k) for k in ns) for g in got)
                    rep.ob("enum", ok, c.qual, "%s: %s" % (c.name, " and ".join(sorted(ns))), "is named %s" % (got[:2],))
        elif consts:
            for v in (max(consts.values()) + 1, -1):
                got = name_of(w, st, c, v, kw)
                ok = bool(got) and all(isinstance(g, tuple) and g[0] == "raise" for g in got)
                rep.ob("enum", ok, c.qual, "%s: the undefined value %s" % (c.name, "past the last" if v > 0 else "-1"), "is named %s" % (got[:2],))
    w.done()


def is_flags(consts):
    vals = set(consts.values())
    return len(vals) > 3 and 0 not in vals and all(v & (v - 1) == 0 or v == max(vals) for v in vals)
