"""C29: type descriptions stay as they are, values and documents stay independent."""
from .common import *
from .c27 import arguments, declared, is_wire, make, mattr, preorder, real
from .c28 import back, filled, there, wide

TECHNIQUE = "static analysis: abstract serialisation and deserialisation with the heap compared before and after, and every element compared with the same element on its own"
GROUPS_ = ("_adapted_properties", "_extended_properties", "_property_sets")


def run(rep, repo, tier):
    rep.rule("caller", "the type description given by the caller is as it was after serialising or deserialising with it", 20)
    rep.rule("declared", "the property declarations of an object are as they were after serialising it, and those of an object read are those of its class", 40)
    rep.rule("value", "a value is as it was after serialising it, and serialised again gives the same document", 12)
    rep.rule("element", "an element is emitted and read as on its own, whatever elements come before it", 200)
    rep.rule("property", "a property is emitted by the type of its value, whatever values objects of the class had before", 8)
    rep.rule("document", "references resolve only within the document they occur in", 8)
    rep.rule("alias", "objects read share no list or dictionary unless the document says they are one object", 4)
    callers(rep, repo)
    declarations(rep, repo)
    values(rep, repo)
    elements(rep, repo, tier)
    properties(rep, repo)
    documents(rep, repo)
    aliases(rep, repo)


# ------------------------------------------------------------------------------------------------------------------ helpers
def shape(st, v, seen=()):
    """structure of a value without identities"""
    if isinstance(v, T):
        return ("term", v.op) + tuple(shape(st, x, seen) for x in v.args)
    if isinstance(v, tuple):
        return tuple(shape(st, x, seen) for x in v)
    if not isinstance(v, Ref):
        return v
    if v.oid in seen:
        return ("again", len(seen) - seen.index(v.oid))
    h, s = st.heap.get(v.oid), seen + (v.oid,)
    if isinstance(h, HInst):
        return ("inst", getattr(h.cls, "qual", str(h.cls)), tuple(sorted((k, shape(st, x, s)) for k, x in h.attrs.items() if k != "_xml")))
    if isinstance(h, HList):
        return ("list",) + tuple(shape(st, x, s) for x in h.items)
    if isinstance(h, HDict):
        return ("dict",) + tuple((shape(st, k, s), shape(st, x, s)) for k, x in h.items)
    if isinstance(h, HXml):
        return ("xml", h.tag, h.text, shape(st, h.attrib, s) if not isinstance(h.attrib, dict) else tuple(sorted(h.attrib.items())), tuple(shape(st, c, s) for c in h.children))
    return (type(h).__name__,)


def plain(x, ids=None):
    """an emitted element without the numbers of its references, which count from the start of the document"""
    ids = {} if ids is None else ids
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == K("RefId") or len(x) == 2 and x[0] == "RefId":
            return (x[0], "#")
        return tuple(plain(y) for y in x)
    return x


def kinds(w, st):
    """[(name, state, value)] one of each kind of value"""
    I, p, out = w.I, w.p, []
    for con, v in (("text", K("a_x0041_")), ("int", K(7)), ("bool", TRUE), ("float", K(1.5)), ("bytes", K(b"\1")), ("None", NONE)):
        out.append((con, v))
    out.append(("list", st.new(HList([K("x"), K(1)]))))
    out.append(("dict", st.new(HDict([(K("k"), K(2))]))))
    st, g = make(I, p, st, "complex_objects.GenericComplexObject")
    I.setattr_(st, g, "adapted_properties", st.new(HDict([(K("P"), K("v"))])))
    out.append(("dynamic object", g))
    st, c = make(I, p, st, "complex_objects.Coordinates", x=K(1), y=K(2))
    out.append(("protocol object", c))
    st, e = make(I, p, st, "complex_objects.Color", value=K(3))
    out.append(("enumeration", e))
    st, t = make(I, p, st, "serializer.TaggedValue", K("U64"), K(9))
    out.append(("tagged value", t))
    st, t = make(I, p, st, "serializer.TaggedValue", K("Version"), K("1.2"))
    out.append(("tagged version", t))
    return st, out


def metas(w, st):
    I, p = w.I, w.p
    out = [("none", None)]
    for con, qual, kw in (("any", "ObjectMeta", {}), ("any, named", "ObjectMeta", {"name": K("N")}), ("a list", "ListMeta", {}), ("a stack", "StackMeta", {}), ("a dictionary", "DictionaryMeta", {}),
                          ("an IE", "ListMeta", {"obj_type": K("IE")})):
        st, m = make(I, p, st, "complex_objects." + qual, **kw)
        out.append((con, m))
    return st, out


def fits(con, kind):
    return {"none": True, "any": True, "any, named": True}.get(con, kind == ("dict" if "dict" in con else "list"))


# ------------------------------------------------------------------------------------------------------------------ rules
def callers(rep, repo):
    w, st0, ser = wide(rep, repo)
    st0, ks = kinds(w, st0)
    st0, ms = metas(w, st0)
    for mc, m in ms:
        if m is None:
            continue
        for kc, v in ks:
            if not fits(mc, kc):
                continue
            bad = None
            before = shape(st0, m)
            for s, el, b in there(w, st0.copy(), ser, v, m):
                if b:
                    bad = b
                    continue
                if shape(s, m) != before:
                    bad = "serialising changes the description: %s" % diff(before, shape(s, m))
                for s2, r, b2 in back(w, s, ser, el, m):
                    if b2:
                        bad = bad or b2
                    elif shape(s2, m) != shape(s, m):
                        bad = bad or "deserialising changes the description: %s" % diff(shape(s, m), shape(s2, m))
            rep.ob("caller", bad is None, "Serializer.serialize/deserialize", "%s described as %s" % (kc, mc), bad or "")
    w.done()


def diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else "%s became %s (in %s)" % (x, y, str(a[0])[:40])
    return "%s became %s" % (str(a)[:80], str(b)[:80])


def decls(w, st, ref):
    return tuple((g, shape(st, st.heap[ref.oid].attrs.get(g))) for g in GROUPS_)


def declarations(rep, repo):
    w0 = World(rep, repo)
    for c in sorted(w0.p.all_classes(), key=lambda c: c.qual):
        if c.module.name not in ("complex_objects", "messages") or not is_wire(w0, c) or c.name in ("GenericComplexObject", "Enum"):
            continue
        w, st, ser = wide(rep, repo)
        I = w.I
        bad, n = None, 0
        st, args, kw = arguments(w, st, c)[0]
        for o in I.construct(st, c, args, kw):
            if o.sig != "return":
                continue
            st, ref = o.st, o.val
            fresh = decls(w, st, ref)
            for g, a, m in declared(I, st, ref):
                if a in c.methods or any(a in k.methods for k in w.p.mro(c) if hasattr(k, "methods")):
                    continue
                st, v = filled(w, st, m, True)
                if v is not None and not (a == "value" and any(getattr(k, "name", "") == "Enum" for k in w.p.mro(c))):
                    I.setattr_(st, ref, a, v)
            before = decls(w, st, ref)
            for s, el, b in there(w, st.copy(), ser, ref):
                if b:
                    continue
                n += 1
                if decls(w, s, ref) != before:
                    bad = "serialising changes the declarations: %s" % diff(before, decls(w, s, ref))
                s.heap[ser.oid].attrs["cipher"] = NONE
                s, m = make(I, w.p, s, "complex_objects.ObjectMeta", K("Obj"), object=ClsV(c))
                mb = shape(s, m)
                for s2, r, b2 in back(w, s, ser, el, m):
                    h = s2.heap.get(r.oid) if b2 is None and isinstance(r, Ref) else None
                    if not isinstance(h, HInst) or h.cls is not c:
                        continue
                    n += 1
                    if shape(s2, m) != mb:
                        bad = bad or "deserialising changes the description: %s" % diff(mb, shape(s2, m))
                    if decls(w, s2, r) != fresh and not args and not kw:
                        bad = bad or "deserialising changes the declarations: %s" % diff(fresh, decls(w, s2, r))
        rep.ob("declared", bad is None, "Serializer.serialize/deserialize", c.name, bad or "")
        w.done()
    w0.done()


def values(rep, repo):
    w, st0, ser = wide(rep, repo)
    st0, ks = kinds(w, st0)
    s1 = st0.copy()
    mixed = s1.new(HList([v for _, v in ks]))
    cases = [(con, st0, v, None) for con, v in ks] + [("list of everything", s1, mixed, None)]
    for mc, qual in (("stack", "StackMeta"), ("list", "ListMeta")):
        s2 = s1.copy()
        s2, m = make(w.I, w.p, s2, "complex_objects." + qual)
        cases.append(("list of everything as a %s" % mc, s2, mixed, m))
    for con, st, v, m in cases:
        bad = None
        before = shape(st, v)
        for s, el, b in there(w, st.copy(), ser, v, m):
            if b:
                bad = b
                continue
            if shape(s, v) != before:
                bad = "is changed: %s" % diff(before, shape(s, v))
            one = shape(s, el)
            bad = bad or numbers(s, el)
            for s2, el2, b2 in there(w, s, ser, v, m):
                if b2 or shape(s2, el2) != one:
                    bad = bad or b2 or "is emitted differently the second time: %s" % diff(one, shape(s2, el2))
        rep.ob("value", bad is None, "Serializer.serialize", con, bad or "")
    w.done()
    # an XML element given as a value may be used more than once
    for con in ("two properties", "a named and an unnamed use"):
        w, st, ser = wide(rep, repo)
        I = w.I
        x = I.xml(st, "S", text=K("v"))
        st, g = make(I, w.p, st, "complex_objects.GenericComplexObject")
        I.setattr_(st, g, "adapted_properties", st.new(HDict([(K("A"), x)] + ([(K("B"), x)] if con == "two properties" else []))))
        if con != "two properties":
            I.setattr_(st, g, "property_sets", st.new(HList([x])))
        bad = None
        before = shape(st, x)
        for s, el, b in there(w, st, ser, g):
            if b:
                bad = b
                continue
            got = []
            for n in preorder(s.heap, el):
                h = s.heap[n.oid]
                if h.tag == K("S"):
                    got.append(name_of(s, h))
            want = ["A", "B"] if con == "two properties" else [None, "A"]
            if got != want:
                bad = "the uses are named %s, not %s" % (got, want)
            if shape(s, x) != before:
                bad = bad or "the element given is changed"
        rep.ob("value", bad is None, "Serializer.serialize", "an XML element as %s" % con, bad or "")
        w.done()


def name_of(st, h):
    from .c27 import dict_text
    x = dict_text(st.heap, h, "N")
    return x


def alone(w, st, ser, v, m=None):
    out = []
    for s, el, b in there(w, st.copy(), ser, v, m):
        out.append(b or plain(shape(s, el)))
    return out


def elements(rep, repo, tier):
    w, st0, ser = wide(rep, repo)
    st0, ks = kinds(w, st0)
    solo = {con: alone(w, st0, ser, v) for con, v in ks}
    for cont in ("list", "IE", "stack", "dictionary"):
        for fc, fv in ks:
            for sc, sv in ks:
                st = st0.copy()
                m = None
                if cont == "dictionary":
                    v = st.new(HDict([(K("1"), fv), (K("2"), sv)]))
                else:
                    v = st.new(HList([sv, fv] if cont == "stack" else [fv, sv]))
                    st, m = make(w.I, w.p, st, "complex_objects." + ("StackMeta" if cont == "stack" else "ListMeta"), **({"obj_type": K("IE")} if cont == "IE" else {}))
                bad = None
                for s, el, b in there(w, st, ser, v, m):
                    if b:
                        bad = b
                        continue
                    bad = numbers(s, el)
                    got = [n for n in elems(s, el, cont)]
                    want = solo[sc][0]
                    if len(got) != 2:
                        bad = "%d elements are emitted" % len(got)
                    elif not alike_xml(shape(s, got[1]), want):
                        bad = "is emitted as %s, on its own as %s" % (brief(shape(s, got[1])), brief(want))
                rep.ob("element", bad is None, "Serializer.serialize", "%s after %s in a %s" % (sc, fc, cont), bad or "")
    # reading
    xs, leaks = [], []
    I = w.I
    for con, v in ks:
        for s, el, b in there(w, st0, ser, v):
            if not b:
                st0 = s
                xs.append((con, el, shape_read(w, s, ser, el)))
    u = I.xml(st0, "Obj", {"RefId": K("90")}, children=[I.xml(st0, "MS", children=[I.xml(st0, "S", {"N": K("n")}, text=K("v"))])])
    xs.append(("object without type names", u, shape_read(w, st0, ser, u)))
    for tn, tag in (("System.Object[]", "LST"), ("System.Collections.ArrayList", "LST"), ("System.Collections.ArrayList", "IE"), ("System.Collections.Stack", "STK"), ("System.Collections.Queue", "QUE"),
                    ("System.Collections.Hashtable", "DCT")):
        for fc, fx, fr in xs:
            for sc, sx, sr in xs:
                if tag == "QUE":
                    continue
                s = st0.copy()
                ids = {}
                a, b = clone(I, s, fx, ids, 100), clone(I, s, sx, ids, 200)
                if tag == "DCT":
                    kids = []
                    for k, x in (("1", a), ("2", b)):
                        key = I.xml(s, "S", {"N": K("Key")}, text=K(k))
                        named(s, x, "Value")
                        kids.append(I.xml(s, "En", children=[key, x]))
                else:
                    kids = [a, b]
                el = I.xml(s, "Obj", {"RefId": K("0")}, children=[I.xml(s, "TN", {"RefId": K("99")}, children=[I.xml(s, "T", text=K(tn))]), I.xml(s, tag, children=kids)])
                bad, raw = None, True
                for s2, r, b2 in back(w, s, ser, el):
                    h = s2.heap.get(r.oid) if b2 is None and isinstance(r, Ref) else None
                    got = [x for _, x in h.items] if isinstance(h, HDict) else list(h.items) if isinstance(h, HList) else None
                    if b2 or got is None or len(got) != 2:
                        bad = b2 or "are read back as %s" % str(I.freeze(s2, r))[:80]
                        continue
                    y = shape(s2, got[1])
                    raw = raw and not isinstance(got[1], Ref) and "ET.tostring" in str(got[1])
                    if y not in sr and plain(y) not in [plain(z) for z in sr]:
                        bad = "is read as %s, on its own as %s" % (brief(y), brief(sr[0]))
                # one cause, listed as one finding: the tag of the first element stays in the description all elements share
                if bad and tn == "System.Collections.ArrayList" and sc in ("dynamic object", "object without type names") and fc in PRIMITIVE and raw:
                    leaks.append("%s after %s in a %s" % (sc, fc, tag))
                    continue
                rep.ob("element", bad is None, "Serializer.deserialize", "%s after %s in a %s of %s" % (sc, fc, tag, tn), bad or "")
    rep.ob("element", not leaks, "Serializer._deserialize_list_values", "an object without type names after a primitive element, in a list whose elements have no declared type",
           "is read as its XML text, on its own as an object: %d combinations, e.g. %s" % (len(leaks), leaks[:1]))
    w.done()


PRIMITIVE = ("text", "int", "bool", "float", "bytes", "None", "tagged value", "tagged version")


def numbers(st, el):
    """complaint about the reference numbers of a document"""
    objs, tns = set(), {}
    for n in preorder(st.heap, el):
        h = st.heap[n.oid]
        r = h_attr(st, h, "RefId")
        if h.tag == K("Obj"):
            if r is None or r in objs:
                return "two objects of the document have the number %s" % r
            objs.add(r)
        elif h.tag == K("TN"):
            if r is None or r in tns:
                return "two lists of type names of the document have the number %s" % r
            tns[r] = h
        elif h.tag == K("TNRef") and r not in tns or h.tag == K("Ref") and r not in objs:
            return "%s %s refers to nothing earlier in the document" % (h.tag, r)
    return None


def shape_read(w, st, ser, el):
    return [b or shape(s, r) for s, r, b in back(w, st.copy(), ser, el)]


def clone(I, st, x, ids, base):
    """a copy of an emitted element with its own reference numbers"""
    h = st.heap[x.oid]
    a = {}
    for n in ("RefId", "N"):
        v = h_attr(st, h, n)
        if v is not None:
            a[n] = K(str(int(v.v) + base)) if n == "RefId" else v
    return I.xml(st, h.tag.v, a, text=h.text, children=[clone(I, st, c, ids, base) for c in h.children])


def h_attr(st, h, n):
    d = h.attrib
    if isinstance(d, dict):
        return d.get(n)
    o = st.heap.get(d.oid) if isinstance(d, Ref) else None
    for k, v in (o.items if isinstance(o, HDict) else ()):
        if k == K(n):
            return v
    return None


def named(st, x, name):
    h = st.heap[x.oid]
    d = h.attrib
    o = st.heap[d.oid]
    st.heap[d.oid] = HDict([kv for kv in o.items if kv[0] != K("N")] + [(K("N"), K(name))])


def elems(st, el, cont):
    tag = {"list": "LST", "IE": "IE", "stack": "STK", "dictionary": "DCT"}[cont]
    for c in st.heap[el.oid].children:
        if st.heap[c.oid].tag == K(tag):
            if cont != "dictionary":
                return list(st.heap[c.oid].children)
            return [st.heap[e.oid].children[1] for e in st.heap[c.oid].children]
    return []


def alike_xml(a, b):
    """equal but for reference numbers, names and type names that are only referred to"""
    a, b = plain(a), plain(b)
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "xml" == b[0]):
        return a == b
    if a[1] in (K("TN"), K("TNRef")) and b[1] in (K("TN"), K("TNRef")):
        return True
    if a[1] == K("Ref") or b[1] == K("Ref"):
        return True
    return a[1] == b[1] and a[2] == b[2] and len(a[4]) == len(b[4]) and all(alike_xml(x, y) for x, y in zip(a[4], b[4]))


def brief(x):
    return "%s" % str(x[1:4] if isinstance(x, tuple) and x and x[0] in ("xml", "inst") else x)[:90]


def properties(rep, repo):
    """the same object, and another of its class, with values of different types in a property of any type"""
    w, st0, ser = wide(rep, repo)
    I = w.I
    found = 0
    for c in sorted(w.p.all_classes(), key=lambda c: c.qual):
        if c.module.name not in ("complex_objects", "messages") or not is_wire(w, c) or c.name in ("GenericComplexObject", "Enum"):
            continue
        st = st0.copy()
        try:
            st, args, kw = arguments(w, st, c)[0]
        except Exception:
            continue
        for o in I.construct(st, c, args, kw):
            if o.sig != "return":
                continue
            for g, a, m in declared(I, o.st, o.val):
                if mattr(I, o.st, m, "tag") != "*" or any(a in k.methods for k in w.p.mro(c) if hasattr(k, "methods")):
                    continue
                found += 1
                bad = None
                for fc, fv in (("a text", K("t")), ("a number", K(1)), ("nothing", NONE)):
                    for sc, sv, tag in (("a text", K("t"), "S"), ("a number", K(1), "I32"), ("true", TRUE, "B")):
                        s = o.st.copy()
                        for g2, a2, m2 in declared(I, s, o.val):
                            if a2 != a and not any(a2 in k.methods for k in w.p.mro(c) if hasattr(k, "methods")):
                                s, v = filled(w, s, m2, False)
                                if v is not None and not (a2 == "value"):
                                    I.setattr_(s, o.val, a2, v)
                        I.setattr_(s, o.val, a, fv)
                        for s1, el, b in there(w, s, ser, o.val):
                            if b:
                                continue
                            I.setattr_(s1, o.val, a, sv)
                            for s2, el2, b2 in there(w, s1, ser, o.val):
                                nm = mattr(I, s2, m, "name")
                                tags = [s2.heap[n.oid].tag for n in preorder(s2.heap, el2) if name_of(s2, s2.heap[n.oid]) == nm] if b2 is None else None
                                if tags is None or K(tag) not in tags:
                                    bad = "%s after %s is emitted as %s" % (sc, fc, b2 or tags)
                rep.ob("property", bad is None, "Serializer.serialize", "%s.%s" % (c.name, a), bad or "")
            break
    w.done()


def documents(rep, repo):
    for con, first, second in (("an object", "obj", "Ref"), ("type names", "tn", "TNRef")):
        for order in ("serialise", "deserialise"):
            w, st, ser = wide(rep, repo)
            I = w.I
            bad, n = None, 0
            if order == "serialise":
                # the second document is what it would be as the first
                st, g = make(I, w.p, st, "complex_objects.GenericComplexObject")
                I.setattr_(st, g, "types", st.new(HList([K("My.Type")])))
                st, h = make(I, w.p, st, "complex_objects.GenericComplexObject")
                I.setattr_(st, h, "types", st.new(HList([K("My.Type")])))
                I.setattr_(st, h, "adapted_properties", st.new(HDict([(K("A"), g)])))
                want = [shape(s, el) for s, el, b in there(w, st.copy(), ser, h if con == "an object" else g)]
                for s, el, b in there(w, st.copy(), ser, g):
                    for s2, el2, b2 in there(w, s, ser, h if con == "an object" else g):
                        n += 1
                        if b2 or shape(s2, el2) not in want:
                            bad = b2 or "the second document is emitted as %s" % brief(shape(s2, el2))
                if not n:
                    bad = "no document"
            else:
                d1 = I.xml(st, "Obj", {"RefId": K("5")}, children=[I.xml(st, "TN", {"RefId": K("5")}, children=[I.xml(st, "T", text=K("System.Collections.ArrayList"))]), I.xml(st, "LST")])
                if second == "Ref":
                    d2 = I.xml(st, "Ref", {"RefId": K("5")})
                else:
                    d2 = I.xml(st, "Obj", {"RefId": K("6")}, children=[I.xml(st, "TNRef", {"RefId": K("5")}), I.xml(st, "LST")])
                for s, r, b in back(w, st, ser, d1):
                    for s2, r2, b2 in back(w, s, ser, d2):
                        n += 1
                        if b2 is None:
                            bad = "is resolved to %s" % brief(shape(s2, r2))
                if not n:
                    bad = "the first document is not read"
            rep.ob("document", bad is None, "Serializer.serialize/deserialize", "%s of an earlier document, %s" % (con, order), bad or "")
            w.done()
    # within one document they do resolve
    for con in ("Ref", "TNRef"):
        w, st, ser = wide(rep, repo)
        I = w.I
        a = I.xml(st, "Obj", {"RefId": K("5")}, children=[I.xml(st, "TN", {"RefId": K("5")}, children=[I.xml(st, "T", text=K("System.Collections.ArrayList"))]), I.xml(st, "LST")])
        b = I.xml(st, "Ref", {"RefId": K("5")}) if con == "Ref" else I.xml(st, "Obj", {"RefId": K("6")}, children=[I.xml(st, "TNRef", {"RefId": K("5")}), I.xml(st, "LST")])
        d = I.xml(st, "Obj", {"RefId": K("0")}, children=[I.xml(st, "TN", {"RefId": K("9")}, children=[I.xml(st, "T", text=K("System.Object[]"))]), I.xml(st, "LST", children=[a, b])])
        bad = None
        for s, r, b2 in back(w, st, ser, d):
            it = I.items_of(s, r) if b2 is None else None
            if not it or len(it) != 2:
                bad = b2 or "is read as %s" % str(it)
            elif con == "Ref" and it[0] != it[1]:
                bad = "the reference is not the object"
            elif con == "TNRef" and (it[0] == it[1] or shape(s, it[0]) != shape(s, it[1])):
                bad = "the object with a reference to the type names is read as %s" % brief(shape(s, it[1]))
        rep.ob("document", bad is None, "Serializer.deserialize", "a %s to earlier in the document" % con, bad or "")
        w.done()
    # after a document that could not be read or written
    w, st, ser = wide(rep, repo)
    I = w.I
    bad, n = None, 0
    st, g = make(I, w.p, st, "complex_objects.GenericComplexObject")
    want = [shape(s, el) for s, el, b in there(w, st.copy(), ser, g)]
    broken = st.new(HList([g, g]))
    st, t = make(I, w.p, st, "serializer.TaggedValue", K("no such tag"), K("x"))
    st.heap[broken.oid] = HList([g, t])
    for o in I.call_method(st, ser, "serialize", [broken], {}):
        if o.sig == "return":
            continue
        for s, el, b in there(w, o.st, ser, g):
            n += 1
            if b or shape(s, el) not in want:
                bad = b or "is emitted as %s" % brief(shape(s, el))
    rep.ob("document", bad is None and n > 0, "Serializer.serialize", "after a document that failed", bad or ("" if n else "no such document"))
    w.done()
    # a document read by a serialiser in the middle of another one
    w, st, ser = wide(rep, repo)
    I = w.I
    bad = None
    st, g = make(I, w.p, st, "complex_objects.GenericComplexObject")
    want = [shape(s, el) for s, el, b in there(w, st.copy(), ser, g)]
    d1 = I.xml(st, "Obj", {"RefId": K("5")}, children=[I.xml(st, "TN", {"RefId": K("5")}, children=[I.xml(st, "T", text=K("System.Object"))])])
    for s, r, b in back(w, st, ser, d1):
        for s2, el, b2 in there(w, s, ser, g):
            if b2 or shape(s2, el) not in want:
                bad = b2 or "is emitted as %s" % brief(shape(s2, el))
    rep.ob("document", bad is None, "Serializer.serialize", "after a document that was read", bad or "")
    w.done()


def aliases(rep, repo):
    """two objects with the same type names, then two of the same class"""
    for con in ("TN", "TNRef", "property sets", "adapted_properties", "extended_properties"):
        w, st, ser = wide(rep, repo)
        I = w.I

        def obj(i, first):
            tn = I.xml(st, "TN", {"RefId": K("7")}, children=[I.xml(st, "T", text=K("System.Object"))]) if first or con == "TN" else I.xml(st, "TNRef", {"RefId": K("7")})
            return I.xml(st, "Obj", {"RefId": K(str(i))}, children=[tn, I.xml(st, "Props", children=[I.xml(st, "S", {"N": K("a")}, text=K("v"))]),
                                                                    I.xml(st, "MS", children=[I.xml(st, "S", {"N": K("b")}, text=K("v"))])])
        kids = [obj(i, i == 1) for i in (1, 2, 3)]
        d = I.xml(st, "Obj", {"RefId": K("0")}, children=[I.xml(st, "TN", {"RefId": K("9")}, children=[I.xml(st, "T", text=K("System.Object[]"))]), I.xml(st, "LST", children=kids)])
        attr = {"TN": "types", "TNRef": "types", "property sets": "property_sets"}.get(con, con)
        bad = None
        for s, r, b in back(w, st, ser, d):
            it = I.items_of(s, r) if b is None else None
            if not it or len(it) != 3 or not all(isinstance(x, Ref) and isinstance(s.heap[x.oid], HInst) for x in it):
                bad = b or "the objects are read as %s" % str(it)
                continue
            refs = [s.heap[x.oid].attrs.get(attr) for x in it]
            if len({x.oid for x in refs if isinstance(x, Ref)}) != 3:
                bad = "objects share their %s" % attr
        rep.ob("alias", bad is None, "Serializer.deserialize", con, bad or "")
        w.done()
