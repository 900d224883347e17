"""C28: serialiser and deserialiser agree on every tag, type and escape."""
import base64
import re

from .common import *
from ..loader import Class
from .c27 import GROUPS, arguments, declared, dict_text, emission, host, is_enum, is_prop, is_wire, make, mattr, preorder, real, sample, first_value

TECHNIQUE = "static analysis: abstract serialisation and deserialisation of every tag, type and code point class, compared with the protocol's tables"
UUID, FLT = T("pyobj", "uuid.UUID", "id"), T("pyobj", "float", "number")
# [MS-PSRP] 2.2.5.1: tag -> values, with the text they have on the wire (None: any) ------------------------------------------------
PRIMITIVES = {
    "S": [("a text", K("a b"), "a b"), ("an empty text", K(""), "")],
    "ToString": [("a text", K("a b"), "a b")],
    "C": [("a character", K("A"), "65"), ("the character 0", K("\0"), "0")],
    "B": [("true", TRUE, "true"), ("false", FALSE, "false")],
    "DT": [("a date", K("2008-04-11T10:42:32.2731993-07:00"), "2008-04-11T10:42:32.2731993-07:00")],
    "TS": [("a duration", K("PT9.0269026S"), "PT9.0269026S")],
    "By": [("a number", K(254), "254"), ("zero", K(0), "0")],
    "SB": [("a number", K(-127), "-127"), ("zero", K(0), "0")],
    "U16": [("a number", K(65535), "65535"), ("zero", K(0), "0")],
    "I16": [("a number", K(-32767), "-32767"), ("zero", K(0), "0")],
    "U32": [("a number", K(4294967295), "4294967295"), ("zero", K(0), "0")],
    "I32": [("a number", K(-2147483648), "-2147483648"), ("zero", K(0), "0")],
    "U64": [("a number", K(18446744073709551615), "18446744073709551615"), ("zero", K(0), "0")],
    "I64": [("a number", K(-9223372036854775808), "-9223372036854775808"), ("zero", K(0), "0")],
    "Sg": [("a number", K(12.25), "12.25"), ("infinity", K(float("inf")), "INF"), ("minus infinity", K(float("-inf")), "-INF"), ("not a number", K(float("nan")), "NaN")],
    "Db": [("a number", K(-12.25), "-12.25"), ("infinity", K(float("inf")), "INF"), ("minus infinity", K(float("-inf")), "-INF"), ("not a number", K(float("nan")), "NaN")],
    "D": [("a number", K("12.25"), "12.25")],
    "BA": [("bytes", K(b"\x01\x02\x03\x04"), "AQIDBA=="), ("no bytes", K(b""), "")],
    "G": [("an id", UUID, None)],
    "URI": [("an address", K("http://www.contoso.com/?a=1"), "http://www.contoso.com/?a=1")],
    "Version": [("a version", K("6.2.1.3"), "6.2.1.3")],
    "XD": [("a document", K("<name>Content</name>"), "<name>Content</name>")],
    "SBK": [("a script", K("get-command -type cmdlet"), "get-command -type cmdlet")],
}
DEFAULTS = [("True", TRUE, "B"), ("False", FALSE, "B"), ("an int", K(7), "I32"), ("0", K(0), "I32"), ("a float", K(1.5), "Sg"), ("a str", K("x"), "S"), ("bytes", K(b"x"), "BA"),
            ("a UUID", UUID, "G"), ("None", NONE, "Nil")]
ESC = ("S", "ToString", "URI", "XD", "SBK")


def run(rep, repo, tier):
    rep.rule("primitive", "a value with a primitive tag is emitted under that tag in the protocol's notation and read back as the same value", 30)
    rep.rule("default", "a value without explicit type gets the tag of its own Python type", 15)
    rep.rule("container", "a container is emitted under its tag, element by element in order, and read back as the same kind with the same elements", 10)
    rep.rule("object", "a known object is read back as an object of its class with the same properties", 25)
    rep.rule("escape", "every text is emitted with legal XML characters only, in the protocol's escapes, and read back unchanged", 40)
    rep.rule("names", "names of dynamic properties are escaped and read back like values", 8)
    rep.rule("history", "what a text is emitted as does not depend on what was serialised before", 3)
    for tag, vals in PRIMITIVES.items():
        for con, v, text in vals:
            primitive(rep, repo, tag, con, v, text)
    defaults(rep, repo)
    containers(rep, repo)
    objects(rep, repo)
    escapes(rep, repo, tier)
    names(rep, repo)
    history(rep, repo)


# ------------------------------------------------------------------------------------------------------------------ helpers
def wide(rep, repo):
    w, st, ser = real(rep, repo)
    w.cfg.while_max = 12
    return w, st, ser


def new_meta(w, st, tag, name=None):
    return make(w.I, w.p, st, "complex_objects.ObjectMeta", K(tag), **({"name": K(name)} if name else {}))


def tagged(w, st, tag, v):
    return make(w.I, w.p, st, "serializer.TaggedValue", K(tag), v)


def reparse(st, x):
    """what an XML parser makes of the element: empty text is no text"""
    st = st.copy()
    for n in list(preorder(st.heap, x)):
        if st.heap[n.oid].text == K(""):
            st.heap[n.oid] = st.heap[n.oid].with_(text=NONE)
    return st


PAIRS = {("builtins.int", "str"), ("builtins.float", "str"), ("base64.b64decode", "base64.b64encode"), ("uuid.UUID", "str"), ("uuid.UUID", "builtins.str")}


def cancel(t):
    """apply what is known of the conversions: inverse pairs cancel, base64 of known bytes is known"""
    if not isinstance(t, T):
        return t
    a = tuple(cancel(x) if isinstance(x, T) else x for x in t.args)
    t = T(t.op, *a)
    f, x = None, None
    if t.op in ("fn", "ret") and len(a) >= 2:
        f, x = (a[0], a[1]) if t.op == "fn" else (a[1], a[2][0] if len(a) > 2 and isinstance(a[2], tuple) and a[2] else None)
    elif t.op == "str":
        f, x = "str", a[0]
    elif t.op == "meth" and a[0] in ("decode", "encode"):
        x = a[1]
        if isinstance(x, K) and isinstance(x.v, bytes if a[0] == "decode" else str):
            return K(x.v.decode() if a[0] == "decode" else x.v.encode())
        if isinstance(x, T) and x.op in ("fn",) and str(x.args[0]).startswith("base64"):
            return x
    if f is None:
        return t
    f = str(f)
    if isinstance(x, K):
        try:
            if f == "base64.b64encode":
                return K(base64.b64encode(x.v))
            if f == "base64.b64decode":
                return K(base64.b64decode(x.v))
            if f == "builtins.float":
                return K(float(x.v))
            if f == "builtins.int":
                return K(int(x.v))
        except Exception:
            return t
    g, y = None, None
    if isinstance(x, T) and x.op == "str":
        g, y = "str", x.args[0]
    elif isinstance(x, T) and x.op == "fn" and len(x.args) >= 2:
        g, y = str(x.args[0]), x.args[1]
    if (f, g) in PAIRS:
        return y
    return t


def same(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return type(a.v) is type(b.v) and (a.v == b.v or (a.v != a.v and b.v != b.v))
    return a == b


def there(w, st, ser, v, meta=None):
    """[(state, element or None, complaint)] of serialising"""
    out = []
    for o in w.I.call_method(st, ser, "serialize", [v], {"metadata": meta} if meta is not None else {}):
        if o.sig != "return":
            out.append((o.st, None, "cannot be serialised: %s" % w.exc(o)))
        elif not isinstance(o.val, Ref) or not isinstance(o.st.heap.get(o.val.oid), HXml):
            out.append((o.st, None, "gives no element: %s" % str(w.I.freeze(o.st, o.val))[:80]))
        else:
            out.append((o.st, o.val, None))
    return out or [(st, None, "no path")]


def back(w, st, ser, x, meta=None):
    out = []
    for o in w.I.call_method(reparse(st, x), ser, "deserialize", [x], {"metadata": meta} if meta is not None else {}):
        if o.sig != "return":
            out.append((o.st, None, "cannot be deserialised: %s" % w.exc(o)))
        else:
            out.append((o.st, o.val, None))
    return out or [(st, None, "cannot be deserialised: no path")]


# ------------------------------------------------------------------------------------------------------------------ primitives
def primitive(rep, repo, tag, con, v, text):
    for how in ("declared", "tagged"):
        w, st, ser = wide(rep, repo)
        m = None
        x = v
        if how == "declared":
            st, m = new_meta(w, st, tag)
        else:
            st, x = tagged(w, st, tag, v)
        bad = None
        for s, el, b in there(w, st, ser, x, m):
            if b:
                bad = b
                continue
            e = s.heap[el.oid]
            if e.tag != K(tag):
                bad = "is emitted with the tag %s" % e.tag
                continue
            t = cancel(w.I.freeze(s, e.text))
            if text is not None and t != K(text):
                bad = "is emitted as %s" % str(t)[:80]
                continue
            if text is None and not has(t, v):
                bad = "is emitted without the value: %s" % str(t)[:80]
                continue
            for s2, r, b2 in back(w, s, ser, el):
                if b2:
                    bad = b2
                    continue
                r = cancel(w.I.freeze(s2, r))
                if not same(r, v):
                    bad = "is read back as %s" % str(r)[:80]
        rep.ob("primitive", bad is None, "Serializer.serialize/deserialize", "%s: %s, %s" % (tag, con, how), bad or "")
        w.done()


def default_cases(w, st):
    I, p = w.I, w.p
    out = [(con, st, v, tag, None) for con, v, tag in DEFAULTS]
    s = st.copy()
    out.append(("a list", s, s.new(HList([])), "Obj", "LST"))
    s = st.copy()
    out.append(("a dict", s, s.new(HDict([])), "Obj", "DCT"))
    s, g = make(I, p, st.copy(), "complex_objects.GenericComplexObject")
    out.append(("a dynamic object", s, g, "Obj", None))
    s, g = make(I, p, st.copy(), "complex_objects.Coordinates", x=K(0), y=K(0))
    out.append(("a protocol object", s, g, "Obj", "Props"))
    for tag in ("U32", "Version", "BA"):
        s, g = tagged(w, st.copy(), tag, K(b"x") if tag == "BA" else K("1"))
        out.append(("a value tagged %s" % tag, s, g, tag, None))
    s, g = tagged(w, st.copy(), "S", NONE)
    out.append(("nothing, tagged S", s, g, "Nil", None))
    return out


def defaults(rep, repo):
    w, st, ser = wide(rep, repo)
    for con, s0, v, tag, child in default_cases(w, st):
        for nested in (False, True):
            bad = None
            s = s0.copy()
            x = s.new(HList([v])) if nested else v
            for s1, el, b in there(w, s, ser, x):
                if b:
                    bad = b
                    continue
                H = s1.heap
                if nested:
                    lst = [c for c in H[el.oid].children if H[c.oid].tag == K("LST")]
                    kids = H[lst[0].oid].children if lst else ()
                    if len(kids) != 1 or not isinstance(kids[0], Ref):
                        bad = "the list has %d elements" % len(kids)
                        continue
                    el = kids[0]
                if H[el.oid].tag != K(tag):
                    bad = "gets the tag %s" % H[el.oid].tag
                elif child and K(child) not in [H[c.oid].tag for c in H[el.oid].children]:
                    bad = "is not emitted as %s" % child
            rep.ob("default", bad is None, "Serializer._get_tag_from_value", con + (" in a list" if nested else ""), bad or "")
    w.done()


# ------------------------------------------------------------------------------------------------------------------ containers
ITEMS = [K("one"), K(2), TRUE, K("one"), NONE]


def containers(rep, repo):
    for con, mcls, margs, tag, kind in (("LST", "ListMeta", {}, "LST", "list"), ("IE", "ListMeta", {"obj_type": K("IE")}, "IE", "list"), ("STK", "StackMeta", {}, "STK", "list"),
                                        ("DCT", "DictionaryMeta", {}, "DCT", "dict"), ("untyped list", None, {}, "LST", "list"), ("untyped dict", None, {}, "DCT", "dict")):
        for items in ([], ITEMS[:1], ITEMS):
            w, st, ser = wide(rep, repo)
            m = None
            if mcls:
                st, m = make(w.I, w.p, st, "complex_objects." + mcls, **margs)
            if kind == "list":
                v = st.new(HList(items))
                want = list(reversed(items)) if tag == "STK" else list(items)
            else:
                v = st.new(HDict([(K("k%d" % (3 * i % 5)), x) for i, x in enumerate(items)]))
                want = [(K("k%d" % (3 * i % 5)), x) for i, x in enumerate(items)]
            bad = None
            for s, el, b in there(w, st, ser, v, m):
                if b:
                    bad = b
                    continue
                H = s.heap
                c = [k for k in H[el.oid].children if H[k.oid].tag == K(tag)]
                if len(c) != 1 or len(H[c[0].oid].children) != len(items):
                    bad = "is not emitted as one %s of %d elements" % (tag, len(items))
                    continue
                for s2, r, b2 in back(w, s, ser, el):
                    if b2:
                        bad = b2
                        continue
                    o = s2.heap.get(r.oid) if isinstance(r, Ref) else None
                    if kind == "list":
                        got = list(o.items) if isinstance(o, HList) and o.kind == "list" else None
                    else:
                        got = list(o.items) if isinstance(o, HDict) else None
                    if got is None:
                        bad = "is read back as %s" % str(w.I.freeze(s2, r))[:80]
                    elif len(got) != len(want) or not all(eqv(a, b) for a, b in zip(got, want)):
                        bad = "is read back with the elements %s" % str(got)[:100]
            rep.ob("container", bad is None, "Serializer.serialize/deserialize", "%s of %d elements" % (con, len(items)), bad or "")
            w.done()
    # the parts of an entry are known by their names
    for order in ("KV", "VK"):
        w, st, ser = wide(rep, repo)
        I = w.I
        en = []
        for a, b in (("b", "1"), ("a", "2")):
            k, v = I.xml(st, "S", {"N": K("Key")}, text=K(a)), I.xml(st, "I32", {"N": K("Value")}, text=K(b))
            en.append(I.xml(st, "En", children=[k, v] if order == "KV" else [v, k]))
        bad = None
        for s2, r, b2 in back(w, st, ser, I.xml(st, "Obj", {"RefId": K("0")}, children=[
                I.xml(st, "TN", {"RefId": K("0")}, children=[I.xml(st, "T", text=K("System.Collections.Hashtable"))]), I.xml(st, "DCT", children=en)])):
            o = s2.heap.get(r.oid) if isinstance(r, Ref) else None
            if b2:
                bad = b2
            elif not isinstance(o, HDict) or list(o.items) != [(K("b"), K(1)), (K("a"), K(2))]:
                bad = "is read as %s" % str(w.I.freeze(s2, r))[:100]
        rep.ob("container", bad is None, "Serializer.deserialize", "DCT, entries of %s" % ("key and value" if order == "KV" else "value and key"), bad or "")
        w.done()
    # the type names of a list of declared elements do not decide how many there are
    for tn in ("System.String[]", "System.Collections.Generic.List`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]",
               "System.Collections.ObjectModel.Collection`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]",
               "System.Collections.ObjectModel.ReadOnlyCollection`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]",
               "System.Collections.ArrayList", "Deserialized.System.Collections.ArrayList", "System.Object[]"):
        for tag in ("LST", "IE"):
            w, st, ser = wide(rep, repo)
            I = w.I
            kids = [I.xml(st, "S", text=K("a")), I.xml(st, "S", text=K("b"))]
            el = I.xml(st, "Obj", {"RefId": K("0")}, children=[I.xml(st, "TN", {"RefId": K("0")}, children=[I.xml(st, "T", text=K(tn)), I.xml(st, "T", text=K("System.Object"))]),
                                                             I.xml(st, tag, children=kids)])
            bad = None
            for s2, r, b2 in back(w, st, ser, el):
                o = s2.heap.get(r.oid) if isinstance(r, Ref) else None
                if b2:
                    bad = b2
                elif not isinstance(o, HList) or list(o.items) != [K("a"), K("b")]:
                    bad = "is read as %s" % str(w.I.freeze(s2, r))[:100]
            rep.ob("container", bad is None, "Serializer.deserialize", "%s of type %s" % (tag, tn.split(",")[0]), bad or "")
            w.done()


def eqv(a, b):
    if isinstance(a, tuple):
        return all(eqv(x, y) for x, y in zip(a, b))
    return same(cancel(a), b)


# ------------------------------------------------------------------------------------------------------------------ objects
def objects(rep, repo):
    w0 = World(rep, repo)
    for c in sorted(w0.p.all_classes(), key=lambda c: c.qual):
        if c.module.name not in ("complex_objects", "messages") or not is_wire(w0, c) or c.name in ("GenericComplexObject", "Enum"):
            continue
        w, st, ser = wide(rep, repo)
        s, args, kw = arguments(w, st, c)[0]
        for o in w.I.construct(s, c, args, kw):
            if o.sig != "return":
                continue
            known = known_types(w, o.st, o.val)
            if known:
                for full in (False, True):
                    one_object(rep, repo, w, o.st.copy(), ser, o.val, c, full)
        w.done()
    w0.done()
    twice(rep, repo)


def twice(rep, repo):
    """objects later in a document only refer to their type names"""
    names = ["My.Type", "My.Base", "System.Object"]
    for con, qual in (("a color", "complex_objects.Color"), ("a dynamic object", "complex_objects.GenericComplexObject"), ("a list", None)):
        w, st, ser = wide(rep, repo)
        I, vs = w.I, []
        for i in range(3):
            if qual is None:
                v = st.new(HList([K(i)]))
            else:
                st, v = make(I, w.p, st, qual, **({"value": K(i)} if "Color" in qual else {}))
                if "Generic" in qual:
                    I.setattr_(st, v, "types", st.new(HList([K(n) for n in names])))
            vs.append(v)
        bad = None
        for s, el, b in there(w, st, ser, st.new(HList(vs))):
            if b:
                bad = b
                continue
            for s2, r, b2 in back(w, s, ser, el):
                o = s2.heap.get(r.oid) if isinstance(r, Ref) else None
                if b2 or not isinstance(o, HList) or len(o.items) != 3:
                    bad = b2 or "are read back as %s" % str(I.freeze(s2, r))[:80]
                    continue
                for i, x in enumerate(o.items):
                    h = s2.heap.get(x.oid) if isinstance(x, Ref) else None
                    if qual is None:
                        ok = isinstance(h, HList) and list(h.items) == [K(i)]
                    elif not isinstance(h, HInst) or h.cls.qual != qual:
                        ok = False
                    else:
                        got = I.attr(s2.copy(), x, "value" if "Color" in qual else "types", None)[0][1]
                        ok = got == K(i) if "Color" in qual else list(I.items_of(s2, got) or ()) == [K(n) for n in names]
                    if not ok:
                        bad = "number %d is read back as %s" % (i, str(I.freeze(s2, x))[:160])
        rep.ob("object", bad is None, "Serializer.deserialize", "%s whose type names were listed before" % con, bad or "")
        w.done()
    # of a type that is not known but for one it derives from
    w, st, ser = wide(rep, repo)
    I = w.I
    tn = I.xml(st, "TN", {"RefId": K("0")}, children=[I.xml(st, "T", text=K(t)) for t in ("My.List", "System.Collections.ArrayList", "System.Object")])
    objs = [I.xml(st, "Obj", {"RefId": K(str(i))}, children=[h, I.xml(st, "LST", children=[I.xml(st, "I32", text=K(str(i)))])]) for i, h in
            ((1, tn), (2, I.xml(st, "TNRef", {"RefId": K("0")})))]
    el = I.xml(st, "Obj", {"RefId": K("0")}, children=[I.xml(st, "TN", {"RefId": K("9")}, children=[I.xml(st, "T", text=K("System.Collections.ArrayList"))]), I.xml(st, "LST", children=objs)])
    bad = None
    for s2, r, b2 in back(w, st, ser, el):
        got = [list(I.items_of(s2, x) or ()) if isinstance(x, Ref) and isinstance(s2.heap[x.oid], HList) else x for x in (I.items_of(s2, r) or ())] if b2 is None else None
        if got != [[K(1)], [K(2)]]:
            bad = b2 or "are read back as %s" % str(got)[:100]
    rep.ob("object", bad is None, "Serializer.deserialize", "two lists of a derived type, the second with a reference to the type names", bad or "")
    w.done()


def known_types(w, st, ref):
    v = st.heap[ref.oid].attrs.get("_types")
    it = w.I.items_of(st, v) if v is not None else None
    return [x.v for x in it if isinstance(x, K)] if it else []


NOT_KNOWN = ("CommandMetadata", "CommandType")  # read only where a description names them
FULL = {"S": "a_b\n", "SS": "secret", "XD": "<a />", "URI": "http://x/", "SBK": "1", "DT": "2008-04-11T10:42:32.2731993-07:00", "TS": "PT1S", "Version": "1.2", "C": "A", "D": "1.5", "I32": -5, "I64": -6,
        "U32": 7, "U64": 8, "U16": 9, "I16": -9, "By": 3, "SB": -3, "B": True, "Sg": 1.5, "Db": 2.5, "BA": b"xyz", "*": "text"}


def filled(w, st, meta, full):
    tag = mattr(w.I, st, meta, "tag")
    if tag in ("DT", "TS", "Version", "URI") or full and tag in FULL:
        return st, K(FULL[tag])
    if full and tag in ("LST", "IE"):
        vm = w.I.attr(st.copy(), meta, "list_value_meta", None)[0][1]
        st, v = filled(w, st, vm, full)
        st, v2 = filled(w, st, vm, full)
        return st, st.new(HList([v, v2] if v is not None else []))
    if full and tag == "DCT":
        vm = w.I.attr(st.copy(), meta, "dict_value_meta", None)[0][1]
        st, v = filled(w, st, vm, full)
        return st, st.new(HDict([(K("k"), v)] if v is not None else []))
    return sample(w, st, meta)


def one_object(rep, repo, w, st, ser, ref, c, full):
    I = w.I
    decl = declared(I, st, ref)
    for g, a, m in decl:
        if is_prop(w, st, ref, a):
            continue
        if a == "value" and is_enum(w, c):
            v = K(first_value(w, c))
        else:
            st, v = filled(w, st, m, full)
        if v is not None:
            I.setattr_(st, ref, a, v)
    sealed = [a for g, a, m in decl if mattr(I, st, m, "tag") == "SS"]
    bad = None
    for s, el, b in there(w, st.copy(), ser, ref):
        if b:
            bad = b
            continue
        s.heap[ser.oid].attrs["cipher"] = NONE
        m = None
        if c.name in NOT_KNOWN:
            s, m = make(I, w.p, s, "complex_objects.ObjectMeta", K("Obj"), object=ClsV(c))
        for s2, r, b2 in back(w, s, ser, el, m):
            if b2:
                bad = b2
                continue
            o = s2.heap.get(r.oid) if isinstance(r, Ref) else None
            if not isinstance(o, HInst) or not isinstance(o.cls, Class):
                bad = "is read back as %s" % str(I.freeze(s2, r))[:80]
                continue
            if c not in w.p.mro(o.cls):
                bad = "is read back as an object of the class %s" % o.cls.qual
                continue
            for g, a, m in decl:
                x, y = I.attr(s, ref, a, None)[0][1], I.attr(s2.copy(), r, a, None)
                y = y[0][1] if y else None
                if a in sealed:
                    continue
                if not alike(w, s, x, s2, y):
                    bad = "%s is read back as %s" % (a, str(I.freeze(s2, y))[:80])
    rep.ob("object", bad is None, "Serializer.deserialize", c.name + (" with values" if full else " of values that count as false"), bad or "")


def alike(w, s, x, s2, y):
    """the two values are the same, containers by content, objects by class"""
    if isinstance(x, Ref) and isinstance(y, Ref):
        a, b = s.heap.get(x.oid), s2.heap.get(y.oid)
        if isinstance(a, HInst) and isinstance(b, HInst):
            return isinstance(b.cls, Class) and a.cls in w.p.mro(b.cls)
        if isinstance(a, HList) and isinstance(b, HList):
            return len(a.items) == len(b.items) and all(alike(w, s, p, s2, q) for p, q in zip(a.items, b.items))
        if isinstance(a, HDict) and isinstance(b, HDict):
            return len(a.items) == len(b.items) and all(alike(w, s, p[0], s2, q[0]) and alike(w, s, p[1], s2, q[1]) for p, q in zip(a.items, b.items))
        return type(a) is type(b)
    if isinstance(x, Ref) or isinstance(y, Ref) or y is None:
        return False
    return same(cancel(w.I.freeze(s, x)), cancel(w.I.freeze(s2, y)))


# ------------------------------------------------------------------------------------------------------------------ text
def legal(s):
    return all(c in "\t\n\r" or "\x20" <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000" for c in s)


def units(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return [b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]


def text_of(us):
    return b"".join(bytes((u >> 8, u & 255)) for u in us).decode("utf-16-be", "surrogatepass")


def decode(s):
    """the protocol's reading of an escaped text"""
    us, out, i = units(s), [], 0
    pat = re.compile(r"_[xX]([0-9A-Fa-f]{4})_")  # PowerShell reads either case of the x
    pos = 0
    for m in pat.finditer(s):
        out += units(s[pos:m.start()]) + [int(m.group(1), 16)]
        pos = m.end()
    out += units(s[pos:])
    return text_of(out)


def encode(s, lower=False):
    """a text as the server writes it"""
    s = re.sub("_([xX])", r"_x005F_\1", s)
    out = ""
    for c in s:
        if c < " " or "\x7f" <= c <= "\x9f" or "\ud800" <= c <= "\udfff" or c >= "\U00010000":
            for u in units(c):
                h = "%04X" % u
                out += "_x%s_" % (h.lower() if lower else h)
        else:
            out += c
    return out


def strings(tier):
    c0 = "".join(map(chr, range(0x20)))
    c1 = "".join(map(chr, range(0x7f, 0xa0)))
    hi = [chr(c) for c in range(0xd800, 0xdc00, 1 if tier == "thorough" else 61)] + ["\udbff"]
    lo = [chr(c) for c in range(0xdc00, 0xe000, 1 if tier == "thorough" else 61)] + ["\udfff"]
    astral = [chr((p << 16) + o) for p in range(1, 17) for o in (0, 1, 0x7fff, 0xfffe, 0xffff)]
    bmp = "".join(chr(c) for c in range(0x20, 0x10000) if not 0x7f <= c <= 0x9f and not 0xd800 <= c <= 0xdfff and c not in (0xfffe, 0xffff))
    misread = "\u4e00\u5f00\u7841\u4141\u4141\u4141\u4100\u5f41"  # the bytes of _xAAAA_ in UTF-16, one byte off
    yield "every C0 control character", c0
    yield "every C1 control character and DEL", c1
    yield "every other character of the basic plane", bmp
    yield "the noncharacters U+FFFE and U+FFFF", "\ufffe\uffff"
    yield "high surrogates on their own", " ".join(hi)
    yield "low surrogates on their own", " ".join(lo)
    yield "surrogates in the wrong order", "\udc00\ud800a"
    yield "characters of every other plane", "".join(astral)
    for e in ("_x000A_", "_X000A_", "_x000a_", "_xD83D__xDE00_", "_xD83D_", "_x005F_x000A_", "_xZZZZ_", "_x____", "_x00A_", "_x", "_", "x", "__x0041_", "_x0041", "x0041_"):
        yield "the literal %s" % e, e
    yield "many literal escapes", "_x0041_\n" * 12 + "_X0041_"
    yield "many control characters", "a\n" * 45
    yield "escapes side by side", "\n_x000A_\U0001f600_x\r_"
    yield "ideographs whose bytes contain an escape", misread
    yield "blanks alone", "  "
    yield "line breaks and tabs alone", "\n\t\r\n "
    yield "blanks of other scripts alone", "\u3000\u2003\u00a0"
    yield "blanks around a text", " \u00a0a b\u3000 "
    yield "no characters", ""


def escapes(rep, repo, tier):
    for con, text in strings(tier):
        for tag in ESC if len(text) < 100 else ("S",):
            w, st, ser = wide(rep, repo)
            st, m = new_meta(w, st, tag)
            bad, undecided = None, False
            for s, el, b in there(w, st, ser, K(text), m):
                if b:
                    bad = b
                    continue
                t = s.heap[el.oid].text
                t = K("") if t == NONE else t
                if not isinstance(t, K):
                    undecided = True
                    continue
                bad = bad or wire_ok(t.v, text)
                for s2, r, b2 in back(w, s, ser, el):
                    bad = bad or b2 or read_ok(r, text)
                    undecided = undecided or (b2 is None and not isinstance(r, K))
            if undecided:
                rep.assume("the escape of %s is not decidable here" % con)
                continue
            rep.ob("escape", bad is None, "Serializer.serialize/deserialize", "%s: %s" % (tag, con), bad or "")
            w.done()
        for lower in (False, True):
            if lower and "_" in text:
                continue
            w, st, ser = wide(rep, repo)
            enc = encode(text, lower)
            el = w.I.xml(st, "S", text=K(enc) if enc else NONE)
            if not legal(enc):
                continue  # no server can send it
            bad = None
            for s2, r, b2 in back(w, st, ser, el):
                bad = bad or b2 or read_ok(r, text)
            rep.ob("escape", bad is None, "Serializer.deserialize", "from the server%s: %s" % (" in lower case" if lower else "", con), bad or "")
            w.done()
    for raw in ("_xZZZZ_", "_x00G0_", "_x____x", "_x00 0_"):
        w, st, ser = wide(rep, repo)
        bad = None
        for s2, r, b2 in back(w, st, ser, w.I.xml(st, "S", text=K(raw))):
            bad = bad or b2 or read_ok(r, raw)
        rep.ob("escape", bad is None, "Serializer.deserialize", "from the server: %s, which is no escape" % raw, bad or "")
        w.done()


def wire_ok(t, text):
    if not legal(t):
        return "emits the character U+%04X, which XML cannot carry" % ord([c for c in t if not legal(c)][0])
    if any(c < " " or "\x7f" <= c <= "\x9f" for c in t):
        return "emits a control character unescaped"
    if decode(t) != text:
        return "the server reads it as %s" % ascii(decode(t))[:80]
    return None


def read_ok(r, text):
    if isinstance(r, K) and r.v != text:
        return "is read back as %s" % ascii(r.v)[:80]
    if not isinstance(r, (K, T)):
        return "is read back as %s" % r
    return None


def names(rep, repo):
    for con, text in (("a plain name", "Name"), ("a name with a control character", "a\nb"), ("a literal escape", "a_x000A_b"), ("a lone surrogate", "\ud800"), ("an emoji", "\U0001f600"),
                      ("a literal _X", "_X0041_")):
        for group in ("adapted_properties", "extended_properties"):
            for kind in ("value", "object", "shared object", "element"):
                w, st, ser = wide(rep, repo)
                I = w.I
                st, g = make(I, w.p, st, "complex_objects.GenericComplexObject")
                if kind == "value":
                    v = K("v")
                elif kind == "element":
                    v = I.xml(st, "S", text=K("v"))
                else:
                    st, v = make(I, w.p, st, "complex_objects.GenericComplexObject")
                d = [(K("A"), v)] if kind == "shared object" else []
                I.setattr_(st, g, group, st.new(HDict(d + [(K(text), v)])))
                bad = None
                for s, el, b in there(w, st, ser, g):
                    if b:
                        bad = b
                        continue
                    got = [dict_text(s.heap, s.heap[n.oid], "N") for n in preorder(s.heap, el)]
                    got = [x for x in got if x is not None and not (d and x == "A")]
                    if len(got) != 1 or not isinstance(got[0], str):
                        bad = "the name is emitted as %s" % str(got)[:80]
                        continue
                    bad = bad or wire_ok(got[0], text)
                    for s2, r, b2 in back(w, s, ser, el):
                        if b2:
                            bad = b2
                            continue
                        o = s2.heap.get(r.oid) if isinstance(r, Ref) else None
                        dd = s2.heap.get(o.attrs[group].oid) if isinstance(o, HInst) and isinstance(o.attrs.get(group), Ref) else None
                        keys = [k for k, _ in dd.items if not (d and k == K("A"))] if isinstance(dd, HDict) else None
                        if keys != [K(text)]:
                            bad = bad or "the name is read back as %s" % str([ascii(getattr(k, "v", "?")) for k in keys or []])[:80]
                rep.ob("names", bad is None, "Serializer._serialize_dynamic_obj/_deserialize_dynamic_obj", "%s of %s: %s" % (con, group, kind), bad or "")
                w.done()


def history(rep, repo):
    for con, first, second in (("a plain text after an escaped one", "\n_x000A_", "a_b"), ("an escaped text after a plain one", "a_b", "\n_x000A_"), ("the same text twice", "\n_x000A_", "\n_x000A_"),
                               ("an emoji after a surrogate", "\ud83d", "\U0001f600")):
        w, st, ser = wide(rep, repo)
        bad = None
        for s, el, b in there(w, st, ser, K(first)):
            for s2, el2, b2 in there(w, s, ser, K(second)):
                if b2:
                    bad = b2
                    continue
                t = s2.heap[el2.oid].text
                if isinstance(t, K):
                    bad = bad or wire_ok(t.v, second)
                    for s3, r, b3 in back(w, s2, ser, el2):
                        bad = bad or b3 or read_ok(r, second)
        rep.ob("history", bad is None, "Serializer.serialize", con, bad or "")
        w.done()
