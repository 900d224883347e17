"""Byte layouts: what a packing expression writes and what an unpacking expression reads, as (offset, size, byte order, code, value)."""
import struct

from .values import K, NONE, T, lin_of, lin_add, mk_lin


def _fields(fmt):
    order = "@"
    if fmt and fmt[0] in "<>!=@":
        order, fmt = fmt[0], fmt[1:]
    if order == "!":
        order = ">"
    out, n = [], ""
    for c in fmt:
        if c.isdigit():
            n += c
            continue
        k = int(n) if n else 1
        n = ""
        if c in "sx":
            out.append((order, c, k))
        else:
            size = struct.calcsize(("<" if order in "@=" else order) + c)
            out.extend([(order if size > 1 else "1", c, size)] * k)
    return out


def written(term):
    """[(offset|None, size|None, order, code, value)] for a concatenation of struct.pack calls and raw byte strings; None if not understood"""
    parts = term.args if isinstance(term, T) and term.op == "cat" else (term,)
    out, off = [], 0
    for p in parts:
        if isinstance(p, T) and p.op in ("fn", "meth") and p.args[0] == "struct.pack" and isinstance(p.args[1], K):
            fs = _fields(p.args[1].v)
            vals = p.args[2:]
            if len(fs) != len(vals):
                return None
            for (o, c, size), v in zip(fs, vals):
                out.append((off, size, o, c, v))
                off = off + size if off is not None else None
            continue
        if isinstance(p, T) and p.op == "meth" and p.args[0] == "to_bytes" and len(p.args) >= 3 and isinstance(p.args[2], K):
            order = {"big": ">", "little": "<"}.get(getattr(p.args[3], "v", None) if len(p.args) > 3 else None, "?")
            size = p.args[2].v
            code = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(size, "?")
            out.append((off, size, order if size > 1 else "1", code, p.args[1]))
            off = off + size if off is not None else None
            continue
        if isinstance(p, K) and isinstance(p.v, bytes):
            # constant bytes may be several packed constants: keep byte by byte
            for b in p.v:
                out.append((off, 1, "1", "const", K(b)))
                off = off + 1 if off is not None else None
            continue
        out.append((off, None, None, "raw", p))
        off = None
    return out


def const_int(fields, off, size, order):
    """integer made of constant bytes at off..off+size, or None"""
    bs = [v.v for o, s, _, c, v in fields if c == "const" and o is not None and off <= o < off + size]
    if len(bs) != size:
        return None
    return int.from_bytes(bytes(bs), "big" if order == ">" else "little")


def field_at(fields, off, size, order):
    """value term written at this position with this width and byte order, or None"""
    for o, s, od, c, v in fields:
        if o == off and s == size and c not in ("const", "raw") and (size == 1 or od == order):
            return v
    k = const_int(fields, off, size, order)
    return None if k is None else K(k)


def read(term):
    """(source, offset, size, order) read by an integer-decoding term, or None"""
    if isinstance(term, T) and term.op == "item" and isinstance(term.args[1], K):
        src, i = term.args[0], term.args[1].v
        if isinstance(src, T) and src.op in ("fn", "meth") and src.args[0] in ("struct.unpack", "struct.unpack_from") and isinstance(src.args[1], K):
            fs = _fields(src.args[1].v)
            off = 0
            if i >= len(fs) or i < 0:
                return None
            for f in fs[:i]:
                off += f[2]
            order, code, size = fs[i]
            buf = src.args[2]
            base = 0
            if src.args[0] == "struct.unpack_from" and len(src.args) > 3:
                if not isinstance(src.args[3], K):
                    return None
                base = src.args[3].v
            if isinstance(buf, T) and buf.op == "slice":
                lo = buf.args[1]
                hi = buf.args[2]
                if not isinstance(lo, K):
                    return None
                if src.args[0] == "struct.unpack":
                    tot = sum(f[2] for f in fs)
                    if not isinstance(hi, K) or hi.v - lo.v != tot:
                        return None
                return (buf.args[0], lo.v + base + off, size, order)
            return (buf, base + off, size, order)
        if isinstance(src, T):  # data[16] on bytes
            if src.op == "slice" and isinstance(src.args[1], K):
                return (src.args[0], src.args[1].v + i, 1, "1")
            return (src, i, 1, "1")
    if isinstance(term, T) and term.op in ("fn", "meth") and "from_bytes" in str(term.args[0]):
        args = [a for a in term.args[1:] if not (isinstance(a, T) and a.op == "kw")]
        bufs = [a for a in args if isinstance(a, T) and a.op == "slice"]
        ords = [a.v for a in args if isinstance(a, K) and a.v in ("big", "little")] + [
            a.args[1].v for a in term.args[1:] if isinstance(a, T) and a.op == "kw" and isinstance(a.args[1], K)]
        if bufs and isinstance(bufs[0].args[1], K) and isinstance(bufs[0].args[2], K):
            b = bufs[0]
            size = b.args[2].v - b.args[1].v
            return (b.args[0], b.args[1].v, size, "1" if size == 1 else {"big": ">", "little": "<"}.get(ords[0] if ords else "", "?"))
    return None
