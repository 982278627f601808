"""Text codecs and formatting over symbolic characters."""
import z3

from . import core
from .core import Unsupported
from .values import (LazyStr, NumStr, SymBool, SymBytes, SymFloat, SymInt, SymStr, as_int, bterm, bytes_cells, cell_int, hexchar,
                     is_sym, mk_bool, str_cells, sym_and, sym_not, sym_or)

KNOWN_ASCII = {}  # term id -> term, byte cells known to be below 128


def _norm(enc):
    e = enc.lower().replace("_", "-")
    return {"utf8": "utf-8", "us-ascii": "ascii", "latin1": "latin-1", "iso-8859-1": "latin-1",
            "utf-16le": "utf-16-le", "utf16-le": "utf-16-le", "utf-16-le": "utf-16-le",
            "utf-16be": "utf-16-be", "utf16": "utf-16", "u16": "utf-16", "utf": "utf-8", "u8": "utf-8", "latin": "latin-1",
            "l1": "latin-1", "iso8859-1": "latin-1", "8859": "latin-1", "646": "ascii", "utf-8-sig": "utf-8-sig",
            "utf8-sig": "utf-8-sig", "utf-32le": "utf-32-le", "utf32": "utf-32"}.get(e, e)


def _known_ascii(c):
    e = KNOWN_ASCII.get(c.get_id())
    return e is not None and e.eq(c)


def _all_ascii(cells):
    r = []
    for c in cells:
        if type(c) is int:
            if c > 127:
                return False
        elif not _known_ascii(c):
            r.append(SymBool(z3.Extract(7, 7, c) == 0))
    return sym_and(*r)


def _narrow(c):
    return c if type(c) is int else SymInt(c, 0, 127, True, [c])


def decode(cells, encoding="utf-8", errors="strict"):
    enc = _norm(encoding)
    if all(type(c) is int for c in cells):
        return bytes(cells).decode(encoding, errors)
    if enc in ("ascii", "utf-8"):
        if bool(_all_ascii(cells)):
            return SymStr.mk([_narrow(c) for c in cells])
        if enc == "ascii":
            if errors in ("strict", "surrogatepass"):
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
            out = []
            for c in cells:
                if type(c) is int:
                    big = c > 127
                else:
                    big = bool(SymBool(z3.Extract(7, 7, c) == 1))
                if not big:
                    out.append(_narrow(c))
                elif errors == "ignore":
                    pass
                elif errors == "replace":
                    out.append(0xFFFD)
                elif errors == "surrogateescape":
                    out.append(cell_int(c) + 0xDC00)
                else:
                    raise Unsupported("errors=" + errors)
            return SymStr.mk(out)
        return _utf8_decode(cells, errors)
    if enc == "latin-1":
        return SymStr.mk([cell_int(c) for c in cells])
    if enc in ("utf-16-le", "utf-16-be"):
        return _utf16_decode(cells, errors, enc[-2:] == "le")
    if enc == "utf-16":
        if len(cells) >= 2:
            a, b = cell_int(cells[0]), cell_int(cells[1])
            if bool(_land(a == 0xFF, b == 0xFE)):
                return _utf16_decode(cells[2:], errors, True)
            if bool(_land(a == 0xFE, b == 0xFF)):
                return _utf16_decode(cells[2:], errors, False)
        return _utf16_decode(cells, errors, True)
    if enc == "utf-8-sig":
        if len(cells) >= 3 and bool(sym_and(*[cell_int(c) == k for c, k in zip(cells, b"\xef\xbb\xbf")])):
            cells = cells[3:]
        return decode(cells, "utf-8", errors)
    if enc in ("utf-32-le", "utf-32"):
        return _utf32_decode(cells, errors, enc == "utf-32")
    t = _charmap(enc)
    if t is not None:
        out = []
        for c in cells:
            v = cell_int(c)
            if type(v) is int:
                if t[v] is None:
                    return bytes([v]).decode(enc, errors)
                out.append(t[v])
                continue
            holes = [i for i in range(256) if t[i] is None]
            if holes and bool(sym_or(*[v == i for i in holes])):
                raise UnicodeDecodeError(enc, b"\x81", 0, 1, "undefined")
            r = z3.ZeroExt(8, c)
            for i in range(256):
                if t[i] is not None and t[i] != i:
                    r = z3.If(c == i, z3.BitVecVal(t[i], 16), r)
            out.append(SymInt(r, 0, 0xFFFF, True))
        return SymStr.mk(out)
    raise Unsupported("decode " + enc)


_MAPS = {}


def _charmap(enc):
    """The 256 characters of a single-byte codec, or None."""
    if enc not in _MAPS:
        t = []
        try:
            for i in range(256):
                try:
                    ch = bytes([i]).decode(enc)
                except UnicodeDecodeError:
                    ch = None
                if ch is not None and (len(ch) != 1 or ch.encode(enc) != bytes([i]) or ord(ch) > 0xFFFF):
                    raise ValueError
                t.append(None if ch is None else ord(ch))
            if b"ab".decode(enc) != "ab":
                raise ValueError
        except (LookupError, ValueError, UnicodeError):
            t = None
        _MAPS[enc] = t
    return _MAPS[enc]


def _utf32_decode(cells, errors, bom):
    if errors != "strict":
        raise Unsupported("utf-32 errors=" + errors)
    if len(cells) % 4:
        raise UnicodeDecodeError("utf-32-le", b"\x00", 0, 1, "truncated data")
    us = [SymInt.from_cells(cells[i:i + 4], False) for i in range(0, len(cells), 4)]
    if bom and us:
        if bool(us[0] == 0xFEFF):
            us = us[1:]
        elif bool(us[0] == 0xFFFE0000):
            raise Unsupported("utf-32 big endian")
    if not bool(sym_and(*[sym_and(u <= 0x10FFFF, sym_not(_in(u, 0xD800, 0xDFFF))) for u in us])):
        raise UnicodeDecodeError("utf-32-le", b"\x00", 0, 1, "bad code point")
    return SymStr.mk([u if type(u) is int else SymInt(z3.Extract(20, 0, u.bv(32)), 0, 0x10FFFF, True) for u in us])


def _utf8_decode(cells, errors):
    if errors not in ("strict", "surrogatepass"):
        raise Unsupported("utf-8 errors=" + errors)
    bad = lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid")
    out, i = [], 0
    xs = [cell_int(c) for c in cells]
    cont = lambda k: k < len(xs) and bool(_land(xs[k] >= 0x80, xs[k] <= 0xBF))
    while i < len(xs):
        a = xs[i]
        if bool(a <= 0x7F):
            out.append(_narrow(cells[i]))
            i += 1
        elif bool(_land(a >= 0xC2, a <= 0xDF)):
            if not cont(i + 1):
                raise bad()
            out.append(((a & 0x1F) << 6) | (xs[i + 1] & 0x3F))
            i += 2
        elif bool(_land(a >= 0xE0, a <= 0xEF)):
            if not (cont(i + 1) and cont(i + 2)):
                raise bad()
            v = ((a & 0xF) << 12) | ((xs[i + 1] & 0x3F) << 6) | (xs[i + 2] & 0x3F)
            if bool(v < 0x800) or (errors == "strict" and bool(_land(v >= 0xD800, v <= 0xDFFF))):
                raise bad()
            out.append(v)
            i += 3
        elif bool(_land(a >= 0xF0, a <= 0xF4)):
            if not (cont(i + 1) and cont(i + 2) and cont(i + 3)):
                raise bad()
            v = ((a & 7) << 18) | ((xs[i + 1] & 0x3F) << 12) | ((xs[i + 2] & 0x3F) << 6) | (xs[i + 3] & 0x3F)
            if bool(v < 0x10000) or bool(v > 0x10FFFF):
                raise bad()
            out.append(v)
            i += 4
        else:
            raise bad()
    return SymStr.mk(out)


def _land(a, b):
    return sym_and(a, b)


def _in(u, lo, hi):
    if type(u) is int:
        return lo <= u <= hi
    return sym_and(u >= lo, u <= hi)


def _utf16_decode(cells, errors, le):
    if len(cells) % 2:
        if errors == "ignore":
            cells = cells[:-1]
        elif errors in ("strict", "surrogatepass"):
            odd = True
        else:
            raise Unsupported("utf-16 errors=" + errors)
    odd = len(cells) % 2
    units = []
    for i in range(0, len(cells) - odd, 2):
        p = cells[i:i + 2] if le else cells[i:i + 2][::-1]
        units.append(SymInt.from_cells(p, False))
    bad = lambda: UnicodeDecodeError("utf-16-le", b"\x00\xd8", 0, 2, "illegal")
    anysur = sym_or(*[_in(u, 0xD800, 0xDFFF) for u in units])
    if not bool(anysur):
        if odd:
            raise bad()
        return SymStr.mk(units)
    out, i = [], 0
    while i < len(units):
        u = units[i]
        if not bool(_in(u, 0xD800, 0xDFFF)):
            out.append(u)
            i += 1
            continue
        if bool(_in(u, 0xD800, 0xDBFF)) and i + 1 < len(units) and bool(_in(units[i + 1], 0xDC00, 0xDFFF)):
            out.append(pair_join(u, units[i + 1]))
            i += 2
            continue
        if errors == "surrogatepass":
            out.append(u)
        elif errors == "strict":
            raise bad()
        elif errors == "replace":
            out.append(0xFFFD)
        elif errors != "ignore":
            raise Unsupported("utf-16 errors=" + errors)
        i += 1
    if odd:
        raise bad()
    return SymStr.mk(out)


_PAIR = {}


def pair_join(h, l):
    if type(h) is int and type(l) is int:
        return 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)
    hv = z3.Extract(9, 0, _bv(h, 16))
    lv = z3.Extract(9, 0, _bv(l, 16))
    t = z3.Concat(z3.BitVecVal(0, 2), hv, lv) + z3.BitVecVal(0x10000, 22)
    r = SymInt(t, 0x10000, 0x10FFFF, True)
    _PAIR[t.get_id()] = (t, h, l)
    return r


def _bv(x, w):
    return z3.BitVecVal(x, w) if type(x) is int else x.bv(w)


def pair_split(cp):
    if type(cp) is int:
        v = cp - 0x10000
        return 0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF)
    e = _PAIR.get(cp.t.get_id())
    if e is not None and e[0].eq(cp.t):
        return e[1], e[2]
    v = cp - 0x10000
    return (v >> 10) + 0xD800, (v & 0x3FF) + 0xDC00


def encode(cells, encoding="utf-8", errors="strict"):
    enc = _norm(encoding)
    if all(type(c) is int for c in cells):
        return "".join(map(chr, cells)).encode(encoding, errors)
    if enc in ("ascii", "latin-1"):
        top = 127 if enc == "ascii" else 255
        ok = sym_and(*[(c <= top) for c in cells])
        if bool(ok):
            return SymBytes.mk([c if type(c) is int else c.low_cells(1)[0] for c in cells])
        out = []
        for c in cells:
            if bool(c <= top):
                out.append(c if type(c) is int else c.low_cells(1)[0])
            elif errors in ("strict", "surrogatepass"):
                raise UnicodeEncodeError(enc, "\u0100", 0, 1, "ordinal not in range")
            elif errors == "ignore":
                pass
            elif errors == "replace":
                out.append(63)
            else:
                raise Unsupported("errors=" + errors)
        return SymBytes.mk(out)
    if enc == "utf-8":
        out = []
        for c in cells:
            if bool(c <= 0x7F):
                out.append(c if type(c) is int else c.low_cells(1)[0])
                continue
            if bool(c <= 0x7FF):
                bs = [(c >> 6) | 0xC0, (c & 0x3F) | 0x80]
            elif bool(c <= 0xFFFF):
                if bool(_in(c, 0xD800, 0xDFFF)) and errors != "surrogatepass":
                    if errors != "strict":
                        raise Unsupported("errors=" + errors)
                    raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                bs = [(c >> 12) | 0xE0, ((c >> 6) & 0x3F) | 0x80, (c & 0x3F) | 0x80]
            else:
                bs = [(c >> 18) | 0xF0, ((c >> 12) & 0x3F) | 0x80, ((c >> 6) & 0x3F) | 0x80, (c & 0x3F) | 0x80]
            out += [b if type(b) is int else b.low_cells(1)[0] for b in bs]
        return SymBytes.mk(out)
    if enc in ("utf-16-le", "utf-16-be"):
        le = enc[-2:] == "le"
        out = []
        rs = [c if type(c) is int else None for c in cells]
        if errors != "surrogatepass":
            sur = sym_or(*[_in(c, 0xD800, 0xDFFF) for c in cells])
            if bool(sur):
                if errors != "strict":
                    raise Unsupported("errors=" + errors)
                raise UnicodeEncodeError(enc, "\ud800", 0, 1, "surrogates not allowed")
        for c in cells:
            if (c.hi if is_sym(c) else c) <= 0xFFFF or bool(c <= 0xFFFF):
                us = [c]
            else:
                us = list(pair_split(c))
            for u in us:
                p = list(u.to_bytes(2, "little")) if type(u) is int else u.low_cells(2)
                out += p if le else p[::-1]
        return SymBytes.mk(out)
    if enc in ("utf-16", "utf-8-sig"):
        r = encode(cells, "utf-16-le" if enc == "utf-16" else "utf-8", errors)
        return SymBytes.mk(list(b"\xff\xfe" if enc == "utf-16" else b"\xef\xbb\xbf") + bytes_cells(r))
    if enc == "utf-32-le":
        if errors != "strict" and errors != "surrogatepass":
            raise Unsupported("utf-32 errors=" + errors)
        if errors == "strict" and bool(sym_or(*[_in(c, 0xD800, 0xDFFF) for c in cells])):
            raise UnicodeEncodeError(enc, "\ud800", 0, 1, "surrogates not allowed")
        return SymBytes.mk([x for c in cells for x in (c.to_bytes(4, "little") if type(c) is int else c.low_cells(4))])
    t = _charmap(enc)
    if t is not None:
        out = []
        for c in cells:
            if type(c) is int:
                out += chr(c).encode(enc, errors)
                continue
            known = [(i, x) for i, x in enumerate(t) if x is not None]
            if not bool(sym_or(*[c == x for _, x in known])):
                if errors == "ignore":
                    continue
                if errors == "replace":
                    out.append(63)
                    continue
                if errors not in ("strict", "surrogatepass"):
                    raise Unsupported("errors=" + errors)
                raise UnicodeEncodeError(enc, "\u0100", 0, 1, "undefined")
            r = c.low_cells(1)[0]
            if type(r) is int:
                r = z3.BitVecVal(r, 8)
            for i, x in known:
                if x != i:
                    e = c == x
                    r = z3.If(e.t, z3.BitVecVal(i, 8), r) if is_sym(e) else (z3.BitVecVal(i, 8) if e else r)
            out.append(r)
        return SymBytes.mk(out)
    raise Unsupported("encode " + enc)


# ------------------------------------------------------------------ formatting
def hex_int(v, width, upper=False):
    """SymStr of '%0<width>x' % v for 0 <= v < 16**width."""
    t = v.bv(4 * width)
    out = []
    cells = v.cells
    if cells is not None and width % 2 == 0 and len(cells) >= width // 2:
        for c in reversed(cells[: width // 2]):
            if type(c) is int:
                out += [ord(ch) for ch in ("%02X" if upper else "%02x") % c]
            else:
                out += [hexchar(z3.Extract(7, 4, c), upper), hexchar(z3.Extract(3, 0, c), upper)]
        return SymStr.mk(out)
    for i in range(width - 1, -1, -1):
        out.append(hexchar(z3.Extract(4 * i + 3, 4 * i, t), upper))
    return SymStr.mk(out)


def fmt_value(v, spec):
    """format(v, spec)."""
    if not is_sym(v):
        if has_sym_str(v):
            return to_str(v)
        return format(v, spec)
    if isinstance(v, str):
        if spec in ("", "s"):
            return v
        return LazyStr(lambda: format(realise(v), spec))
    if isinstance(v, int) and len(spec) >= 3 and spec[0] == "0" and spec[-1] in "xX" and spec[1:-1].isdigit():
        w = int(spec[1:-1])
        iv = as_int(v)
        if type(iv) is SymInt and iv.lo >= 0 and iv.hi < 16 ** w:
            return hex_int(iv, w, spec[-1] == "X")
    if spec == "":
        return to_str(v)
    return LazyStr(lambda: format(realise(v), spec))


def has_sym_str(v):
    return False


def realise(v):
    """A concrete value for v: forks over integers, picks for the rest."""
    if type(v) is SymInt:
        return v.concrete()
    if type(v) is SymBool:
        return bool(v)
    if type(v) is SymFloat:
        return float(v)
    if isinstance(v, str) and is_sym(v):
        return "".join(chr(c if type(c) is int else core.CUR.pick(c.t, not c.uns, "text at a C boundary"))
                       for c in v.c)
    if is_sym(v):
        return bytes(c if type(c) is int else core.CUR.pick(c, False, "bytes at a C boundary") for c in v.c)
    return v


def to_str(v):
    """str(v)."""
    if is_sym(v):
        if isinstance(v, str):
            return v
        if type(v) is SymInt:
            return NumStr(v)
        return LazyStr(lambda: str(realise(v)))
    m = type(v).__str__
    r = m(v)
    return r


def to_repr(v):
    if is_sym(v):
        return LazyStr(lambda: repr(realise(v)))
    try:
        return repr(v)
    except Unsupported:
        return LazyStr(lambda: "<object>")


def concat(parts):
    """f-string assembly."""
    if all(type(p) is str for p in parts):
        return "".join(parts)
    if any(isinstance(p, LazyStr) and p._c is None for p in parts):
        ps = list(parts)
        return LazyStr(lambda: SymStr.mk([c for p in ps for c in str_cells(p)]), ps)
    return SymStr.mk([c for p in parts for c in str_cells(p)])


import re

_PCT = re.compile(r"%(?:\(([^)]*)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])")


def percent(fmt, args):
    if is_sym(fmt):
        raise Unsupported("% on a symbolic format")
    tup = args if type(args) is tuple else (args,)
    out, pos, k = [], 0, 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, code = m.groups()
        if code == "%":
            out.append("%")
            continue
        if key is not None:
            v = args[key]
        else:
            if k >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[k]
            k += 1
        one = "%" + flags + width + ("." + prec if prec else "") + code
        if code in "xX" and flags == "0" and width and not prec:
            iv = as_int(v)
            if type(iv) is SymInt:
                w = int(width)
                if iv.lo >= 0 and iv.hi < 16 ** w:
                    out.append(hex_int(iv, w, code == "X"))
                    continue
        if code == "s" and one == "%s":
            from . import models
            out.append(models.call(str, v))
            continue
        if is_sym(v):
            out.append(LazyStr(lambda one=one, v=v: one % realise(v)))
        elif code == "r":
            out.append(to_repr(v))
        else:
            out.append(one % (v,))
    out.append(fmt[pos:])
    if k < len(tup) and type(args) is tuple:
        raise TypeError("not all arguments converted during string formatting")
    return concat(out)
