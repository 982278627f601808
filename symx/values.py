"""Symbolic stand-ins for bool, int, float, bytes and str.

ints    exact Python integers: a bit-vector term that is always wide enough, with a
        known interval [lo, hi]; never wraps.
floats  IEEE double, as z3 FP term and/or the bits they were read from and/or an exact
        dyadic m * 2**e.
bytes   a list of cells (int or 8-bit term); the length is concrete on each path.
str     a list of cells (int or SymInt code point); the length is concrete on each path.
"""
import math
import struct as _struct

import z3

from . import core
from .core import Unsupported

F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()


def is_sym(x):
    return isinstance(type(x), SymMeta)


class SymMeta(type):
    pass


class SymBase(metaclass=SymMeta):
    __slots__ = ()

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        if hasattr(self.__class__, name):
            raise Unsupported("%s.%s" % (self.__class__.__name__, name))
        raise AttributeError("'%s' object has no attribute '%s'" % (self.__class__.__name__, name))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")


# ------------------------------------------------------------------------ bool
class SymBool(SymBase):
    __slots__ = ("t",)
    __class__ = property(lambda self: bool)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.CUR.fork(self.t)

    def _int(self):
        return SymInt.mk(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mk_bool(self.t == o.t)
        if type(o) is bool:
            return self if o else mk_bool(z3.Not(self.t))
        if type(o) in (int, float) or isinstance(o, SymInt):
            return self._int() == o
        return False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<SymBool>"

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __and__(self, o):
        if isinstance(o, (SymBool,)) or type(o) is bool:
            return sym_and(self, o)
        return self._int() & o

    def __or__(self, o):
        if isinstance(o, (SymBool,)) or type(o) is bool:
            return sym_or(self, o)
        return self._int() | o

    def __xor__(self, o):
        if isinstance(o, (SymBool,)) or type(o) is bool:
            return sym_not(self == o)
        return self._int() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "lshift", "rlshift", "rshift", "rrshift",
            "floordiv", "rfloordiv", "mod", "rmod", "truediv", "lt", "le", "gt", "ge", "neg", "pos",
            "abs", "invert"):
    def _mk(op):
        def f(self, *a):
            return getattr(self._int(), op)(*a)
        return f
    setattr(SymBool, "__%s__" % _op, _mk("__%s__" % _op))


def mk_bool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(b):
    """z3 Bool of a bool-like."""
    if type(b) is bool:
        return z3.BoolVal(b)
    if isinstance(type(b), SymMeta) and type(b) is SymBool:
        return b.t
    raise TypeError(type(b))


def sym_not(b):
    if type(b) is bool:
        return not b
    if type(b) is SymBool:
        return SymBool(z3.Not(b.t))
    return not b


def sym_and(*bs):
    ts = []
    for b in bs:
        if type(b) is bool:
            if not b:
                return False
        else:
            ts.append(b.t)
    if not ts:
        return True
    return SymBool(ts[0] if len(ts) == 1 else z3.And(*ts))


def sym_or(*bs):
    ts = []
    for b in bs:
        if type(b) is bool:
            if b:
                return True
        else:
            ts.append(b.t)
    if not ts:
        return False
    return SymBool(ts[0] if len(ts) == 1 else z3.Or(*ts))


# ------------------------------------------------------------------------- int
def sbits(lo, hi):
    """Width of a two's complement signed vector holding [lo, hi]."""
    a = hi.bit_length() + 1 if hi >= 0 else 1
    b = (-lo - 1).bit_length() + 1 if lo < 0 else 1
    return max(a, b)


class SymInt(SymBase):
    """value = signed interpretation of `t` (after zero extension if lo >= 0)."""

    __slots__ = ("_t", "lo", "hi", "cells", "uns", "lin")
    __class__ = property(lambda self: int)

    def __init__(self, t, lo, hi, uns, cells=None):
        self._t, self.lo, self.hi, self.uns, self.cells = t, lo, hi, uns, cells
        self.lin = None  # (x, k): this is x*k for a constant k

    @staticmethod
    def mk(t, lo, hi, uns=False):
        """t signed unless uns."""
        if z3.is_bv_value(t):
            return t.as_long() if uns else t.as_signed_long()
        if lo == hi:
            return lo
        return SymInt(t, lo, hi, uns)

    @staticmethod
    def from_cells(cells, signed):
        """little-endian byte cells."""
        n = len(cells)
        if all(type(c) is int for c in cells):
            return int.from_bytes(bytes(cells), "little", signed=signed)
        if n == 0:
            return 0
        if signed:
            return SymInt(None, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1, False, list(cells))
        hi = (1 << (8 * n)) - 1
        k = n
        while k > 1 and type(cells[k - 1]) is int and cells[k - 1] == 0:
            k -= 1
        return SymInt(None, 0, (1 << (8 * k)) - 1, True, list(cells))

    @property
    def t(self):
        if self._t is None:
            cs = [cell_term(c) for c in reversed(self.cells)]
            self._t = cs[0] if len(cs) == 1 else z3.Concat(*cs)
        return self._t

    def bv(self, w):
        """The value modulo 2**w as a w-bit vector."""
        t = self.t
        s = t.size()
        if s == w:
            return t
        if s > w:
            return z3.Extract(w - 1, 0, t)
        return z3.ZeroExt(w - s, t) if self.uns else z3.SignExt(w - s, t)

    def with_range(self, lo, hi):
        lo, hi = max(lo, self.lo), min(hi, self.hi)
        return SymInt(self._t, lo, hi, self.uns, self.cells)

    # ---- conversions that need a concrete value
    def concrete(self):
        c = core.CUR
        if self.uns:
            return c.concretize(self.t, False)
        return c.concretize(self.t, True)

    def __index__(self):
        return self.concrete()

    __int__ = __index__

    def __float__(self):
        return float(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __bool__(self):
        return bool(self.nonzero())

    def nonzero(self):
        if self.lo > 0 or self.hi < 0:
            return True
        t = self.t
        return mk_bool(t != z3.BitVecVal(0, t.size()))

    # ---- attributes / methods of int
    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        t = a.bv(sbits(0, a.hi))
        w = t.size()
        lw = 16
        r = z3.BitVecVal(0, lw)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(i + 1, lw), r)
        return SymInt.mk(r, a.lo.bit_length() if a.lo > 0 else 0, a.hi.bit_length())

    def bit_count(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_count()
        t = a.bv(sbits(0, a.hi))
        r = z3.BitVecVal(0, 16)
        for i in range(t.size()):
            r = r + z3.ZeroExt(15, z3.Extract(i, i, t))
        return SymInt.mk(r, 0, t.size())

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = int(length)
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if signed:
            lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if length else (0, 0)
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
        if not signed and self.lo < 0 and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not (self.lo >= lo and self.hi <= hi):
            if not bool(sym_and(self >= lo, self <= hi)):
                raise OverflowError("int too big to convert")
        cells = self.low_cells(length)
        if byteorder == "big":
            cells = cells[::-1]
        elif byteorder != "little":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return SymBytes.mk(cells)

    def low_cells(self, n):
        if self.cells is not None and len(self.cells) >= n:
            return self.cells[:n]
        if self.cells is not None and self.uns:
            return self.cells + [0] * (n - len(self.cells))
        t = self.bv(8 * n) if n else None
        return [norm_cell(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)]

    # ---- arithmetic
    def _bin(self, o, lo, hi, f):
        w = sbits(lo, hi)
        return SymInt.mk(f(self.bv(w), bvof(o, w)), lo, hi)

    def __add__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if o is FLOAT:
            return NotImplemented
        l, h = rng(o)
        return self._bin(o, self.lo + l, self.hi + h, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        o = as_int(o)
        if o is None or o is FLOAT:
            return NotImplemented
        l, h = rng(o)
        return self._bin(o, self.lo - h, self.hi - l, lambda a, b: a - b)

    def __rsub__(self, o):
        o = as_int(o)
        if o is None or o is FLOAT:
            return NotImplemented
        l, h = rng(o)
        return self._bin(o, l - self.hi, h - self.lo, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) is float:
            return self.to_float() * o
        if type(o) in (str, bytes, list, tuple) or (is_sym(o) and type(o) in (SymStr, LazyStr, SymBytes)):
            return o * self.concrete()
        o = as_int(o)
        if o is None or o is FLOAT:
            return NotImplemented
        l, h = rng(o)
        c = [self.lo * l, self.lo * h, self.hi * l, self.hi * h]
        r = self._bin(o, min(c), max(c), lambda a, b: a * b)
        if type(o) is int and type(r) is SymInt and r is not self:
            x, k = self.lin or (self, 1)
            r.lin = (x, k * o)
        return r

    __rmul__ = __mul__

    def __neg__(self):
        w = sbits(-self.hi, -self.lo)
        w = max(w, sbits(self.lo, self.hi))
        return SymInt.mk(-self.bv(w), -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = sbits(0, hi)
        a = self.bv(w)
        neg = self.bv(sbits(self.lo, self.hi)) < 0
        return SymInt.mk(z3.If(neg, -a, a), 0, hi)

    def __invert__(self):
        return -self - 1

    def _bit(self, o, f, kind):
        o = as_int(o)
        if o is None or o is FLOAT:
            return NotImplemented
        l, h = rng(o)
        if kind == "and" and type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            k = o.bit_length()
            if k == 0:
                return 0
            if self.lo >= 0 and self.hi <= o:
                return self
            if self.cells is not None and k % 8 == 0 and k // 8 <= len(self.cells):
                return SymInt.from_cells(self.cells[: k // 8], False)
            return SymInt.mk(z3.simplify(self.bv(k)), 0, o, uns=True)
        w = max(sbits(self.lo, self.hi), sbits(l, h))
        r = f(self.bv(w), bvof(o, w))
        if kind == "and":
            if self.lo >= 0 and l >= 0:
                lo, hi = 0, min(self.hi, h)
            elif self.lo >= 0:
                lo, hi = 0, self.hi
            elif l >= 0:
                lo, hi = 0, h
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        elif self.lo >= 0 and l >= 0:
            lo, hi = 0, (1 << max(self.hi.bit_length(), h.bit_length())) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return SymInt.mk(r, lo, hi)

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b, "and")

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b, "or")

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b, "xor")

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, o):
        o = as_int(o)
        if o is None or o is FLOAT:
            return NotImplemented
        if type(o) is int:
            if o < 0:
                raise ValueError("negative shift count")
            lo, hi = self.lo << o, self.hi << o
            w = sbits(lo, hi)
            return SymInt.mk(self.bv(w) << o, lo, hi)
        return shl(self, o)

    def __rlshift__(self, o):
        return shl(o, self)

    def __rshift__(self, o):
        o = as_int(o)
        if o is None or o is FLOAT:
            return NotImplemented
        if type(o) is int:
            if o < 0:
                raise ValueError("negative shift count")
            lo, hi = self.lo >> o, self.hi >> o
            if self.cells is not None and self.uns and o % 8 == 0:
                return SymInt.from_cells(self.cells[o // 8:], False)
            if lo == hi:
                return lo
            w = sbits(self.lo, self.hi)
            return SymInt.mk(self.bv(w) >> min(o, w - 1), lo, hi)
        if bool(o < 0):
            raise ValueError("negative shift count")
        w = max(sbits(self.lo, self.hi), sbits(0, max(o.hi, 1)))
        cs = [self.lo, self.hi, 0, -1 if self.lo < 0 else 0]
        return SymInt.mk(self.bv(w) >> o.bv(w), min(cs), max(cs))

    def __rrshift__(self, o):
        if type(o) is not int:
            return NotImplemented
        return SymInt.mk(z3.BitVecVal(o, sbits(o, o)), o, o, False) >> self if False else rshr(o, self)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def _divmod(self, o):
        o = as_int(o)
        if o is None or o is FLOAT:
            return NotImplemented
        if type(o) is not int:
            if bool(o == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            o = o.concrete()
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            q, r = (-self)._divmod(-o) if not isinstance(-self, int) else divmod(-self, -o)
            return q, -r
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            return self >> k, self & (o - 1)
        w = max(sbits(self.lo, self.hi), sbits(0, o)) + 1
        a, b = self.bv(w), z3.BitVecVal(o, w)
        if self.lo >= 0:
            q, r = z3.UDiv(a, b), z3.URem(a, b)
        else:
            q0, r0 = a / b, z3.SRem(a, b)
            adj = r0 < 0
            q, r = z3.If(adj, q0 - 1, q0), z3.If(adj, r0 + b, r0)
        return (SymInt.mk(q, self.lo // o, self.hi // o), SymInt.mk(r, 0, min(o - 1, self.hi) if self.lo >= 0 else o - 1))

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __rmod__(self, o):
        return o % self.concrete()

    def __rdivmod__(self, o):
        return divmod(o, self.concrete())

    def __pow__(self, o, m=None):
        if type(o) is int and m is None and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.concrete(), o, m)

    def __rpow__(self, o):
        if o == 2:
            if bool(self < 0):
                return 2 ** self.concrete()
            return shl(1, self)
        return o ** self.concrete()

    def __truediv__(self, o):
        return self.to_float() / o

    def __rtruediv__(self, o):
        return SymFloat.const(float(o)) / self.to_float()

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        return round(self.concrete(), nd)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def to_float(self):
        if -(1 << 53) <= self.lo and self.hi <= (1 << 53):
            return SymFloat(dy=(self, 0))
        w = max(2, sbits(self.lo, self.hi))
        ok = sym_and(self >= -(1 << 53), self <= (1 << 53))
        if bool(ok):
            return SymFloat(dy=(self.with_range(-(1 << 53), 1 << 53), 0))
        return SymFloat(fp=z3.fpToFP(RNE, self.bv(w), F64))

    # ---- comparisons
    def _cmp(self, o, f, ff):
        if type(o) is float:
            if math.isnan(o):
                return f is _ne
            if math.isinf(o):
                return ff(0.0, o)
            if o != int(o):
                # strict inequality against a non-integer
                fl = math.floor(o)
                if f is _eq:
                    return False
                if f is _ne:
                    return True
                if f in (_lt, _le):
                    return self._cmp(fl, _le, None)
                return self._cmp(fl, _gt, None)
            o = int(o)
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        if o2 is FLOAT:
            return NotImplemented
        l, h = rng(o2)
        if f is _lt and self.hi < l or f is _le and self.hi <= l:
            return True
        if f is _lt and self.lo >= h or f is _le and self.lo > h:
            return False
        if f is _gt and self.lo > h or f is _ge and self.lo >= h:
            return True
        if f is _gt and self.hi <= l or f is _ge and self.hi < l:
            return False
        if self.lo > h or self.hi < l:
            if f is _eq:
                return False
            if f is _ne:
                return True
        w = max(sbits(self.lo, self.hi), sbits(l, h))
        if f in (_eq, _ne) and self.uns and type(o2) is int:
            w = self.t.size()
            if o2 < 0 or o2 >> w:
                return f is _ne
        return mk_bool(f(self.bv(w), bvof(o2, w)))

    def __lt__(self, o):
        return self._cmp(o, _lt, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, _le, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, _gt, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, _ge, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, _eq, lambda a, b: False)
        return False if r is NotImplemented and type(o) is not SymFloat else r

    def __ne__(self, o):
        r = self._cmp(o, _ne, lambda a, b: True)
        return True if r is NotImplemented and type(o) is not SymFloat else r


_lt = lambda a, b: a < b
_le = lambda a, b: a <= b
_gt = lambda a, b: a > b
_ge = lambda a, b: a >= b
_eq = lambda a, b: a == b
_ne = lambda a, b: a != b


class _F:
    pass


FLOAT = _F()


def as_int(o):
    t = type(o)
    if t is int or t is SymInt:
        return o
    if t is bool:
        return int(o)
    if t is SymBool:
        return o._int()
    if t is float or t is SymFloat:
        return FLOAT
    if isinstance(t, SymMeta):
        return None
    if isinstance(o, int):
        return int(o)
    return None


def rng(o):
    if type(o) is int:
        return o, o
    return o.lo, o.hi


def bvof(o, w):
    if type(o) is int:
        return z3.BitVecVal(o, w)
    return o.bv(w)


def shl(a, s):
    """a << s with symbolic s."""
    if type(s) is int:
        return a << s
    if bool(s < 0):
        raise ValueError("negative shift count")
    if s.hi > 512:
        if not bool(s <= 512):
            raise core.BoundHit("shift count above 512")
        s = s.with_range(0, 512)
    l, h = rng(a)
    lo = min(l, l << s.hi)
    hi = max(h, h << s.hi)
    w = max(sbits(lo, hi), sbits(0, s.hi))
    return SymInt.mk(bvof(a, w) << s.bv(w), lo, hi)


def rshr(a, s):
    if bool(s < 0):
        raise ValueError("negative shift count")
    if s.hi > 512:
        if not bool(s <= 512):
            raise core.BoundHit("shift count above 512")
        s = s.with_range(0, 512)
    w = max(sbits(a, a), sbits(0, s.hi))
    return SymInt.mk(z3.BitVecVal(a, w) >> s.bv(w), min(a, 0) if a >= 0 else a, a if a >= 0 else -1)


def int_ite(c, a, b):
    """If(c, a, b) for ints."""
    la, ha = rng(a)
    lb, hb = rng(b)
    lo, hi = min(la, lb), max(ha, hb)
    w = sbits(lo, hi)
    return SymInt.mk(z3.If(bterm(c), bvof(a, w), bvof(b, w)), lo, hi)


def cell_term(c):
    return z3.BitVecVal(c, 8) if type(c) is int else c


def norm_cell(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else t


def cell_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is not int and type(b) is not int and a.eq(b):
        return True
    return SymBool(cell_term(a) == cell_term(b))


def cell_int(c):
    return c if type(c) is int else SymInt(c, 0, 255, True, [c])


def int_cell(i):
    """byte cell of an int known to be in range(256)."""
    if type(i) is int:
        return i
    return i.low_cells(1)[0]


# ----------------------------------------------------------------------- bytes
class SymBytes(SymBase):
    __slots__ = ("c", "tag")
    __class__ = property(lambda self: bytes)

    def __init__(self, cells, tag=None):
        self.c = cells
        self.tag = tag

    @staticmethod
    def mk(cells):
        if all(type(x) is int for x in cells):
            return bytes(cells)
        return SymBytes(list(cells))

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return (cell_int(x) for x in list(self.c))

    def __reversed__(self):
        return (cell_int(x) for x in self.c[::-1])

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(*(None if v is None else int(v) for v in (i.start, i.stop, i.step)))
            return SymBytes.mk(self.c[i])
        return cell_int(self.c[int(i)])

    def __add__(self, o):
        oc = bytes_cells(o)
        if oc is None:
            return NotImplemented
        return SymBytes.mk(self.c + oc)

    def __radd__(self, o):
        oc = bytes_cells(o)
        if oc is None:
            return NotImplemented
        return SymBytes.mk(oc + self.c)

    def __mul__(self, n):
        return SymBytes.mk(self.c * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        oc = bytes_cells(o)
        if oc is None:
            return False
        return cells_eq(self.c, oc)

    def __ne__(self, o):
        return sym_not(self == o)

    def _lt(self, o, strict):
        for a, b in zip(self.c, bytes_cells(o)):
            if bool(cell_eq(a, b)):
                continue
            return cell_int(a) < cell_int(b)
        n, m = len(self), len(o)
        return n < m if strict else n <= m

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return sym_not(self._lt(o, False))

    def __ge__(self, o):
        return sym_not(self._lt(o, True))

    def __hash__(self):
        return 0x5EED

    def __bool__(self):
        return len(self.c) > 0

    def __repr__(self):
        return "<SymBytes %d>" % len(self.c)

    def __contains__(self, x):
        return bool(bytes_in(self, x))

    def __bytes__(self):
        raise Unsupported("bytes(SymBytes) at a C boundary")

    def __buffer__(self, flags):
        raise Unsupported("buffer of SymBytes")

    def tobytes(self):
        return self

    def hex(self, *a):
        if a:
            raise Unsupported("hex sep")
        out = []
        for x in self.c:
            if type(x) is int:
                out += [ord(ch) for ch in "%02x" % x]
            else:
                out += [hexchar(z3.Extract(7, 4, x)), hexchar(z3.Extract(3, 0, x))]
        return SymStr.mk(out)

    def startswith(self, p, *a):
        if a:
            return SymBytes.mk(self.c)[slice(*a)].startswith(p)
        if type(p) is tuple:
            return sym_or(*[self.startswith(q) for q in p])
        pc = bytes_cells(p)
        if len(pc) > len(self.c):
            return False
        return cells_eq(self.c[: len(pc)], pc)

    def endswith(self, p):
        if type(p) is tuple:
            return sym_or(*[self.endswith(q) for q in p])
        pc = bytes_cells(p)
        if len(pc) > len(self.c):
            return False
        return cells_eq(self.c[len(self.c) - len(pc):], pc)

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.c
            out += bytes_cells(p)
        return SymBytes.mk(out)

    def find(self, sub, start=0, end=None):
        sc = bytes_cells(sub) if type(sub) is not int else [sub]
        end = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, end - len(sc) + 1):
            if bool(cells_eq(self.c[i:i + len(sc)], sc)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        sc = bytes_cells(sub) if type(sub) is not int else [sub]
        n = i = 0
        while i + len(sc) <= len(self.c):
            if bool(cells_eq(self.c[i:i + len(sc)], sc)):
                n += 1
                i += max(1, len(sc))
            else:
                i += 1
        return n

    def removesuffix(self, p):
        if len(p) and bool(self.endswith(p)):
            return SymBytes.mk(self.c[: len(self.c) - len(p)])
        return self

    def removeprefix(self, p):
        if len(p) and bool(self.startswith(p)):
            return SymBytes.mk(self.c[len(p):])
        return self

    def rstrip(self, chars=None):
        cs = list(bytes_cells(chars) if chars is not None else b" \t\n\r\x0b\x0c")
        out = list(self.c)
        while out and bool(sym_or(*[cell_eq(out[-1], k) for k in cs])):
            out.pop()
        return SymBytes.mk(out)

    def lstrip(self, chars=None):
        cs = list(bytes_cells(chars) if chars is not None else b" \t\n\r\x0b\x0c")
        out = list(self.c)
        while out and bool(sym_or(*[cell_eq(out[0], k) for k in cs])):
            out.pop(0)
        return SymBytes.mk(out)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("bytes.split()")
        sc = bytes_cells(sep)
        out, cur, i = [], [], 0
        while i < len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sc) <= len(self.c) and bool(
                    cells_eq(self.c[i:i + len(sc)], sc)):
                out.append(SymBytes.mk(cur))
                cur = []
                i += len(sc)
            else:
                cur.append(self.c[i])
                i += 1
        out.append(SymBytes.mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, b"", b""
        return SymBytes.mk(self.c[:i]), sep, SymBytes.mk(self.c[i + len(sep):])

    def ljust(self, w, fill=b" "):
        return SymBytes.mk(self.c + list(fill) * max(0, int(w) - len(self.c)))

    def isascii(self):
        return sym_and(*[True if type(x) is int and x < 128 else (False if type(x) is int else
                         SymBool(z3.Extract(7, 7, x) == 0)) for x in self.c])

    def decode(self, encoding="utf-8", errors="strict"):
        from . import text
        return text.decode(self.c, encoding, errors)


class SymByteArray(SymBytes):
    __slots__ = ()
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def __setitem__(self, i, v):
        if type(i) is slice:
            i = slice(*(None if k is None else int(k) for k in (i.start, i.stop, i.step)))
            bc = bytes_cells(v)
            self.c[i] = bc if bc is not None else [byte_of(x) for x in v]
        else:
            self.c[int(i)] = byte_of(v)

    def __delitem__(self, i):
        del self.c[i]

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(*(None if v is None else int(v) for v in (i.start, i.stop, i.step)))
            return SymByteArray(self.c[i])
        return cell_int(self.c[int(i)])

    def append(self, v):
        self.c.append(byte_of(v))

    def extend(self, it):
        bc = bytes_cells(it)
        self.c.extend(bc if bc is not None else [byte_of(x) for x in it])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def insert(self, i, v):
        self.c.insert(int(i), byte_of(v))

    def pop(self, i=-1):
        return cell_int(self.c.pop(int(i)))

    def reverse(self):
        self.c.reverse()

    def clear(self):
        self.c.clear()

    def copy(self):
        return SymByteArray(list(self.c))


class SubByteArray(SymByteArray):
    """Stands for bytearray as a base class."""

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, source=b"", *a):
        from . import models
        self.tag = None
        self.c = list(bytes_cells(models.call(bytearray, source, *a)))


class SymView(SymBytes):
    """memoryview of bytes that nobody changes meanwhile."""
    __slots__ = ()
    __class__ = property(lambda self: memoryview)
    readonly = True
    itemsize = ndim = 1
    format = "B"

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(*(None if v is None else int(v) for v in (i.start, i.stop, i.step)))
            return SymView(self.c[i])
        return cell_int(self.c[int(i)])

    def tobytes(self, *a):
        return SymBytes.mk(self.c)

    def tolist(self):
        return [cell_int(x) for x in self.c]

    @property
    def nbytes(self):
        return len(self.c)

    @property
    def obj(self):
        return SymBytes.mk(self.c)

    def cast(self, fmt, *a):
        if fmt not in ("B", "c") or a:
            raise Unsupported("memoryview.cast")
        return self

    def toreadonly(self):
        return self

    def release(self):
        self.c = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.release()

    def _none(self, *a, **k):
        raise AttributeError("'memoryview' object has no attribute")

    for _n in ("decode", "find", "index", "startswith", "endswith", "join", "split", "strip", "rstrip", "lstrip", "__add__", "__radd__",
               "__mul__", "__rmul__", "partition", "count", "isascii", "removeprefix", "removesuffix", "ljust"):
        locals()[_n] = property(_none)
    del _n


def byte_of(v):
    """byte cell of an int value, with bytes()'s range check."""
    v2 = as_int(v)
    if v2 is None or v2 is FLOAT:
        raise TypeError("'%s' object cannot be interpreted as an integer" % type_name(v))
    if type(v2) is int:
        if not 0 <= v2 < 256:
            raise ValueError("bytes must be in range(0, 256)")
        return v2
    if not (v2.lo >= 0 and v2.hi <= 255):
        if not bool(sym_and(v2 >= 0, v2 <= 255)):
            raise ValueError("bytes must be in range(0, 256)")
    return int_cell(v2)


def type_name(x):
    return x.__class__.__name__


def bytes_cells(o):
    t = type(o)
    if t is bytes or t is bytearray:
        return list(o)
    if t is SymBytes:
        return o.c
    if issubclass(t, SymBytes):
        return list(o.c)
    if t is memoryview:
        return list(o.tobytes())
    if issubclass(t, (bytes, bytearray)):
        return list(o)
    return None


def cells_eq(a, b):
    if len(a) != len(b):
        return False
    r = []
    for x, y in zip(a, b):
        e = cell_eq(x, y)
        if e is False:
            return False
        if e is not True:
            r.append(e)
    return sym_and(*r)


def bytes_in(hay, x):
    xs = as_int(x)
    if xs is not None and xs is not FLOAT:
        return sym_or(*[cell_int(c) == xs if type(c) is not int or type(xs) is not int else c == xs for c in bytes_cells(hay)])
    hc, sc = bytes_cells(hay), bytes_cells(x)
    return sym_or(*[cells_eq(hc[i:i + len(sc)], sc) for i in range(len(hc) - len(sc) + 1)])


# hexadecimal characters remember the nibble they came from
_HEX = {}


def hexchar(nib, upper=False):
    nib = z3.simplify(nib)
    if z3.is_bv_value(nib):
        return ord("%x" % nib.as_long())
    n = z3.ZeroExt(4, nib)
    t = z3.If(z3.ULT(n, 10), n + 48, n + (55 if upper else 87))
    c = SymInt(t, 48, 102, True)
    _HEX[t.get_id()] = (t, nib)
    return c


def hexval(ch):
    """(valid, nibble4) for a char cell."""
    if type(ch) is int:
        try:
            return True, z3.BitVecVal(int(chr(ch), 16), 4)
        except ValueError:
            return False, None
    e = _HEX.get(ch.t.get_id())
    if e is not None and e[0].eq(ch.t):
        return True, e[1]
    lo, up, dg = sym_and(ch >= 97, ch <= 102), sym_and(ch >= 65, ch <= 70), sym_and(ch >= 48, ch <= 57)
    ok = sym_or(lo, up, dg)
    b = ch.bv(8)
    return ok, z3.Extract(3, 0, z3.If(bterm(dg), b - 48, z3.If(bterm(lo), b - 87, b - 55)))


# ------------------------------------------------------------------------- str
class SymStr(SymBase):
    __slots__ = ("_c",)
    __class__ = property(lambda self: str)

    def __init__(self, cells):
        self._c = cells

    @property
    def c(self):
        return self._c

    @staticmethod
    def mk(cells):
        if all(type(x) is int for x in cells):
            return "".join(map(chr, cells))
        return SymStr(list(cells))

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return (SymStr.mk([x]) for x in list(self.c))

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(*(None if v is None else int(v) for v in (i.start, i.stop, i.step)))
            return SymStr.mk(self.c[i])
        return SymStr.mk([self.c[int(i)]])

    def __add__(self, o):
        oc = str_cells(o)
        return NotImplemented if oc is None else SymStr.mk(self.c + oc)

    def __radd__(self, o):
        oc = str_cells(o)
        return NotImplemented if oc is None else SymStr.mk(oc + self.c)

    def __mul__(self, n):
        return SymStr.mk(self.c * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import text
        return text.percent(self, args)

    def __eq__(self, o):
        oc = str_cells(o)
        if oc is None:
            return False
        return scells_eq(self.c, oc)

    def __ne__(self, o):
        return sym_not(self == o)

    def _less(self, o, strict):
        oc = str_cells(o)
        for a, b in zip(self.c, oc):
            if bool(sym_eq_int(a, b)):
                continue
            return a < b
        return len(self.c) < len(oc) if strict else len(self.c) <= len(oc)

    def __lt__(self, o):
        return self._less(o, True)

    def __le__(self, o):
        return self._less(o, False)

    def __gt__(self, o):
        return sym_not(self._less(o, False))

    def __ge__(self, o):
        return sym_not(self._less(o, True))

    def __hash__(self):
        return 0x5712

    def __bool__(self):
        return len(self.c) > 0

    def __repr__(self):
        return "<SymStr %d>" % len(self.c)

    def __str__(self):
        raise Unsupported("str(SymStr) at a C boundary")

    def __format__(self, spec):
        raise Unsupported("format(SymStr) at a C boundary")

    def __contains__(self, x):
        return bool(str_in(self, x))

    def isascii(self):
        r = []
        for x in self.c:
            if type(x) is int:
                if x > 127:
                    return False
            elif x.hi > 127:
                e = x <= 127
                if e is False:
                    return False
                if e is not True:
                    r.append(e)
        return sym_and(*r)

    def encode(self, encoding="utf-8", errors="strict"):
        from . import text
        return text.encode(self.c, encoding, errors)

    def startswith(self, p, *a):
        if a:
            return (self[slice(*a)]).startswith(p)
        if type(p) is tuple:
            return sym_or(*[self.startswith(q) for q in p])
        pc = str_cells(p)
        return len(pc) <= len(self.c) and scells_eq(self.c[: len(pc)], pc)

    def endswith(self, p):
        if type(p) is tuple:
            return sym_or(*[self.endswith(q) for q in p])
        pc = str_cells(p)
        return len(pc) <= len(self.c) and scells_eq(self.c[len(self.c) - len(pc):], pc)

    def removesuffix(self, p):
        if len(p) and bool(self.endswith(p)):
            return SymStr.mk(self.c[: len(self.c) - len(p)])
        return self

    def removeprefix(self, p):
        if len(p) and bool(self.startswith(p)):
            return SymStr.mk(self.c[len(p):])
        return self

    def find(self, sub, start=0, end=None):
        sc = str_cells(sub)
        end = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, end - len(sc) + 1):
            if bool(scells_eq(self.c[i:i + len(sc)], sc)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sc = str_cells(sub)
        end = len(self.c) if end is None else min(end, len(self.c))
        for i in range(end - len(sc), start - 1, -1):
            if bool(scells_eq(self.c[i:i + len(sc)], sc)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        return len(self.split(sub)) - 1

    def replace(self, old, new, count=-1):
        oc, nc = str_cells(old), str_cells(new)
        if not oc:
            raise Unsupported("replace of empty string")
        out, i = [], 0
        while i < len(self.c):
            if count != 0 and i + len(oc) <= len(self.c) and bool(scells_eq(self.c[i:i + len(oc)], oc)):
                out += nc
                i += len(oc)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return SymStr.mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("str.split()")
        sc = str_cells(sep)
        out, cur, i = [], [], 0
        while i < len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sc) <= len(self.c) and bool(
                    scells_eq(self.c[i:i + len(sc)], sc)):
                out.append(SymStr.mk(cur))
                cur = []
                i += len(sc)
            else:
                cur.append(self.c[i])
                i += 1
        out.append(SymStr.mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("str.rsplit()")
        if maxsplit < 0:
            return self.split(sep)
        out, rest = [], self
        while maxsplit > 0:
            i = SymStr(str_cells(rest)).rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.c
            pc = str_cells(p)
            if pc is None:
                raise TypeError("sequence item %d: expected str instance" % i)
            out += pc
        return SymStr.mk(out)

    def _strip(self, chars, left, right):
        cs = str_cells(chars) if chars is not None else [32, 9, 10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0]
        out = list(self.c)
        while left and out and bool(sym_or(*[sym_eq_int(out[0], k) for k in cs])):
            out.pop(0)
        while right and out and bool(sym_or(*[sym_eq_int(out[-1], k) for k in cs])):
            out.pop()
        return SymStr.mk(out)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _case(self, up):
        if not bool(self.isascii()):
            raise Unsupported("case mapping of non-ASCII text")
        a, z, d = (97, 122, -32) if up else (65, 90, 32)
        out = []
        for x in self.c:
            if type(x) is int:
                out.append(x + d if a <= x <= z else x)
            else:
                x = x.with_range(0, 127)
                out.append(int_ite(sym_and(x >= a, x <= z), x + d, x) if is_sym(sym_and(x >= a, x <= z))
                           else (x + d if sym_and(x >= a, x <= z) else x))
        return SymStr.mk(out)

    def lower(self):
        return self._case(False)

    casefold = lower

    def upper(self):
        return self._case(True)

    def isdigit(self):
        if not self.c:
            return False
        return sym_and(self.isascii(), *[(48 <= x <= 57) if type(x) is int else sym_and(x >= 48, x <= 57) for x in self.c])

    def isprintable(self):
        return sym_and(self.isascii(), *[(32 <= x < 127) if type(x) is int else sym_and(x >= 32, x < 127) for x in self.c])

    def ljust(self, w, fill=" "):
        return SymStr.mk(self.c + [ord(fill)] * max(0, int(w) - len(self.c)))

    def rjust(self, w, fill=" "):
        return SymStr.mk([ord(fill)] * max(0, int(w) - len(self.c)) + self.c)

    zfill = lambda self, w: self.rjust(w, "0")

    def format(self, *a, **k):
        from . import models
        if any(type(c) is not int for c in self.c):
            raise Unsupported("str.format on a symbolic format")
        return models.str_format("".join(map(chr, self.c)), a, k)

    def format_map(self, m):
        from . import models
        if any(type(c) is not int for c in self.c):
            raise Unsupported("str.format on a symbolic format")
        return models.str_format("".join(map(chr, self.c)), (), m)


class LazyStr(SymStr):
    """Formatted text nobody may look at (messages); rendered on first use."""

    __slots__ = ("render", "parts")

    def __init__(self, render, parts=None):
        self._c = None
        self.render = render
        self.parts = parts or ()

    def __eq__(self, o):
        if self._c is None and type(o) is str:
            # fixed text at either end often settles it
            n = 0
            for p in self.parts:
                if type(p) is not str:
                    break
                if o[n:n + len(p)] != p:
                    return False
                n += len(p)
            n = len(o)
            for p in reversed(self.parts):
                if type(p) is not str:
                    break
                if n < len(p) or o[n - len(p):n] != p:
                    return False
                n -= len(p)
        return SymStr.__eq__(self, o)

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return SymStr.__hash__(self)

    @property
    def c(self):
        if self._c is None:
            self._c = str_cells(self.render())
        return self._c


class NumStr(LazyStr):
    """Decimal text of a number; int() and float() of it go back to the number."""
    __slots__ = ("val",)

    def __init__(self, val):
        LazyStr.__init__(self, lambda: (str(val.concrete()) if type(val) is SymInt else repr(float(val))))
        self.val = val

    def symlen(self):
        v = self.val
        if type(v) is not SymInt or self._c is not None:
            return len(self.c)
        neg = v < 0
        n = 1 + (int_ite(neg, 1, 0) if is_sym(neg) else int(neg))
        for k in range(1, len(str(max(abs(v.lo), abs(v.hi))))):
            big = sym_or(v >= 10 ** k, v <= -10 ** k)
            n = n + (int_ite(big, 1, 0) if is_sym(big) else int(big))
        return n


def str_cells(o):
    if type(o) is str:
        return [ord(x) for x in o]
    if type(o) is SymStr or type(o) is LazyStr or type(o) is NumStr:
        return list(o.c)
    if isinstance(o, str) and not is_sym(o):
        return [ord(x) for x in o]
    return None


def sym_eq_int(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int:
        a, b = b, a
    return a == b


def scells_eq(a, b):
    if len(a) != len(b):
        return False
    r = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        if x is y:
            continue
        e = sym_eq_int(x, y)
        if e is False:
            return False
        if e is not True:
            r.append(e)
    return sym_and(*r)


def str_in(hay, x):
    hc, sc = str_cells(hay), str_cells(x)
    if sc is None:
        raise TypeError("'in <string>' requires string as left operand")
    return sym_or(*[scells_eq(hc[i:i + len(sc)], sc) for i in range(len(hc) - len(sc) + 1)])


# ----------------------------------------------------------------------- float
class SymFloat(SymBase):
    """A double.  dy=(m, e): exactly m*2**e, |m| <= 2**53.  b32/b64: the bits it was read from."""

    __slots__ = ("_fp", "dy", "b32", "b64", "pre")
    __class__ = property(lambda self: float)

    def __init__(self, fp=None, dy=None, b32=None, b64=None, pre=None):
        self._fp, self.dy, self.b32, self.b64, self.pre = fp, dy, b32, b64, pre

    @staticmethod
    def const(v):
        return SymFloat(fp=z3.FPVal(v, F64))

    @staticmethod
    def from_bits32(cells):
        if all(type(c) is int for c in cells):
            return _struct.unpack("<f", bytes(cells))[0]
        return SymFloat(b32=SymInt.from_cells(cells, False))

    @staticmethod
    def from_bits64(cells):
        if all(type(c) is int for c in cells):
            return _struct.unpack("<d", bytes(cells))[0]
        return SymFloat(b64=SymInt.from_cells(cells, False))

    @property
    def fp(self):
        if self._fp is None:
            if self.b64 is not None:
                self._fp = z3.fpBVToFP(self.b64.bv(64), F64)
            elif self.b32 is not None:
                self._fp = z3.fpFPToFP(RNE, z3.fpBVToFP(self.b32.bv(32), F32), F64)
            elif self.pre is not None:
                m, c, e = self.pre
                self._fp = z3.fpMul(RNE, SymFloat(dy=(m, e)).fp, z3.FPVal(c, F64))
            else:
                m, e = self.dy
                if type(m) is int:
                    self._fp = z3.FPVal(math.ldexp(m, e), F64)
                else:
                    w = max(2, sbits(m.lo, m.hi))
                    self._fp = z3.fpToFP(RNE, m.bv(w), F64)
                    if e:
                        self._fp = z3.fpMul(RNE, self._fp, z3.FPVal(math.ldexp(1.0, e), F64))
        return self._fp

    # ---- classification, on bits where possible
    def _mant_exp(self):
        if self.b64 is not None:
            t = self.b64.bv(64)
            return z3.Extract(62, 52, t), z3.Extract(51, 0, t)
        t = self.b32.bv(32)
        return z3.Extract(30, 23, t), z3.Extract(22, 0, t)

    def isnan(self):
        if self.dy is not None or self.pre is not None:
            return False
        if self.b32 is not None or self.b64 is not None:
            e, m = self._mant_exp()
            return mk_bool(z3.And(e == z3.BitVecVal(-1, e.size()), m != 0))
        return mk_bool(z3.fpIsNaN(self.fp))

    def isinf(self):
        if self.dy is not None or self.pre is not None:
            return False
        if self.b32 is not None or self.b64 is not None:
            e, m = self._mant_exp()
            return mk_bool(z3.And(e == z3.BitVecVal(-1, e.size()), m == 0))
        return mk_bool(z3.fpIsInf(self.fp))

    def isfinite(self):
        return sym_not(sym_or(self.isnan(), self.isinf()))

    def is_integer(self):
        if self.dy is not None and self.dy[1] >= 0:
            return True
        return mk_bool(z3.And(z3.Not(z3.fpIsNaN(self.fp)), z3.Not(z3.fpIsInf(self.fp)),
                              z3.fpEQ(self.fp, z3.fpRoundToIntegral(z3.RTZ(), self.fp))))

    def bits64(self):
        """64-bit vector of the value (non-NaN meaning; NaN keeps its bits only if read as double)."""
        if self.b64 is not None:
            return self.b64.bv(64)
        return z3.fpToIEEEBV(self.fp)

    def concrete_note(self, why):
        c = core.CUR
        t = self.bits64()
        v = c.pick(t, False, why)
        return _struct.unpack("<d", _struct.pack("<Q", v))[0]

    def __float__(self):
        return self.concrete_note("float at a C boundary")

    def __int__(self):
        r = self.to_int("trunc")
        return int(r)

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return "<SymFloat>"

    def __bool__(self):
        return bool(self != 0.0)

    def __format__(self, spec):
        return format(float(self), spec)

    def hex(self):
        raise Unsupported("float.hex")

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")

    # ---- arithmetic
    def _lift(self, o):
        t = type(o)
        if t is SymFloat:
            return o
        if t is float:
            return _const_dy(o)
        i = as_int(o)
        if i is None or i is FLOAT:
            return None
        if type(i) is int:
            return _const_dy(float(i))
        return i.to_float()

    def __neg__(self):
        if self.dy is not None:
            # -0.0 matters: 0 has no sign in the dyadic form
            m, e = self.dy
            if type(m) is not int and (m.lo > 0 or m.hi < 0):
                return SymFloat(dy=(-m, e))
        if self.b64 is not None:
            return SymFloat(b64=self.b64 ^ (1 << 63))
        if self.b32 is not None:
            return SymFloat(b32=self.b32 ^ (1 << 31))
        return SymFloat(fp=z3.fpNeg(self.fp))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.dy is not None:
            return SymFloat(dy=(abs(self.dy[0]), self.dy[1]))
        if self.b64 is not None:
            return SymFloat(b64=self.b64 & ((1 << 63) - 1))
        if self.b32 is not None:
            return SymFloat(b32=self.b32 & ((1 << 31) - 1))
        return SymFloat(fp=z3.fpAbs(self.fp))

    def __mul__(self, o):
        if type(o) in (int, float) and o == 1 and not isinstance(o, bool):
            return SymFloat(self._fp, self.dy, self.b32, self.b64, self.pre)
        a, b = self, self._lift(o)
        if b is None:
            return NotImplemented
        if a.dy is not None and b.dy is not None:
            (m1, e1), (m2, e2) = a.dy, b.dy
            if type(m2) is not int:
                (m1, e1), (m2, e2) = (m2, e2), (m1, e1)
            if type(m2) is int and m2 != 0 and m2 > 0:
                p = m1 * m2
                l, h = rng(p)
                if max(abs(l), abs(h)) <= 1 << 53:
                    return SymFloat(dy=(p, e1 + e2))
                if not (l == 0 and False):
                    return SymFloat(pre=(m1, math.ldexp(m2, e2), e1))
        return SymFloat(fp=z3.fpMul(RNE, a.fp, b.fp))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (int, float) and o == 1:
            return SymFloat(self._fp, self.dy, self.b32, self.b64, self.pre)
        b = self._lift(o)
        if b is None:
            return NotImplemented
        if b.dy is not None and type(b.dy[0]) is int:
            m, e = b.dy
            if m == 0:
                raise ZeroDivisionError("float division by zero")
            if abs(m) & (abs(m) - 1) == 0 and m > 0 and self.dy is not None:
                k = m.bit_length() - 1 + e
                return SymFloat(dy=(self.dy[0], self.dy[1] - k))
        elif bool(b == 0.0):
            raise ZeroDivisionError("float division by zero")
        return SymFloat(fp=z3.fpDiv(RNE, self.fp, b.fp))

    def __rtruediv__(self, o):
        a = self._lift(o)
        if a is None:
            return NotImplemented
        return a / self

    def _addsub(self, o, sub, swap=False):
        a, b = self, self._lift(o)
        if b is None:
            return NotImplemented
        if swap:
            a, b = b, a
        if a.dy is not None and b.dy is not None:
            (m1, e1), (m2, e2) = a.dy, b.dy
            e = min(e1, e2)
            if max(e1, e2) - e < 60:
                x, y = m1 * (1 << (e1 - e)), m2 * (1 << (e2 - e))
                r = x - y if sub else x + y
                l, h = rng(r)
                if max(abs(l), abs(h)) <= 1 << 53:
                    return SymFloat(dy=(r, e))
        return SymFloat(fp=(z3.fpSub if sub else z3.fpAdd)(RNE, a.fp, b.fp))

    def __add__(self, o):
        return self._addsub(o, False)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, True)

    def __rsub__(self, o):
        return self._addsub(o, True, True)

    def __mod__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        if self.dy is not None and b.dy is not None and type(b.dy[0]) is int and b.dy[0] > 0:
            (m1, e1), (m2, e2) = self.dy, b.dy
            e = min(e1, e2)
            if max(e1, e2) - e < 60:
                r = (m1 * (1 << (e1 - e))) % (m2 << (e2 - e))
                l, h = rng(r)
                if h <= 1 << 53:
                    return SymFloat(dy=(r, e))
        raise Unsupported("float modulo")

    def __floordiv__(self, o):
        raise Unsupported("float floor division")

    __rmod__ = __rfloordiv__ = __floordiv__

    def __pow__(self, o, m=None):
        raise Unsupported("float power")

    __rpow__ = __pow__

    # ---- comparisons
    def _cmp(self, o, f, ffp):
        if self.dy is not None or (self.pre is not None and type(o) is float and math.isinf(o)):
            if type(o) is float and (math.isinf(o) or math.isnan(o)):
                if math.isnan(o):
                    return f is _ne
                return f(0.0, o)
        if type(o) is float and (self.b32 is not None or self.b64 is not None) and f in (_eq, _ne):
            if math.isnan(o):
                return f is _ne
            r = self._eq_const(o)
            return r if f is _eq else sym_not(r)
        b = self._lift(o)
        if b is None:
            if as_int(o) is None and not is_sym(o):
                return NotImplemented
            return NotImplemented
        if self.dy is not None and b.dy is not None:
            (m1, e1), (m2, e2) = self.dy, b.dy
            e = min(e1, e2)
            if max(e1, e2) - e < 200:
                x, y = m1 * (1 << (e1 - e)), m2 * (1 << (e2 - e))
                if type(x) is int and type(y) is int:
                    return f(x, y)
                if type(x) is int:
                    x, y, f = y, x, {_lt: _gt, _le: _ge, _gt: _lt, _ge: _le, _eq: _eq, _ne: _ne}[f]
                return x._cmp(y, f, None)
        return mk_bool(ffp(self.fp, b.fp))

    def _eq_const(self, v):
        if v == 0:
            t = self.b64.bv(64) if self.b64 is not None else self.b32.bv(32)
            return mk_bool(z3.Extract(t.size() - 2, 0, t) == 0)
        if self.b64 is not None:
            return self.b64 == int.from_bytes(_struct.pack("<d", v), "little")
        try:
            p = _struct.pack("<f", v)
        except OverflowError:
            return False
        if _struct.unpack("<f", p)[0] != v:
            return False
        return self.b32 == int.from_bytes(p, "little")

    def __lt__(self, o):
        return self._cmp(o, _lt, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, _le, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, _gt, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, _ge, z3.fpGEQ)

    def __eq__(self, o):
        r = self._cmp(o, _eq, z3.fpEQ)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, _ne, z3.fpNEQ)
        return True if r is NotImplemented else r

    # ---- to int
    def to_int(self, mode):
        """mode: trunc, floor, ceil, even."""
        if self.dy is not None:
            return dy_to_int(self.dy[0], self.dy[1], mode)
        if self.pre is not None:
            r = self._pre_to_int(mode)
            if r is not None:
                return r
        if bool(self.isnan()):
            raise ValueError("cannot convert float NaN to integer")
        if bool(self.isinf()):
            raise OverflowError("cannot convert float infinity to integer")
        if not bool(mk_bool(z3.And(z3.fpLT(self.fp, z3.FPVal(2.0 ** 63, F64)),
                                   z3.fpGT(self.fp, z3.FPVal(-(2.0 ** 63), F64))))):
            if bool(mk_bool(z3.And(z3.fpLT(self.fp, z3.FPVal(2.0 ** 130, F64)),
                                   z3.fpGT(self.fp, z3.FPVal(-(2.0 ** 130), F64))))):
                return SymInt.mk(z3.fpToSBV(z3.RTZ(), self.fp, z3.BitVecSort(132)), -(1 << 130), 1 << 130)
            raise Unsupported("huge float to int")
        rm = {"trunc": z3.RTZ(), "floor": z3.RTN(), "ceil": z3.RTP(), "even": RNE}[mode]
        return SymInt.mk(z3.fpToSBV(rm, self.fp, z3.BitVecSort(65)), -(1 << 63), 1 << 63)

    def _pre_to_int(self, mode):
        """round/trunc of RNE(m * c * 2**e), using that RNE moves the product by at most one part in 2**53.

        The exact product is an integer multiple of 2**k; the float result can only round
        differently if the product lies that close to a rounding boundary - asked of the solver."""
        m, c, e = self.pre
        d = _const_dy(c)
        cm, ce = d.dy
        p, k = m * cm, e + ce
        if k >= 0:
            return None
        l, h = rng(p)
        err = (max(abs(l), abs(h)) >> 52) + 1
        unit = 1 << -k
        if err * 4 >= unit:
            return None
        half = unit >> 1
        if mode == "even" and type(p) is SymInt and p.lin is not None:
            # p = x*K with K = q*unit + d, d small: (p + half) >> s = x*q + ((x*d + half) >> s)
            x, K = p.lin
            q = (K + half) // unit
            d = K - q * unit
            lo, hi = sorted((x.lo * d, x.hi * d))
            if lo + half > err and hi + half < unit - err:
                return x * q if q != 1 else x
        r = p & (unit - 1)
        if mode == "even":
            near = sym_and(r >= half - err, r <= half + err)
            base = (p + half) >> -k
        elif mode in ("trunc", "floor", "ceil"):
            near = sym_or(r <= err, r >= unit - err)
            exact = dy_to_int(p, k, mode)
            base = exact
        if bool(near):
            return None
        return base

    def __round__(self, nd=None):
        if nd is None:
            return self.to_int("even")
        raise Unsupported("round(x, n)")

    def __trunc__(self):
        return self.to_int("trunc")

    def __floor__(self):
        return self.to_int("floor")

    def __ceil__(self):
        return self.to_int("ceil")

    # ---- packing
    def pack64(self):
        if self.b64 is not None:
            return self.b64.low_cells(8)
        t = self.bits64()
        return [norm_cell(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(8)]

    def pack32(self, refuse=True):
        if self.b32 is not None:
            return self.b32.low_cells(4)
        f = z3.fpFPToFP(RNE, self.fp, F32)
        over = z3.And(z3.fpIsInf(f), z3.Not(z3.fpIsInf(self.fp)))
        if refuse and bool(mk_bool(over)):
            raise OverflowError("float too large to pack with f format")
        t = z3.fpToIEEEBV(f)
        return [norm_cell(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(4)]


def dy_to_int(m, e, mode):
    if e >= 0:
        return m * (1 << e)
    unit = 1 << -e
    if mode == "floor":
        return m >> -e
    if mode == "ceil":
        return -((-m) >> -e)
    if mode == "trunc":
        q = abs(m) >> -e
        if type(q) is int and type(m) is int:
            return q if m >= 0 else -q
        neg = m < 0
        if type(neg) is bool:
            return -q if neg else q
        return int_ite(neg, -q, q)
    q = m >> -e
    r = m & (unit - 1)
    half = unit >> 1
    up = sym_or(r > half, sym_and(r == half, (q & 1) == 1))
    if type(up) is bool:
        return q + 1 if up else q
    return int_ite(up, q + 1, q)


def _const_dy(v):
    if math.isnan(v) or math.isinf(v) or (v == 0 and math.copysign(1, v) < 0):
        return SymFloat.const(v)
    n, d = v.as_integer_ratio()
    e = -(d.bit_length() - 1)
    while n and n % 2 == 0 and abs(n) > 1 << 53:
        n //= 2
        e += 1
    if abs(n) > 1 << 53:
        k = abs(n).bit_length() - 53
        n, e = n >> k, e + k
    return SymFloat(dy=(n, e))


def float_ite(c, a, b):
    f = lambda x: x if type(x) is SymFloat else SymFloat.const(x)
    a, b = f(a), f(b)
    if a.dy is not None and b.dy is not None and a.dy[1] == b.dy[1]:
        return SymFloat(dy=(int_ite(c, a.dy[0], b.dy[0]), a.dy[1]))
    if a.b64 is not None and b.b64 is not None:
        return SymFloat(b64=int_ite(c, a.b64, b.b64))
    if a.b32 is not None and b.b32 is not None:
        return SymFloat(b32=int_ite(c, a.b32, b.b32))
    return SymFloat(fp=z3.If(bterm(c), a.fp, b.fp))
