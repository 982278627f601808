"""Models of the C-implemented callables the code under test uses.

`call(f, *a, **k)` is what every call in the instrumented source goes through.  Python
functions run as they are; C callables that would look inside a symbolic value are
replaced by the models below; anything unknown gets the symbolic arguments realised to
one feasible value and the path is recorded as incomplete (never a false alarm: every
reported violation is replayed on the real interpreter).
"""
import base64
import binascii
import builtins
import enum
import functools
import io
import itertools
import json
import string as _stringmod
import _string
import math
import operator
import os
import struct
import sys
import types
import uuid
import zlib

import z3

from . import core, text
from .core import Unsupported
from .values import (FLOAT, LazyStr, NumStr, SymBase, SubByteArray, SymBool, SymByteArray, SymBytes, SymView, SymFloat, SymInt, SymStr, as_int,
                     bterm, byte_of, bytes_cells, bytes_in, cell_int, cells_eq, float_ite, hexval, int_ite,
                     is_sym, mk_bool, norm_cell, rng, str_cells, str_in, sym_and, sym_not, sym_or, type_name)

MODELS = {}       # callable -> model
METHODS = {}      # (type of __self__, name) -> model(self, *a)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def deep_sym(x, depth=3):
    if is_sym(x) or isinstance(x, (SymUUID, SymBytesIO)):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and type(x) is dict:
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in x.items())
    return False


def deep_realise(x):
    if is_sym(x):
        return text.realise(x)
    if type(x) is list:
        return [deep_realise(y) for y in x]
    if type(x) is tuple:
        return tuple(deep_realise(y) for y in x)
    if type(x) is dict:
        return {deep_realise(k): deep_realise(v) for k, v in x.items()}
    if isinstance(x, SymUUID):
        return uuid.UUID(int=text.realise(x.int))
    return x


_PYFUNC = (types.FunctionType, types.MethodType)
_SAFE_SELF = (list, dict, set, tuple, types.ModuleType, types.GeneratorType)
# builtins that are happy with symbolic arguments as they are
SAFE = {isinstance, issubclass, callable, getattr, setattr, hasattr, delattr, id, iter, next, enumerate, zip,
        reversed, list, tuple, set, frozenset, dict, object, super, slice, abs, divmod, any, all, vars,
        dir, property, staticmethod, classmethod, itertools.chain, itertools.islice, itertools.repeat,
        itertools.count, itertools.takewhile, operator.itemgetter, operator.attrgetter, type(None),
        itertools.zip_longest, itertools.starmap, object.__setattr__, object.__new__, object.__init__,
        operator.eq, operator.ne, operator.lt, operator.gt, operator.le, operator.ge, operator.add, operator.sub,
        operator.mul, operator.and_, operator.or_, operator.xor, operator.lshift, operator.rshift,
        itertools.chain.from_iterable, operator.not_, operator.truth, pow, round, sorted, filter,
        functools.partial, functools.reduce}


def call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        if t is types.MethodType:
            g = METHODS.get((type(f.__self__), f.__name__))
            if g is not None:
                return g(f.__self__, *a, **k)
            m = MODELS.get(f.__func__)
            if m is not None:
                return m(f.__self__, *a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if issubclass(t, enum.EnumMeta) and len(a) == 1 and not k and is_sym(a[0]):
        for x in f:
            if bool(x.value == a[0]):
                return x
        raise ValueError("%s is not a valid %s" % ("value", f.__qualname__))
    if t is operator.methodcaller:
        _, (name, *pa), *pk = f.__reduce__()[:2] + ({},)
        if isinstance(f.__reduce__()[0], functools.partial):
            return realised(f, a, k)
        return call(getattr(a[0], name), *pa)
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            g = METHODS.get((type(s), f.__name__))
            if g is not None:
                return g(s, *a, **k)
            if isinstance(s, (list, dict, set)):
                return container_method(f, s, a, k)
            if isinstance(type(f.__self__), type) and is_sym(s):
                return f(*a, **k)
            if type(s) in (str, bytes, bytearray) and a and hasattr(type(a[0]), "__next__"):
                a = (list(a[0]),) + a[1:]
            if deep_sym(a) or (k and deep_sym(k)):
                if type(s) is str:
                    return getattr(SymStr([ord(c) for c in s]), f.__name__)(*a, **k)
                if type(s) is bytes:
                    return getattr(SymBytes(list(s)), f.__name__)(*a, **k)
                if type(s) in (int, bool):
                    r = getattr(int, f.__name__, None)
                    return f(*[text.realise(x) if is_sym(x) else x for x in a], **k)
                if type(s) in (tuple, types.GeneratorType) or isinstance(s, type):
                    return f(*a, **k)
                if isinstance(s, BaseException):
                    return f(*a, **k)
                return realised(f, a, k)
            return f(*a, **k)
    elif t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a and is_sym(a[0]):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and (deep_sym(a[1:]) or deep_sym(k)):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    elif isinstance(f, type):
        if f.__module__ != "builtins" or issubclass(f, BaseException):
            return f(*a, **k)  # Python or extension class: its fields may hold anything
    elif t not in (types.BuiltinFunctionType,):
        return f(*a, **k)
    try:
        if f in SAFE:
            return f(*a, **k)
    except TypeError:
        return f(*a, **k)
    if deep_sym(a) or (k and deep_sym(k)):
        return realised(f, a, k)
    return f(*a, **k)


def realised(f, a, k):
    core.CUR.note_incomplete("no model for %s" % getattr(f, "__qualname__", f))
    return f(*deep_realise(tuple(a)), **deep_realise(dict(k)))


# -------------------------------------------------------------- dict with symbolic keys
def has_sym_keys(d):
    for k in d:
        if is_sym(k):
            return True
    return False


def find_key(d, k):
    """The stored key equal to k on this path, or MISSING."""
    if is_sym(k):
        if type(k) is SymInt or type(k) is SymBool:
            for kk in d:
                if type(kk) in (int, bool) or is_sym(kk):
                    if bool(k == kk):
                        return kk
            return MISSING
        for kk in d:
            if kk is k:
                return kk
        for kk in d:
            e = k == kk
            if e is True or (is_sym(e) and bool(e)):
                return kk
        return MISSING
    if has_sym_keys(d):
        for kk in d:
            if is_sym(kk):
                if bool(kk == k):
                    return kk
            elif type(kk) is type(k) and kk == k:
                return kk
        return MISSING
    try:
        return k if k in d else MISSING
    except TypeError:
        raise


MISSING = object()


def needs_scan(d, k):
    return isinstance(d, dict) and (is_sym(k) or (isinstance(k, str) and has_sym_keys(d)))


def container_method(f, s, a, k):
    name = f.__name__
    if isinstance(s, dict) and a and needs_scan(s, a[0]):
        if name == "get":
            kk = find_key(s, a[0])
            return s[kk] if kk is not MISSING else (a[1] if len(a) > 1 else k.get("default"))
        if name == "pop":
            kk = find_key(s, a[0])
            if kk is not MISSING:
                return s.pop(kk)
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if name == "setdefault":
            kk = find_key(s, a[0])
            if kk is not MISSING:
                return s[kk]
            s[a[0]] = a[1] if len(a) > 1 else None
            return s[a[0]]
        if name in ("__contains__",):
            return find_key(s, a[0]) is not MISSING
    if isinstance(s, dict) and name == "update":
        for d in list(a) + [k]:
            items = d.items() if isinstance(d, dict) else d
            for kk, v in items:
                setitem(s, kk, v)
        return None
    return f(*a, **k)


def getitem(o, i):
    if type(o) is dict or isinstance(o, dict):
        if needs_scan(o, i):
            kk = find_key(o, i)
            if kk is MISSING:
                raise KeyError(i)
            return o[kk]
        return o[i]
    if type(o) in (str, bytes, list, tuple) and type(i) is SymInt and len(o) > 0:
        if type(o) in (str, bytes) and len(o) <= 256 and i.lo >= 0:
            # table lookup with a symbolic index
            if i.hi >= len(o) and not bool(i < len(o)):
                raise IndexError("index out of range")
            vals = list(o) if type(o) is bytes else [ord(c) for c in o]
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = int_ite(i == j, vals[j], r) if is_sym(i == j) else (vals[j] if i == j else r)
            return r if type(o) is bytes else SymStr.mk([r])
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and needs_scan(o, i):
        kk = find_key(o, i)
        if kk is not MISSING:
            o[kk] = v
            return
    if type(o) is bytearray and deep_sym((i, v)):
        raise Unsupported("real bytearray with symbolic content")
    o[i] = v


def contains(o, x):
    if isinstance(o, dict):
        if needs_scan(o, x):
            if is_sym(x):
                r = [x == kk for kk in o]
                r = [e for e in r if e is not False]
                if any(e is True for e in r):
                    return True
                return sym_or(*r) if r else False
            return find_key(o, x) is not MISSING
        return x in o
    if type(o) in (list, tuple, set, frozenset):
        if is_sym(x) or deep_sym(o, 1):
            rs = []
            for y in o:
                if y is x:
                    return True
                e = y == x if is_sym(y) else x == y
                if e is NotImplemented:
                    e = False
                if e is True:
                    return True
                if e is not False:
                    rs.append(e if type(e) in (bool, SymBool) else bool(e))
            return sym_or(*rs) if rs else False
        return x in o
    if isinstance(o, (str,)) and (is_sym(o) or is_sym(x)):
        return str_in(o, x)
    if isinstance(o, (bytes, bytearray)) and (is_sym(o) or is_sym(x)):
        return bytes_in(o, x)
    if isinstance(o, type({}.keys())) and is_sym(x):
        return contains(list(o), x)
    return x in o


def mod(a, b):
    if isinstance(a, str):
        if is_sym(a) or is_sym(b) or type(b) in (tuple, dict) or not isinstance(b, (int, float, str)):
            return text.percent(a, b)
    return a % b


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == ord("r"):
            v = text.to_repr(v)
        elif conv == ord("s"):
            v = call(str, v)
        elif conv == ord("a"):
            v = text.to_repr(v)
        if type(spec) is not str:
            spec = text.realise(spec)
        if not is_sym(v) and type(v) not in (str, int, float, bool, bytes) and spec == "":
            if type(v).__format__ is object.__format__:
                out.append(call(str, v) if type(v).__str__ is not object.__str__ else text.to_repr(v))
                continue
            if deep_sym(v):
                out.append(LazyStr(lambda v=v: format(deep_realise(v))))
                continue
        out.append(text.fmt_value(v, spec))
    return text.concat(out)


_FORMATTER = _stringmod.Formatter()


def str_format(fmt, a, k):
    out, auto = [], 0
    for lit, field, spec, conv in _FORMATTER.parse(fmt):
        out.append(lit)
        if field is None:
            continue
        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            first, auto = auto, auto + 1
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, x in rest:
            v = getattr(v, x) if is_attr else getitem(v, x)
        if spec:
            spec = str_format(spec, a, k)
        out.append(fstr((v, ord(conv) if conv else -1, spec)))
    return text.concat([fstr(x) if type(x) is not str else x for x in out])


def ite(c, a, b):
    """Conditional expression whose two sides are constants."""
    if type(c) is SymBool and type(a) is int and type(b) is int:
        return int_ite(c, a, b)
    if type(c) is SymInt and type(a) is int and type(b) is int:
        n = c.nonzero()
        return int_ite(n, a, b) if is_sym(n) else (a if n else b)
    return a if c else b


# ------------------------------------------------------------------------- io
class SymBytesIO:
    """io.BytesIO over symbolic bytes."""
    __class__ = property(lambda self: io.BytesIO)

    def __init__(self, initial_bytes=b""):
        self._b = list(cells_arg(initial_bytes)) if initial_bytes is not None else []
        self._p = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, size=-1, /):
        self._chk()
        if size is None:
            size = -1
        i = as_int(size)
        if i is None or i is FLOAT:
            raise TypeError("argument should be integer or None, not '%s'" % type_name(size))
        n = len(self._b)
        if is_sym(i):
            rem = n - self._p
            if i.lo < 0 and bool(i < 0):
                i = -1
            elif bool(i >= rem):
                i = rem if rem > 0 else 0
            else:
                i = int(i)
        if i < 0:
            i = max(0, n - self._p)
        r = self._b[self._p:self._p + i] if self._p < n else []
        self._p += len(r)
        return SymBytes.mk(r)

    read1 = read

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def readall(self):
        return self.read()

    def write(self, data, /):
        self._chk()
        c = cells_arg(data)
        if self._p > len(self._b):
            self._b.extend([0] * (self._p - len(self._b)))
        self._b[self._p:self._p + len(c)] = c
        self._p += len(c)
        return len(c)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def seek(self, pos, whence=0, /):
        self._chk()
        pos = int(pos)
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value %d" % pos)
            self._p = pos
        elif whence == 1:
            self._p = max(0, self._p + pos)
        else:
            self._p = max(0, len(self._b) + pos)
        return self._p

    def tell(self):
        self._chk()
        return self._p

    def getvalue(self):
        self._chk()
        return SymBytes.mk(self._b)

    def getbuffer(self):
        return SymView(list(self._b))

    def truncate(self, size=None):
        size = self._p if size is None else int(size)
        del self._b[size:]
        return size

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()


def cells_arg(d):
    c = bytes_cells(d)
    if c is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type_name(d))
    return c


MODELS[io.BytesIO] = SymBytesIO


@model(io.BufferedReader, io.BufferedWriter)
def _buf(x, *a):
    return x


@model(memoryview)
def _memoryview(x):
    if is_sym(x) and issubclass(type(x), SymBytes):
        return SymView(x.c)     # of a bytearray: sees its later changes
    return memoryview(x)


BASES = {bytearray: SubByteArray, io.BytesIO: SymBytesIO}


def base(c):
    """What a class of the package derives from."""
    try:
        return BASES.get(c, c)
    except TypeError:
        return c


# --------------------------------------------------------------------- struct
_SZ = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8,
       "e": 2, "f": 4, "d": 8, "s": 1, "p": 1}
_NSZ = dict(_SZ, l=8, L=8, n=8, N=8, P=8)


class Memo:
    """functools.lru_cache over values that may be symbolic (never evicts)."""

    def __init__(self, f):
        self.__wrapped__ = f
        self.seen = []
        functools.update_wrapper(self, f)

    def __call__(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, (list, dict, set, bytearray)):
                raise TypeError("unhashable type")
        for a0, k0, r in self.seen:
            if len(a0) == len(a) and list(k0) == list(k) and all(
                    x is y or bool(x == y) for x, y in zip(list(a0) + list(k0.values()), list(a) + list(k.values()))):
                return r
        r = call(self.__wrapped__, *a, **k)
        self.seen.append((a, k, r))
        return r

    def __get__(self, o, t=None):
        return self if o is None else types.MethodType(self, o)

    def cache_clear(self):
        del self.seen[:]


@model(functools.lru_cache)
def _lru_cache(maxsize=128, typed=False):
    return Memo(maxsize) if callable(maxsize) else Memo


@model(functools.cache)
def _cache(f):
    return Memo(f)


def deco(d):
    return lambda f: call(d, f)


@functools.lru_cache(None)
def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    struct.calcsize(fmt)
    native = True
    big = False
    if fmt[:1] in "@=<>!":
        if fmt[:1] in "=<>!" and fmt[:1]:
            native = False
        big = fmt[:1] in (">", "!") and fmt[:1] != ""
        fmt = fmt[1:] if fmt[:1] else fmt
    out, pos, i = [], 0, 0
    sz = _NSZ if native else _SZ
    while i < len(fmt):
        if fmt[i].isspace():
            i += 1
            continue
        j = i
        while fmt[j].isdigit():
            j += 1
        n = int(fmt[i:j]) if j > i else 1
        code = fmt[j]
        i = j + 1
        w = sz[code]
        if native and w > 1:
            pos = (pos + w - 1) // w * w
        if code == "s":
            out.append(("s", pos, n))
            pos += n
            continue
        if code == "p":
            raise Unsupported("struct p")
        for _ in range(n):
            if code != "x":
                out.append((code, pos, w))
            pos += w
        if n == 0 and native:
            pass
    return tuple(out), pos, big


def s_unpack(fmt, data):
    fmt = text.realise(fmt) if is_sym(fmt) else fmt
    c = bytes_cells(data)
    if c is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type_name(data))
    items, size, big = parse_fmt(fmt)
    if len(c) != size:
        raise struct.error("unpack requires a buffer of %d bytes" % size)
    return unpack_items(items, c, big)


def unpack_items(items, c, big):
    out = []
    for code, pos, w in items:
        x = c[pos:pos + w]
        if code == "s":
            out.append(SymBytes.mk(x))
            continue
        if big:
            x = x[::-1]
        if code in "BHILQN":
            out.append(SymInt.from_cells(x, False))
        elif code in "bhilqn":
            out.append(SymInt.from_cells(x, True))
        elif code == "?":
            v = cell_int(x[0])
            out.append(bool(v) if type(v) is int else v.nonzero())
        elif code == "f":
            out.append(SymFloat.from_bits32(x))
        elif code == "d":
            out.append(SymFloat.from_bits64(x))
        elif code == "c":
            out.append(SymBytes.mk(x))
        elif code == "e":
            if any(type(y) is not int for y in x):
                raise Unsupported("half float")
            out.append(struct.unpack("<e", bytes(x))[0])
        else:
            raise Unsupported("struct " + code)
    return tuple(out)


def s_pack(fmt, *vals):
    fmt = text.realise(fmt) if is_sym(fmt) else fmt
    items, size, big = parse_fmt(fmt)
    if len(items) != len(vals):
        raise struct.error("pack expected %d items for packing (got %d)" % (len(items), len(vals)))
    out = [0] * size
    for (code, pos, w), v in zip(items, vals):
        out[pos:pos + w] = pack_item(code, w, v, big, fmt[:1] in "<>=!" if isinstance(fmt, str) else fmt[:1] in b"<>=!")
    return SymBytes.mk(out)


def pack_item(code, w, v, big, std=True):
    if not is_sym(v) and not isinstance(v, SymUUID):
        if code == "s":
            return list(struct.pack("%ds" % w, v))
        c = {"l": {4: "i", 8: "q"}, "L": {4: "I", 8: "Q"}, "n": {8: "q"}, "N": {8: "Q"}, "P": {8: "Q"}}.get(code)
        if code == "f" and not std:    # native: rounds to infinity where the standard form refuses
            return list(struct.pack("f", v))
        return list(struct.pack((">" if big else "<") + (c[w] if c else code), v))
    if code == "s":
        c = bytes_cells(v)
        if c is None:
            raise struct.error("argument for 's' must be a bytes object")
        return (c + [0] * w)[:w]
    if code == "c":
        c = bytes_cells(v)
        if c is None or len(c) != 1:
            raise struct.error("char format requires a bytes object of length 1")
        return c
    if code == "?":
        if type(v) is SymBool:
            return [norm_cell(z3.If(v.t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
        if type(v) is SymInt:
            n = v.nonzero()
            return [1 if n is True else norm_cell(z3.If(bterm(n), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
        return [1 if v else 0]
    if code in "fde":
        if type(v) is SymInt or type(v) is SymBool:
            v = as_int(v).to_float()
        if type(v) is not SymFloat:
            raise struct.error("required argument is not a float")
        r = v.pack32(std) if code == "f" else v.pack64() if code == "d" else None
        if r is None:
            raise Unsupported("half float")
        return r[::-1] if big else r
    i = as_int(v)
    if i is None or i is FLOAT:
        raise struct.error("required argument is not an integer")
    signed = code in "bhilqn"
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    if not (lo <= i.lo and i.hi <= hi):
        if not bool(sym_and(i >= lo, i <= hi)):
            raise struct.error("'%s' format requires %d <= number <= %d" % (code, lo, hi))
    r = i.low_cells(w)
    return r[::-1] if big else r


def s_unpack_from(fmt, buffer, offset=0):
    c = bytes_cells(buffer)
    items, size, big = parse_fmt(fmt)
    offset = int(offset)
    if offset < 0:
        offset += len(c)
    if len(c) - offset < size:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % (size + offset))
    return unpack_items(items, c[offset:offset + size], big)


def s_iter_unpack(fmt, buffer):
    c = bytes_cells(buffer)
    items, size, big = parse_fmt(fmt)
    if size == 0 or len(c) % size:
        raise struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % size)
    return iter([unpack_items(items, c[i:i + size], big) for i in range(0, len(c), size)])


def s_pack_into(fmt, buf, off, *vals):
    d = s_pack(fmt, *vals)
    buf[int(off):int(off) + len(d)] = d


MODELS[struct.unpack] = s_unpack
MODELS[struct.pack] = s_pack
MODELS[struct.unpack_from] = s_unpack_from
MODELS[struct.iter_unpack] = s_iter_unpack
MODELS[struct.pack_into] = s_pack_into
METHODS[(struct.Struct, "unpack")] = lambda s, d: s_unpack(s.format, d)
METHODS[(struct.Struct, "pack")] = lambda s, *v: s_pack(s.format, *v)
METHODS[(struct.Struct, "unpack_from")] = lambda s, b, offset=0: s_unpack_from(s.format, b, offset)
METHODS[(struct.Struct, "iter_unpack")] = lambda s, b: s_iter_unpack(s.format, b)
METHODS[(struct.Struct, "pack_into")] = lambda s, b, o, *v: s_pack_into(s.format, b, o, *v)


# ---------------------------------------------------------------- constructors
@model(bytes)
def _bytes(x=b"", encoding=None, errors="strict"):
    if encoding is not None:
        return call(getattr(x, "encode"), encoding, errors)
    return SymBytes.mk(_byte_cells(x))


@model(bytearray)
def _bytearray(x=b"", encoding=None, errors="strict"):
    if encoding is not None:
        return SymByteArray(list(bytes_cells(call(getattr(x, "encode"), encoding, errors))))
    return SymByteArray(list(_byte_cells(x)))


def _byte_cells(x):
    c = bytes_cells(x)
    if c is not None:
        return c
    i = as_int(x)
    if i is FLOAT:
        raise TypeError("cannot convert 'float' object to bytes")
    if i is not None:
        n = int(i)
        if n < 0:
            raise ValueError("negative count")
        if n > 1 << 20:
            raise core.BoundHit("bytes() of more than 1 MiB")
        return [0] * n
    if isinstance(x, str):
        raise TypeError("string argument without an encoding")
    m = getattr(type(x), "__bytes__", None)
    if m is not None:
        return bytes_cells(m(x))
    if x is None:
        raise TypeError("cannot convert 'NoneType' object to bytes")
    return [byte_of(y) for y in x]


@model(str)
def _str(x="", *a):
    if a:
        return call(getattr(x, "decode"), *a)
    if isinstance(x, SymUUID):
        return x.sym_str()
    if type(x) is SymPath:
        return x.p
    if is_sym(x):
        return text.to_str(x)
    if type(x) in (list, tuple, dict) and deep_sym(x, 6):
        return LazyStr(lambda: str(deep_realise(x)))
    m = type(x).__str__
    if isinstance(m, types.FunctionType):
        return m(x)
    if isinstance(x, BaseException) and any(deep_sym(y, 6) for y in x.args):
        if len(x.args) == 1 and m is BaseException.__str__:
            return call(str, x.args[0])
        return LazyStr(lambda: str(type(x)(*[deep_realise(y) for y in x.args])))
    if m is object.__str__:
        return _repr(x)
    return str(x)


@model(repr, ascii)
def _repr(x):
    if is_sym(x):
        return text.to_repr(x)
    m = type(x).__repr__
    if isinstance(m, types.FunctionType):
        return m(x)
    if deep_sym(x, 6):
        return LazyStr(lambda: repr(deep_realise(x)))
    return repr(x)


@model(format)
def _format(v, spec=""):
    return text.fmt_value(v, spec)


@model(int)
def _int(x=0, base=None):
    if base is not None:
        if is_sym(x) and int(base) == 16:
            c = str_cells(x)
            return hex_to_int(c)
        return int(text.realise(x), base) if is_sym(x) else int(x, base)
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x._int()
    if type(x) is SymFloat:
        return x.to_int("trunc")
    if type(x) is NumStr and type(x.val) is SymInt:
        return x.val
    if is_sym(x):
        return int(text.realise(x))
    if isinstance(x, SymUUID):
        return x.int
    return int(x)


def hex_to_int(cells):
    nibs, oks = [], []
    for ch in cells:
        ok, nib = hexval(ch)
        if ok is False:
            raise ValueError("invalid literal for int() with base 16")
        if ok is not True:
            oks.append(ok)
        nibs.append(nib)
    if not nibs:
        raise ValueError("invalid literal for int() with base 16: ''")
    if oks and not bool(sym_and(*oks)):
        # underscores, blanks and signs are also accepted by int(): out of model
        core.CUR.note_incomplete("int(text, 16) with non-hexadecimal characters")
        raise ValueError("invalid literal for int() with base 16")
    t = z3.simplify(z3.Concat(*nibs) if len(nibs) > 1 else nibs[0])
    if len(nibs) % 2 == 0:
        n = len(nibs) // 2
        return SymInt.from_cells([norm_cell(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)], False)
    return SymInt.mk(t, 0, (1 << (4 * len(nibs))) - 1, uns=True)


@model(float)
def _float(x=0.0):
    if type(x) is SymInt or type(x) is SymBool:
        return as_int(x).to_float()
    if type(x) is SymFloat:
        return x
    if type(x) is NumStr:
        return _float(x.val)
    if is_sym(x):
        return float(text.realise(x))
    return float(x)


@model(bool)
def _bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x.nonzero()
    if type(x) is SymFloat:
        return x != 0.0
    return bool(x)


class SymBin(LazyStr):
    __slots__ = ("symlen",)


@model(bin)
def _bin(x):
    i = as_int(x)
    if not is_sym(i):
        return bin(x)
    s = SymBin(lambda: bin(i.concrete()))
    bl = i.bit_length()
    one = bl if not is_sym(bl) else (int_ite(bl == 0, 1, bl) if is_sym(bl == 0) else bl)
    neg = i < 0
    s.symlen = one + 2 + (int_ite(neg, 1, 0) if is_sym(neg) else int(neg))
    return s


@model(hex)
def _hex(x):
    i = as_int(x)
    return LazyStr(lambda: hex(i.concrete())) if is_sym(i) else hex(x)


@model(oct)
def _oct(x):
    i = as_int(x)
    return LazyStr(lambda: oct(i.concrete())) if is_sym(i) else oct(x)


@model(len)
def _len(x):
    if type(x) is SymBin:
        return x.symlen
    if type(x) is NumStr:
        return x.symlen()
    return len(x)


@model(ord)
def _ord(x):
    if is_sym(x):
        if isinstance(x, str):
            if len(x.c) != 1:
                raise TypeError("ord() expected a character")
            return x.c[0]
        return cell_int(x.c[0])
    return ord(x)


@model(chr)
def _chr(x):
    i = as_int(x)
    if is_sym(i):
        if not bool(sym_and(i >= 0, i <= 0x10FFFF)):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr.mk([i.with_range(0, 0x10FFFF)])
    return chr(x)


@model(type)
def _type(x, *a):
    if a:
        return type(x, *a)
    if is_sym(x) or isinstance(x, (SymUUID, SymBytesIO)):
        return x.__class__
    return type(x)


def hash_uf(kind, x):
    """hash() as an unknown function of the contents."""
    c = str_cells(x) if kind == "s" else bytes_cells(x)
    w = 24 if kind == "s" else 8
    bits = [z3.BitVecVal(y, w) if type(y) is int else y.bv(w) if kind == "s" else y for y in c]
    t = z3.Concat(*bits) if len(bits) > 1 else bits[0]
    f = z3.Function("hash_%s%d" % (kind, len(c)), z3.BitVecSort(w * len(c)), z3.BitVecSort(64))
    return SymInt(f(t), -(1 << 63), (1 << 63) - 1, False, None)


@model(hash)
def _hash(x):
    if is_sym(x):
        if core.CUR.path_state.get("hash_uf") and isinstance(x, (str, bytes)):
            return hash_uf("s" if isinstance(x, str) else "b", x)
        return type(x).__hash__(x)
    m = type(x).__hash__
    if isinstance(m, types.FunctionType):
        return m(x)
    return hash(x)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        n = 0
        # the end of the loop is explored first: paths that leave it are the shorter ones
        while not bool(sym_not((i < self.stop) if self.step > 0 else (i > self.stop))):
            yield i
            i = i + self.step
            n += 1
            if n > 4096:
                raise core.BoundHit("symbolic range above 4096 iterations")

    def __len__(self):
        return len(range(int(self.start), int(self.stop), self.step))

    def __reversed__(self):
        return reversed(range(int(self.start), int(self.stop), self.step))

    def __getitem__(self, i):
        return range(int(self.start), int(self.stop), self.step)[i]


@model(range)
def _range(*a):
    if any(is_sym(x) for x in a):
        s, e, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if as_int(e) is FLOAT or as_int(e) is None:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type_name(e))
        return SymRange(s, e, int(st))
    return range(*a)


def _minmax(a, k, gt):
    if k or len(a) == 1:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k:
            return (max if gt else min)(xs, **k)
    else:
        xs = list(a)
    if not xs:
        return (max if gt else min)(xs)
    if not any(is_sym(x) for x in xs):
        return (max if gt else min)(xs)
    allint = all(as_int(x) not in (None, FLOAT) for x in xs)
    allf = all(type(x) in (float, SymFloat) for x in xs)
    acc = xs[0]
    for x in xs[1:]:
        c = (x > acc) if gt else (x < acc)
        if type(c) is bool:
            acc = x if c else acc
        elif allint:
            acc = int_ite(c, as_int(x), as_int(acc))
        elif allf:
            acc = float_ite(c, x, acc)
        else:
            acc = x if bool(c) else acc
    return acc


@model(max)
def _max(*a, **k):
    return _minmax(a, k, True)


@model(min)
def _min(*a, **k):
    return _minmax(a, k, False)


@model(sum)
def _sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


@model(map)
def _map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


@model(print)
def _print(*a, **k):
    st = core.CUR.path_state
    if "stdout" in st:
        st["stdout"].append(a)


def _from_bytes(b, byteorder="big", *, signed=False):
    c = bytes_cells(b)
    if c is None:
        c = [byte_of(x) for x in b]
    if byteorder == "big":
        c = c[::-1]
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    return SymInt.from_cells(list(c), bool(signed))


MODELS[int.from_bytes] = _from_bytes


@model(int.to_bytes)
def _to_bytes(x, length=1, byteorder="big", *, signed=False):
    if type(x) is SymBool:
        x = x._int()
    if is_sym(length):
        length = int(length)
    return x.to_bytes(length, byteorder, signed=signed)


METHODS[(int, "to_bytes")] = _to_bytes


@model(bytes.fromhex)
def _fromhex(s):
    if not is_sym(s):
        return bytes.fromhex(s)
    c = [x for x in str_cells(s) if x != 32] if True else None
    if len(c) % 2:
        raise ValueError("non-hexadecimal number")
    if not c:
        return b""
    v = hex_to_int(c)
    return v.to_bytes(len(c) // 2, "big")


@model(bytes.join)
def _bjoin(sep, parts):
    return SymBytes(list(bytes_cells(sep))).join(parts)


# ----------------------------------------------------------------------- uuid
class SymUUID(uuid.UUID):
    __slots__ = ()
    __class__ = property(lambda self: uuid.UUID)

    def __init__(self, i):
        object.__setattr__(self, "int", i)
        object.__setattr__(self, "is_safe", uuid.SafeUUID.unknown)

    def sym_str(self):
        h = text.hex_int(self.int, 32)
        c = str_cells(h)
        d = [45]
        return SymStr.mk(c[:8] + d + c[8:12] + d + c[12:16] + d + c[16:20] + d + c[20:])

    hex = property(lambda self: text.hex_int(self.int, 32))
    bytes = property(lambda self: self.int.to_bytes(16, "big"))

    def __str__(self):
        return self.sym_str()

    def __eq__(self, o):
        return self.int == o.int if isinstance(o, uuid.UUID) else False

    def __hash__(self):
        return 0x11D

    def __repr__(self):
        return "<SymUUID>"

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")


@model(uuid.UUID)
def _uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, **kw):
    n = [hex, bytes, bytes_le, fields, int].count(None)
    if n != 4:
        raise TypeError("one of the hex, bytes, bytes_le, fields, or int arguments must be given")
    if not any(is_sym(x) for x in (hex, bytes, bytes_le, int)):
        return uuid.UUID(hex, bytes, bytes_le, fields, int, version, **kw)
    if version is not None:
        raise Unsupported("uuid version")
    if hex is not None:
        c = str_cells(hex)
        if c is None:
            raise AttributeError("'%s' object has no attribute 'replace'" % type_name(hex))
        if all(type(x) is not builtins.int for x in c if not (type(x) is builtins.int)):
            pass
        known = all(type(x) is builtins.int or hexval(x)[0] is True for x in c)
        if known:
            if any(type(x) is builtins.int and x in (58, 123, 125) for x in c):
                raise Unsupported("urn/brace uuid text")
            c = [x for x in c if not (type(x) is builtins.int and x == 45)]
        else:
            s = SymStr(c).replace("urn:", "")
            s = call(getattr(s, "replace"), "uuid:", "")
            s = call(getattr(s, "strip"), "{}")
            s = call(getattr(s, "replace"), "-", "")
            c = str_cells(s)
        if len(c) != 32:
            raise ValueError("badly formed hexadecimal UUID string")
        v = hex_to_int(c)
    elif bytes is not None or bytes_le is not None:
        b = bytes_cells(bytes if bytes is not None else bytes_le)
        if len(b) != 16:
            raise ValueError("bytes is not a 16-char string")
        if bytes_le is not None:
            b = b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
        v = SymInt.from_cells(b[::-1], False)
    else:
        v = int
        if not (v.lo >= 0 and v.hi < 1 << 128) and not bool(sym_and(v >= 0, v < (1 << 128))):
            raise ValueError("int is out of range (need a 128-bit value)")
        t = z3.simplify(v.bv(128))
        v = SymInt.from_cells([norm_cell(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(16)], False)
    if not is_sym(v):
        return uuid.UUID(int=v)
    if v.cells is None or len(v.cells) != 16:
        v = SymInt.from_cells(v.low_cells(16), False)
    return SymUUID(v)


# --------------------------------------------------------------------- base64
_B64CH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
_B64 = {}


def _b64char(six):
    six = z3.simplify(six)
    if z3.is_bv_value(six):
        return _B64CH[six.as_long()]
    n = z3.ZeroExt(2, six)
    t = z3.If(z3.ULT(n, 26), n + 65, z3.If(z3.ULT(n, 52), n + 71, z3.If(z3.ULT(n, 62), n - 4, z3.If(n == 62,
              z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))))
    _B64[t.get_id()] = (t, six)
    text.KNOWN_ASCII[t.get_id()] = t
    return t


def _cat(cells):
    ts = [z3.BitVecVal(c, 8) if type(c) is int else c for c in cells]
    return z3.Concat(*ts) if len(ts) > 1 else ts[0]


@model(base64.b64encode, base64.standard_b64encode)
def _b64encode(s, altchars=None):
    c = cells_arg(s)
    if all(type(x) is int for x in c):
        return base64.b64encode(bytes(c), altchars)
    if altchars is not None:
        raise Unsupported("altchars")
    out = []
    for i in range(0, len(c), 3):
        g = c[i:i + 3]
        t = _cat(g + [0] * (3 - len(g)))
        for j in range(len(g) + 1):
            out.append(_b64char(z3.Extract(23 - 6 * j, 18 - 6 * j, t)))
        out += [61] * (3 - len(g))
    return SymBytes.mk(out)


@model(binascii.b2a_base64)
def _b2a(s, newline=True):
    r = _b64encode(s)
    return r + b"\n" if newline else r


@model(base64.b64decode, base64.standard_b64decode)
def _b64decode(s, altchars=None, validate=False):
    c = str_cells(s)
    if c is None:
        c = cells_arg(s)
    if all(type(x) is int for x in c):
        return base64.b64decode(s if not is_sym(s) else bytes(c), altchars, validate)
    if altchars is not None:
        raise Unsupported("altchars")
    six = []
    pad = 0
    for x in c:
        t = x if type(x) is int or z3.is_expr(x) else (x.cells[0] if x.cells else x.bv(8))
        if type(t) is int:
            if t == 61:
                pad += 1
                continue
            k = _B64CH.find(t)
            if k < 0:
                raise Unsupported("b64decode of non-alphabet characters")
            six.append(z3.BitVecVal(k, 6))
            continue
        e = _B64.get(t.get_id())
        if e is None or not e[0].eq(t):
            raise Unsupported("b64decode of arbitrary text")
        six.append(e[1])
    if (len(six) + pad) % 4:
        raise binascii.Error("Incorrect padding")
    t = z3.Concat(*six) if len(six) > 1 else six[0]
    nb = len(six) * 6 // 8
    w = len(six) * 6
    return SymBytes.mk([norm_cell(z3.Extract(w - 8 * i - 1, w - 8 * i - 8, t)) for i in range(nb)])


MODELS[binascii.a2b_base64] = _b64decode


# ----------------------------------------------------------------------- math
@model(math.isnan)
def _isnan(x):
    return x.isnan() if type(x) is SymFloat else (False if is_sym(x) and as_int(x) is not None else math.isnan(x))


@model(math.isinf)
def _isinf(x):
    return x.isinf() if type(x) is SymFloat else (False if is_sym(x) and as_int(x) is not None else math.isinf(x))


@model(math.isfinite)
def _isfinite(x):
    return x.isfinite() if type(x) is SymFloat else (True if is_sym(x) and as_int(x) is not None else math.isfinite(x))


@model(math.floor)
def _floor(x):
    return x.to_int("floor") if type(x) is SymFloat else (x if is_sym(x) else math.floor(x))


@model(math.ceil)
def _ceil(x):
    return x.to_int("ceil") if type(x) is SymFloat else (x if is_sym(x) else math.ceil(x))


@model(math.trunc)
def _trunc(x):
    return x.to_int("trunc") if type(x) is SymFloat else (x if is_sym(x) else math.trunc(x))


@model(math.fabs)
def _fabs(x):
    return abs(call(float, x)) if is_sym(x) else math.fabs(x)


# ----------------------------------------------------------------------- zlib
def zreg():
    return core.CUR.path_state.setdefault("zlib", [])


@model(zlib.compress)
def _compress(data, /, level=-1, wbits=15):
    c = cells_arg(data)
    if wbits != 15:
        raise Unsupported("zlib wbits")
    hook = core.CUR.path_state.get("zlen")
    if all(type(x) is int for x in c) and hook is None:
        return zlib.compress(bytes(c), level)
    for src, out in zreg():
        if cells_eq(src, c) is True:
            return SymBytes.mk(out)
    n = hook(len(c)) if hook else len(c) + 11
    # 0x78: first byte of every zlib stream; the rest is opaque
    out = [0x78] + [z3.BitVec(core.CUR.fresh("z"), 8) for _ in range(n - 1)]
    zreg().append((list(c), out))
    return SymBytes.mk(out)


def _zfind(c):
    """(source, stream length) if c starts with a stream made on this path; None: not a whole stream."""
    for src, out in zreg():
        if len(c) >= len(out) and cells_eq(c[:len(out)], out) is True:
            return src, len(out)
    return None


@model(zlib.decompress)
def _decompress(data, /, wbits=15, bufsize=16384):
    c = cells_arg(data)
    if wbits not in (15, 0, 47):
        raise Unsupported("zlib wbits")
    if all(type(x) is int for x in c):
        return zlib.decompress(bytes(c), wbits)
    r = _zfind(c)
    if r is None:
        # truncated or foreign data: zlib's own checksum rejects it (assumed)
        raise zlib.error("Error -3 while decompressing data: invalid stream")
    return SymBytes.mk(list(r[0]))


class SymDecompress:
    def __init__(self):
        self.unused_data = b""
        self.unconsumed_tail = b""
        self.eof = False
        self._buf = []

    def decompress(self, data, max_length=0):
        if max_length:
            raise Unsupported("max_length")
        if self.eof:
            self.unused_data = self.unused_data + data
            return b""
        self._buf += cells_arg(data)
        c = self._buf
        if all(type(x) is int for x in c):
            o = zlib.decompressobj()
            r = o.decompress(bytes(c))
            self.eof, self.unused_data = o.eof, o.unused_data
            if not o.eof:
                raise Unsupported("incremental zlib")
            return r
        f = _zfind(c)
        if f is not None:
            self.eof = True
            self.unused_data = SymBytes.mk(c[f[1]:])
            return SymBytes.mk(list(f[0]))
        for src, out in zreg():
            if len(c) < len(out) and cells_eq(out[:len(c)], c) is True:
                return b""
        raise zlib.error("Error -3 while decompressing data: invalid stream")

    def flush(self, *a):
        return b""


@model(zlib.decompressobj)
def _decompressobj(*a, **k):
    return SymDecompress()


class SymCompress:
    def __init__(self):
        self._b = []

    def compress(self, d):
        self._b += cells_arg(d)
        return b""

    def flush(self, *a):
        return _compress(SymBytes.mk(self._b))


@model(zlib.compressobj)
def _compressobj(level=-1, method=8, wbits=15, *a, **k):
    if wbits != 15:
        raise Unsupported("zlib wbits")
    return SymCompress()


@model(zlib.crc32, zlib.adler32)
def _crc(*a):
    if deep_sym(a):
        raise Unsupported("checksum of symbolic data")
    return zlib.crc32(*a)


# ----------------------------------------------------------------------- json
class SymJson(SymBase):
    """JSON text as a value: the tree that parsing it yields.  No other view of it is modelled."""
    __slots__ = ("tree", "ascii", "raw_surrogate")
    __class__ = property(lambda self: str)

    def __init__(self, tree, ascii=True, raw_surrogate=False):
        self.tree, self.ascii, self.raw_surrogate = tree, ascii, raw_surrogate

    def __len__(self):
        return 2

    def __bool__(self):
        return True

    def __repr__(self):
        return "<SymJson>"

    def __add__(self, o):
        if type(o) is str and o.strip(" \r\n\t") == "":
            return self
        raise Unsupported("JSON text manipulation")

    __radd__ = __add__

    def encode(self, encoding="utf-8", errors="strict"):
        if text._norm(encoding) not in ("utf-8", "ascii"):
            raise Unsupported("JSON encoding")
        if not self.ascii and errors != "surrogatepass" and bool(self.raw_surrogate):
            raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        return SymJsonBytes(self)

    def strip(self, *a):
        return self

    rstrip = lstrip = strip


class SymJsonBytes(SymBase):
    __slots__ = ("j",)
    __class__ = property(lambda self: bytes)

    def __init__(self, j):
        self.j = j

    def decode(self, *a, **k):
        return self.j

    def __len__(self):
        return 2


class _JState:
    def __init__(self, default, allow_nan, skipkeys, sort_keys):
        self.default, self.allow_nan, self.skipkeys, self.sort_keys = default, allow_nan, skipkeys, sort_keys
        self.sur = []


NAN = float("nan")


def json_str(s, st=None):
    """What a string looks like after a trip through JSON: adjacent lone surrogates are joined."""
    if type(s) is str:
        return json.loads(json.dumps(s))
    c = list(str_cells(s))
    cand = []
    for x, y in zip(c, c[1:]):
        hx, hy = (x if type(x) is int else x.hi), (y if type(y) is int else y.hi)
        if hx >= 0xD800 and hy >= 0xDC00:
            cand.append(sym_and(text._in(x, 0xD800, 0xDBFF), text._in(y, 0xDC00, 0xDFFF)))
    if st is not None:
        for x in c:
            if (x if type(x) is int else x.hi) >= 0xD800:
                st.sur.append(text._in(x, 0xD800, 0xDFFF))
    if cand:
        anyp = sym_or(*cand)
        if anyp is not False and bool(anyp):
            out, i = [], 0
            while i < len(c):
                if i + 1 < len(c) and bool(sym_and(text._in(c[i], 0xD800, 0xDBFF), text._in(c[i + 1], 0xDC00, 0xDFFF))):
                    out.append(text.pair_join(c[i], c[i + 1]))
                    i += 2
                else:
                    out.append(c[i])
                    i += 1
            return SymStr.mk(out)
    return SymStr(c)


def json_tree(o, st, seen=()):
    if o is None or type(o) is bool or type(o) is SymBool:
        return o
    if isinstance(o, str):
        if type(o) is SymJson:
            raise Unsupported("JSON in JSON")
        return json_str(o, st) if is_sym(o) else json_str(str(o))
    if type(o) is SymInt or type(o) is int:
        return o
    if isinstance(o, int) and not is_sym(o):
        return int(o)
    if type(o) is float:
        if not math.isfinite(o):
            if not st.allow_nan:
                raise ValueError("Out of range float values are not JSON compliant: %r" % o)
            return NAN if o != o else o
        return o
    if type(o) is SymFloat:
        if st.allow_nan:
            nan = o.isnan()
            return NAN if nan is not False and bool(nan) else o
        fin = o.isfinite()
        if fin is not True and not bool(fin):
            raise ValueError("Out of range float values are not JSON compliant")
        return o
    if isinstance(o, (list, tuple)):
        if id(o) in seen:
            raise ValueError("Circular reference detected")
        return [json_tree(x, st, seen + (id(o),)) for x in o]
    if isinstance(o, dict):
        if id(o) in seen:
            raise ValueError("Circular reference detected")
        out = {}
        items = o.items()
        if st.sort_keys:
            items = sorted(items, key=lambda kv: kv[0])
        for k, v in items:
            if isinstance(k, str):
                kk = json_str(k, st)
            elif k is None or isinstance(k, (int, float)):
                kk = json.loads(json.dumps({k: 0})).__iter__().__next__() if not is_sym(k) else text.to_str(k)
            elif st.skipkeys:
                continue
            else:
                raise TypeError("keys must be str, int, float, bool or None, not %s" % type_name(k))
            setitem(out, kk, json_tree(v, st, seen + (id(o),)))
        return out
    return json_tree(st.default(o), st, seen + (id(o),))


def _json_default_enc(o):
    raise TypeError("Object of type %s is not JSON serializable" % type_name(o))


def make_json(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None,
              separators=None, default=None, sort_keys=False, **kw):
    if separators is not None and (len(separators) != 2 or separators[0].strip() != "," or separators[1].strip() != ":"):
        raise Unsupported("separators")
    dflt = _json_default_enc
    if cls is not None:
        enc = cls(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular, allow_nan=allow_nan,
                  indent=indent, separators=separators, default=default, sort_keys=sort_keys, **kw)
        for m in ("encode", "iterencode"):
            if getattr(cls, m) is not getattr(json.JSONEncoder, m):
                core.CUR.note_incomplete("custom JSON encoder method %s" % m)
        dflt = enc.default
        allow_nan, ensure_ascii = enc.allow_nan, enc.ensure_ascii
        sort_keys, skipkeys = enc.sort_keys, enc.skipkeys
    elif default is not None:
        dflt = default
    st = _JState(dflt, allow_nan, skipkeys, sort_keys)
    tree = json_tree(obj, st)
    sur = sym_or(*st.sur) if st.sur else False
    return SymJson(tree, ensure_ascii, sur)


def copy_tree(t):
    if type(t) is dict:
        return {k: copy_tree(v) for k, v in t.items()}
    if type(t) is list:
        return [copy_tree(v) for v in t]
    return t


def _enc_json(e, o):
    for m in ("encode", "iterencode"):
        if getattr(type(e), m) is not getattr(json.JSONEncoder, m):
            core.CUR.note_incomplete("custom JSON encoder method %s" % m)
    sep = (e.item_separator, e.key_separator)
    if sep[0].strip() != "," or sep[1].strip() != ":":
        raise Unsupported("separators")
    st = _JState(e.default, e.allow_nan, e.skipkeys, e.sort_keys)
    tree = json_tree(o, st)
    return SymJson(tree, e.ensure_ascii, sym_or(*st.sur) if st.sur else False)


def _iterencode(e, o, _one_shot=False):
    # a failure comes after part of the text
    try:
        j = _enc_json(e, o)
    except Exception:
        yield "{"
        raise
    yield j


@model(json.JSONEncoder.encode)
def _jencode(e, o):
    return _enc_json(e, o)


@model(json.JSONEncoder.iterencode)
def _jiterencode(e, o, _one_shot=False):
    return _iterencode(e, o)


@model(json.dumps)
def _dumps(obj, **k):
    return make_json(obj, **k)


@model(json.dump)
def _dump(obj, fp, **k):
    # json.dump streams: a failure leaves what was written so far
    try:
        j = make_json(obj, **k)
    except Exception:
        fp.write("{")
        raise
    fp.write(j)


def json_hooked(t, h):
    """What json.loads makes of the values of a tree with its hooks."""
    if t is None or type(t) in (bool, SymBool):
        return t
    if isinstance(t, str):
        return t
    if type(t) is SymInt or type(t) is int:
        return call(h["parse_int"], NumStr(t) if type(t) is SymInt else str(t)) if h.get("parse_int") else t
    if type(t) is SymFloat or type(t) is float:
        fin = t.isfinite() if type(t) is SymFloat else math.isfinite(t)
        if not h.get("parse_constant") and not h.get("parse_float"):
            return t
        if bool(fin):
            return call(h["parse_float"], NumStr(t) if type(t) is SymFloat else repr(t)) if h.get("parse_float") else t
        if not h.get("parse_constant"):
            return t
        if type(t) is SymFloat:
            t = math.inf if bool(t > 0.0) else -math.inf if bool(t < 0.0) else math.nan
        return call(h["parse_constant"], "NaN" if t != t else "Infinity" if t > 0 else "-Infinity")
    if type(t) is list:
        return [json_hooked(v, h) for v in t]
    items = [(k, json_hooked(v, h)) for k, v in t.items()]
    if h.get("object_pairs_hook"):
        return call(h["object_pairs_hook"], items)
    d = dict(items)
    return call(h["object_hook"], d) if h.get("object_hook") else d


_HOOKS = ("object_hook", "object_pairs_hook", "parse_float", "parse_int", "parse_constant")


def _json_value(s, h):
    return json_hooked(s.tree, h) if any(h.values()) else copy_tree(s.tree)


@model(json.loads)
def _loads(s, cls=None, **k):
    if type(s) is SymJsonBytes:
        s = s.j
    if type(s) is SymJson:
        if cls is not None and cls is not json.JSONDecoder:
            for m in ("decode", "raw_decode"):
                if getattr(cls, m) is not getattr(json.JSONDecoder, m):
                    raise Unsupported("custom JSON decoder method %s" % m)
            return _loads_with(cls(**k), s)
        return _json_value(s, {x: k.get(x) for x in _HOOKS})
    if is_sym(s):
        raise Unsupported("json.loads of symbolic text")
    return json.loads(s, cls=cls, **k)


def _loads_with(d, s):
    if type(s) is not SymJson:
        if is_sym(s):
            raise Unsupported("JSON decoding of symbolic text")
        return json.JSONDecoder.decode(d, s)
    k = {x: getattr(d, x) for x in _HOOKS}
    k = {x: None if v in (float, int) or x == "parse_constant" and getattr(v, "__self__", None) is json.decoder._CONSTANTS else v
         for x, v in k.items()}
    return _json_value(s, k)


MODELS[json.JSONDecoder.decode] = _loads_with


@model(json.load)
def _load(fp, **k):
    return _loads(fp.read(), **k)


# ------------------------------------------------------------------- world (fs)
def world():
    w = core.CUR.path_state.get("world") if core.CUR else None
    return w


def world_call(name, real):
    def f(*a, **k):
        w = world()
        if w is None:
            if deep_sym(a):
                raise Unsupported("file system call on symbolic data")
            return real(*a, **k)
        m = getattr(w, name, None)
        if m is None:
            raise Unsupported("file system call " + name)
        return m(*a, **k)
    MODELS[real] = f


for _n, _f in (("open", builtins.open), ("exists", os.path.exists), ("isfile", os.path.isfile),
               ("isdir", os.path.isdir), ("lexists", os.path.lexists), ("remove", os.remove), ("unlink", os.unlink),
               ("rename", os.rename), ("replace", os.replace), ("getsize", os.path.getsize), ("stat", os.stat), ("lstat", os.lstat),
               ("getmtime", os.path.getmtime), ("utime", os.utime),
               ("access", os.access), ("makedirs", os.makedirs), ("mkdir", os.mkdir), ("listdir", os.listdir),
               ("input", builtins.input), ("samefile", os.path.samefile), ("os_open", os.open),
               ("fsync", os.fsync), ("rmdir", os.rmdir), ("link", os.link), ("islink", os.path.islink)):
    world_call(_n, _f)
import shutil
import tempfile
for _n, _f in (("copy", shutil.copy), ("copyfile", shutil.copyfile), ("move", shutil.move), ("copy2", shutil.copy2),
               ("rmtree", shutil.rmtree), ("mkstemp", tempfile.mkstemp), ("NamedTemporaryFile", tempfile.NamedTemporaryFile),
               ("mkdtemp", tempfile.mkdtemp)):
    world_call(_n, _f)


@model(os.fspath)
def _fspath(p):
    return p if is_sym(p) else os.fspath(p)


@model(os.path.join)
def _join(a, *p):
    r = a
    for x in p:
        if bool(call(getattr(x, "startswith"), "/")):
            r = x
        elif len(r) == 0 or bool(call(getattr(r, "endswith"), "/")):
            r = r + x
        else:
            r = r + "/" + x
    return r


@model(os.path.splitext)
def _splitext(p):
    if not is_sym(p):
        return os.path.splitext(p)
    dot = p.rfind(".")
    slash = p.rfind("/")
    if dot > slash:
        i = slash + 1
        while i < dot:
            if not bool(p[i] == "."):
                return p[:dot], p[dot:]
            i += 1
    return p, ""


@model(os.path.basename)
def _basename(p):
    return p[p.rfind("/") + 1:] if is_sym(p) else os.path.basename(p)


@model(os.path.dirname)
def _dirname(p):
    if not is_sym(p):
        return os.path.dirname(p)
    i = p.rfind("/") + 1
    h = p[:i]
    if len(h) and not bool(h == "/" * len(h)):
        h = call(getattr(h, "rstrip"), "/")
    return h


@model(os.path.split)
def _split(p):
    return (_dirname(p), _basename(p))


@model(os.path.abspath, os.path.realpath, os.path.normpath)
def _abspath(p):
    if is_sym(p):
        raise Unsupported("path normalisation of symbolic text")
    return os.path.abspath(p)


@model(os.path.expanduser)
def _expanduser(p):
    if is_sym(p) and bool(call(p.startswith, "~")):
        raise Unsupported("home directory in symbolic text")
    return p if is_sym(p) else os.path.expanduser(p)


@model(os.path.expandvars)
def _expandvars(p):
    if is_sym(p) and bool(call(p.__contains__, "$")):
        raise Unsupported("variable in symbolic text")
    return p if is_sym(p) else os.path.expandvars(p)


# -------------------------------------------------------------------- pathlib
import pathlib


PATH_METHODS = {}


def _path_method(name, target):
    real = getattr(pathlib.Path, name)

    def f(self, *a, **k):
        w = world()
        if w is None:
            return real(self, *a, **k)
        return target(w, str(self), *a, **k)
    METHODS[(pathlib.PosixPath, name)] = f
    PATH_METHODS[name] = target


def _p_write_bytes(w, p, data):
    with w.open(p, "wb") as f:
        return f.write(data)


def _p_write_text(w, p, data, encoding=None, errors=None, newline=None):
    with w.open(p, "w", encoding=encoding, errors=errors) as f:
        return f.write(data)


_path_method("exists", lambda w, p, **k: w.exists(p))
_path_method("stat", lambda w, p: w.stat(p))
_path_method("is_file", lambda w, p: w.isfile(p))
_path_method("is_dir", lambda w, p: w.isdir(p))
_path_method("open", lambda w, p, *a, **k: w.open(p, *a, **k))
_path_method("read_bytes", lambda w, p: w.open(p, "rb").read())
_path_method("read_text", lambda w, p, encoding=None, errors=None: w.open(p, "r", encoding=encoding, errors=errors).read())
_path_method("write_bytes", _p_write_bytes)
_path_method("write_text", _p_write_text)
_path_method("unlink", lambda w, p, missing_ok=False: None if missing_ok and not w.exists(p) else w.remove(p))
_path_method("rename", lambda w, p, t: w.rename(p, t))
_path_method("replace", lambda w, p, t: w.replace(p, t))


class SymPath:
    """A path whose text is symbolic: plain names without doubled or trailing slashes."""
    __slots__ = ("p",)
    __class__ = property(lambda self: pathlib.PosixPath)

    def __init__(self, p):
        if bool(contains(p, "//")) or bool(call(p.endswith, "/")) or bool(call(p.startswith, "./")) or len(p) == 0 \
                or bool(contains(p, "/./")) or bool(p == "."):
            raise Unsupported("path normalisation of symbolic text")
        self.p = p

    def __fspath__(self):
        return self.p

    __str__ = as_posix = __fspath__

    def __repr__(self):
        return text.concat(["PosixPath(", text.to_repr(self.p), ")"])

    def __eq__(self, o):
        return isinstance(o, pathlib.PurePath) and (self.p == path_str(o))

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic path")

    @property
    def name(self):
        return _basename(self.p)

    @property
    def parent(self):
        h = _dirname(self.p)
        return _path(h if len(h) else ".")

    @property
    def suffix(self):
        n = self.name
        i = n.rfind(".")
        return n[i:] if 0 < i < len(n) - 1 else ""

    @property
    def suffixes(self):
        n = self.name
        if bool(call(n.endswith, ".")):
            return []
        return ["." + x for x in call(call(n.lstrip, ".").split, ".")[1:]]

    @property
    def stem(self):
        n = self.name
        i = n.rfind(".")
        return n[:i] if 0 < i < len(n) - 1 else n

    @property
    def parts(self):
        if bool(call(self.p.startswith, "/")):
            raise Unsupported("parts of an absolute symbolic path")
        return tuple(call(self.p.split, "/"))

    def with_name(self, name):
        h = self.p[:len(self.p) - len(self.name)]
        return _path(h + name)

    def with_suffix(self, s):
        return self.with_name(self.stem + s)

    def with_stem(self, s):
        return self.with_name(s + self.suffix)

    def joinpath(self, *a):
        r = self.p
        for x in a:
            r = _join(r, path_str(x))
        return _path(r)

    def __truediv__(self, o):
        return self.joinpath(o)

    def __rtruediv__(self, o):
        return _path(_join(path_str(o), self.p))

    def resolve(self, *a):
        raise Unsupported("path normalisation of symbolic text")

    absolute = resolve

    def is_symlink(self):
        return False

    def samefile(self, o):
        return world().samefile(self.p, path_str(o))

    def __getattr__(self, name):
        if name in PATH_METHODS:
            return lambda *a, **k: PATH_METHODS[name](world(), self.p, *a, **k)
        if not hasattr(pathlib.PosixPath, name):
            raise AttributeError("'PosixPath' object has no attribute '%s'" % name)
        raise Unsupported("pathlib " + name)


def path_str(x):
    if type(x) is SymPath:
        return x.p
    return x if isinstance(x, str) else os.fspath(x)


@model(os.fspath)
def _fspath(x):
    return x.p if type(x) is SymPath else x if is_sym(x) else os.fspath(x)


@model(pathlib.Path, pathlib.PurePath, pathlib.PosixPath)
def _path(*a):
    a = tuple(x.p if type(x) is SymPath else x for x in a)
    if deep_sym(a):
        r = path_str(a[0])
        for x in a[1:]:
            r = _join(r, path_str(x))
        return SymPath(r)
    return pathlib.Path(*a)


# ------------------------------------------------------------------- argparse
import argparse


def _parse(real):
    def f(self, args=None, namespace=None):
        args = list(sys.argv[1:] if args is None else args)
        tokens = {}
        for i, x in enumerate(args):
            if is_sym(x):     # assumed not to look like an option
                t = "SYM_ARG_%d" % i
                tokens[t] = x
                args[i] = t
        r = real(self, args, namespace)
        ns = r[0] if isinstance(r, tuple) else r
        for k, v in vars(ns).items():
            if isinstance(v, str) and v in tokens:
                setattr(ns, k, tokens[v])
            elif isinstance(v, list):
                setattr(ns, k, [tokens.get(y, y) if isinstance(y, str) else y for y in v])
        return r
    return f


METHODS[(argparse.ArgumentParser, "parse_args")] = _parse(argparse.ArgumentParser.parse_args)
METHODS[(argparse.ArgumentParser, "parse_known_args")] = _parse(argparse.ArgumentParser.parse_known_args)
