"""Symbolic side of the harness environment."""
import base64
import importlib
import json
import math
import struct
import sys
import traceback
import zlib

import z3

from . import core, models, text
from .shell import variables
from .values import (SymBool, SymBytes, SymFloat, SymInt, SymStr, bterm, bytes_cells, cells_eq, is_sym, mk_bool,
                     scells_eq, str_cells, sym_and, sym_not, sym_or, sym_eq_int)


class SymEnv:
    sym = True

    def __init__(self, ctx, params):
        self.ctx = ctx
        self.params = params
        self.n = 0
        self.leaves = {}
        self.failures = []   # (label, kind, assignment)
        self.observed = []
        self.pending = []

    # ---- leaves
    def _name(self, hint):
        self.n += 1
        return "%d:%s" % (self.n, hint)

    def bits(self, k, hint=""):
        """An 8-bit cell whose low k bits are free."""
        nm = self._name(hint)
        v = z3.BitVec(nm, k)
        self.leaves[nm] = v
        return v if k == 8 else z3.Concat(z3.BitVecVal(0, 8 - k), v)

    def cells(self, n, hint=""):
        return [self.bits(8, hint) for _ in range(n)]

    def flag(self, hint=""):
        """A free bool."""
        nm = self._name(hint)
        v = z3.BitVec(nm, 1)
        self.leaves[nm] = v
        return mk_bool(v == z3.BitVecVal(1, 1))

    def integer(self, nbytes, signed, hint=""):
        return SymInt.from_cells(self.cells(nbytes, hint), signed)

    # ---- values
    def int_of(self, cells, signed=False):
        return SymInt.from_cells(list(cells), signed)

    def float_of(self, cells):
        return SymFloat.from_bits32(list(cells)) if len(cells) == 4 else SymFloat.from_bits64(list(cells))

    def bytes_of(self, cells):
        return SymBytes.mk(list(cells))

    def cells_of(self, b):
        return bytes_cells(b)

    def str_of(self, codes):
        return SymStr.mk(list(codes))

    def chr_of(self, cell):
        return cell if type(cell) is int else SymInt(cell, 0, 255, True, [cell])

    def utf16(self, cells):
        return text.decode(list(cells), "utf-16-le", "surrogatepass")

    def guid_text(self, c):
        order = [3, 2, 1, 0, None, 7, 6, None, 5, 4, None, 11, 10, None, 9, 8, 15, 14, 13, 12]
        out = []
        for i in order:
            if i is None:
                out.append(45)
            else:
                out += str_cells(SymBytes([c[i]]).hex()) if type(c[i]) is not int else [ord(x) for x in "%02x" % c[i]]
        return SymStr.mk(out)

    def dict(self, items):
        out = {}
        for k, v in items:
            models.setitem(out, k, v)
        return out

    def b64(self, cells):
        return models.call(models.call(base64.b64encode, SymBytes.mk(list(cells))).decode, "ascii")

    def bool_of(self, cell):
        if type(cell) is int:
            return cell != 0
        return mk_bool(z3.simplify(cell != 0))

    def low(self, v, n):
        """n little-endian byte cells of an int."""
        if type(v) is int:
            return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
        return v.low_cells(n)

    # ---- logic
    def assume(self, b):
        if type(b) is bool:
            if not b:
                raise core.Infeasible()
            return
        self.ctx.assume(b.t)

    def later(self, b):
        self.pending.append(b)

    def flush(self):
        ps, self.pending = self.pending, []
        if ps:
            self.assume(self.all(ps))

    def all(self, xs):
        return sym_and(*xs)

    def any(self, xs):
        return sym_or(*xs)

    def no(self, x):
        return sym_not(x)

    def isnan(self, f):
        return f.isnan() if is_sym(f) else math.isnan(f)

    def isfinite(self, f):
        return f.isfinite() if is_sym(f) else math.isfinite(f)

    def round32(self, f):
        """IEEE rounding to single precision (beyond the largest float: infinity)."""
        if not is_sym(f):
            return struct.unpack("f", struct.pack("f", f))[0]
        return SymFloat.from_bits32(f.pack32(False))

    def branch(self, b):
        return bool(b)

    def eq(self, a, b):
        return deep_eq(a, b)

    # ---- code under test
    def mod(self, name):
        return importlib.import_module(name)

    def call(self, f, *a, **k):
        return models.call(f, *a, **k)

    def json(self, obj, allow_nan=True):
        enc = self.mod("palworld_save_tools.json_tools").CustomEncoder
        j = models.make_json(obj, cls=enc, allow_nan=allow_nan)
        return models.copy_tree(j.tree)

    def contains(self, hay, needle):
        if not is_sym(hay):
            return needle in hay
        c, n = str_cells(hay), [ord(x) for x in needle]
        return sym_or(False, *[scells_eq(c[i:i + len(n)], n) for i in range(len(c) - len(n) + 1)])

    def hash(self, x):
        self.ctx.path_state["hash_uf"] = True
        try:
            return models.call(hash, x)
        finally:
            self.ctx.path_state["hash_uf"] = False

    def copy(self, tree):
        return models.copy_tree(tree)

    def attempt(self, f, *a, **k):
        """(value, None) or (None, exception)."""
        try:
            return models.call(f, *a, **k), None
        except Exception as e:
            return None, e

    # ---- files and commands
    def fs(self, replies=()):
        from .world import World
        self.world = World(replies)
        self.ctx.path_state["world"] = self.world

    def fs_put(self, name, data):
        self.world.put(name, data, age=self.integer(1, False, "age"))

    def fs_json(self, name, tree):
        self.world.put(name, models.SymJsonBytes(models.SymJson(tree)), age=self.integer(1, False, "age"))

    def fs_dir(self, name):
        self.world.put(name, None, True)

    def fs_get(self, name):
        """None, or what the file holds."""
        n = self.world.find(name)
        return None if n is None or n.isdir else n.data

    def fs_tree(self, data):
        """The JSON in a file's contents; None if it is not JSON."""
        if type(data) is models.SymJsonBytes:
            return models.copy_tree(data.j.tree)
        try:
            return json.loads(data)
        except Exception:
            return None

    def fs_names(self):
        return [n.name for n in self.world.nodes]

    def fs_same(self, a, b):
        """Two file contents (not JSON text written anew) are identical."""
        if type(a) is models.SymJsonBytes or type(b) is models.SymJsonBytes:
            return a is b
        return deep_eq(a, b)

    @property
    def prompts(self):
        return self.world.prompts

    def main(self, module, argv, func=None):
        """Runs a command, or calls one of its functions; (exit status, None) or (None, exception)."""
        m = self.mod(module)
        old = sys.argv
        sys.argv = ["prog"] + list(argv)
        try:
            with variables():
                if func:
                    models.call(getattr(m, func), *argv)
                else:
                    models.call(m.main)
            return 0, None
        except SystemExit as e:
            return (0 if e.code is None else e.code if isinstance(e.code, int) else 1), None
        except Exception as e:
            return None, e
        finally:
            sys.argv = old

    def zip(self, data):
        return models.call(zlib.compress, data)

    def unzip(self, data):
        return models.call(zlib.decompress, data)

    # ---- verdicts
    def check(self, label, cond):
        if type(cond) is bool:
            if cond:
                self.ctx.stats.asserts += 1
                return True
            m = self.ctx.path_model()
            self.ctx.stats.asserts += 1
            self.failures.append((label, self.assignment(m)))
            return False
        r = self.ctx.counterexample(bterm(cond))
        if r is None:
            return True
        if r == "unknown":
            self.ctx.note_incomplete("solver unknown on " + label)
            return None
        self.failures.append((label, self.assignment(r)))
        return False

    def fail(self, label, exc=None):
        if exc is not None:
            self.ctx.path_notes.append("".join(traceback.format_exception(exc))[-1200:])
        self.check(label, False)

    def observe(self, label, v):
        self.observed.append((label, v))

    def assignment(self, m):
        if m is None:
            return None
        out = {}
        for nm, v in self.leaves.items():
            out[nm] = m.eval(v, model_completion=True).as_long()
        return out

    def observed_values(self, m):
        return [[l, concretise(v, m)] for l, v in self.observed]


def ev(t, m):
    return m.eval(t, model_completion=True)


def concretise(v, m):
    """JSON-able rendering of a value under a model; shared format with cenv.render."""
    if type(v) is SymBool:
        return bool(z3.is_true(ev(v.t, m)))
    if type(v) is SymInt:
        x = ev(v.t, m)
        return x.as_long() if v.uns else x.as_signed_long()
    if type(v) is SymFloat:
        r = _float_hex(v, m)
        x = struct.unpack("<d", bytes.fromhex(r[2:]))[0]
        return r if x == x else "f:" + struct.pack("<d", float("nan")).hex()
    return _concretise2(v, m)


def _float_hex(v, m):
    if True:
        if v.b32 is not None:
            return "f:" + struct.pack("<d", struct.unpack("<f", struct.pack("<I", ev(v.b32.bv(32), m).as_long()))[0]).hex()
        if v.b64 is not None:
            return "f:" + struct.pack("<Q", ev(v.b64.bv(64), m).as_long()).hex()
        if v.dy is not None:
            mm, e = v.dy
            mm = mm if type(mm) is int else concretise(mm, m)
            return "f:" + struct.pack("<d", math.ldexp(mm, e)).hex()
        if v.pre is not None:
            mm, c, e = v.pre
            mm = mm if type(mm) is int else concretise(mm, m)
            return "f:" + struct.pack("<d", math.ldexp(mm, e) * c).hex()
        return "f:" + struct.pack("<Q", ev(z3.fpToIEEEBV(v.fp), m).as_long()).hex()


def _concretise2(v, m):
    if is_sym(v) and isinstance(v, str):
        if type(v) is models.SymJson:
            return "<json>"
        return "s:" + "".join(chr(c if type(c) is int else concretise(c, m)) for c in v.c).encode(
            "utf-8", "surrogatepass").hex()
    if is_sym(v):
        return "b:" + bytes(c if type(c) is int else ev(c, m).as_long() for c in v.c).hex()
    if isinstance(v, (list, tuple)):
        return [concretise(x, m) for x in v]
    if isinstance(v, dict):
        return [[concretise(k, m), concretise(x, m)] for k, x in v.items()]
    from .cenv import render
    return render(v)


def deep_eq(a, b):
    """Equality as JSON values (types matter), as bool or SymBool."""
    if a is b:
        return True
    if a is None or b is None:
        return a is b
    ca, cb = a.__class__, b.__class__
    if issubclass(ca, bool) or issubclass(cb, bool):
        if not (issubclass(ca, bool) and issubclass(cb, bool)):
            return False
        return a == b if is_sym(a) else (b == a if is_sym(b) else a == b)
    if issubclass(ca, dict):
        if not issubclass(cb, dict) or len(a) != len(b):
            return False
        rs = []
        if any(is_sym(k) for k in a) or any(is_sym(k) for k in b):
            for (k1, v1), (k2, v2) in zip(a.items(), b.items()):
                rs.append(deep_eq(k1, k2))
                rs.append(deep_eq(v1, v2))
                if rs[-1] is False or rs[-2] is False:
                    return False
            return sym_and(*rs)
        if a.keys() != b.keys():
            return False
        for k in a:
            r = deep_eq(a[k], b[k])
            if r is False:
                return False
            rs.append(r)
        return sym_and(*rs)
    if issubclass(ca, (list, tuple)):
        if not issubclass(cb, (list, tuple)) or len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = deep_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return sym_and(*rs)
    if issubclass(ca, str):
        return issubclass(cb, str) and scells_eq(str_cells(a), str_cells(b))
    if issubclass(ca, (bytes, bytearray)):
        return issubclass(cb, (bytes, bytearray)) and cells_eq(bytes_cells(a), bytes_cells(b))
    if issubclass(ca, float):
        return issubclass(cb, float) and float_same(a, b)
    if issubclass(ca, int):
        if not issubclass(cb, int):
            return False
        if type(a) is SymInt and type(b) is SymInt and a.cells is not None and b.cells is not None and a.uns == b.uns \
                and len(a.cells) == len(b.cells):
            return cells_eq(a.cells, b.cells)
        return sym_eq_int(a, b)
    r = a == b
    return r if type(r) in (bool, SymBool) else bool(r)


def float_same(a, b):
    if not is_sym(a) and not is_sym(b):
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    A = a if is_sym(a) else SymFloat.const(a)
    B = b if is_sym(b) else SymFloat.const(b)
    for k in ("b32", "b64"):
        x, y = getattr(A, k), getattr(B, k)
        if x is not None and y is not None:
            r = cells_eq(x.low_cells(8 if k == "b64" else 4), y.low_cells(8 if k == "b64" else 4))
            return r if r is True else sym_or(r, sym_and(A.isnan(), B.isnan()))
    if A.dy is not None and B.dy is not None:
        return A == B
    if not is_sym(b) and (A.b32 is not None or A.b64 is not None):
        if b != b:
            return A.isnan()
        if b == 0:
            bits = A.b64 if A.b64 is not None else A.b32
            w = 64 if A.b64 is not None else 32
            return bits == (0 if math.copysign(1, b) > 0 else 1 << (w - 1))
        return A._eq_const(b)
    if not is_sym(a) and (B.b32 is not None or B.b64 is not None):
        return float_same(b, a)
    return mk_bool(A.fp == B.fp)
