"""Concrete side of the harness environment: the same harness on the real code."""
import base64
import builtins
import copy
import importlib
import json
import math
import os
import shutil
import struct
import sys
import tempfile
import traceback
import zlib

from .shell import variables


class Stop(BaseException):
    """Assumption not met: nothing to check."""


class ConcEnv:
    sym = False

    def __init__(self, params, values):
        self.params = params
        self.values = values or {}
        self.n = 0
        self.failures = []
        self.observed = []
        self.infeasible = False
        self.pending = []
        self.path_state = {}
        self.detail = None
        self.scratch = None

    def cleanup(self):
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def _name(self, hint):
        self.n += 1
        return "%d:%s" % (self.n, hint)

    def bits(self, k, hint=""):
        return self.values.get(self._name(hint), 0) & ((1 << k) - 1)

    def cells(self, n, hint=""):
        return [self.bits(8, hint) for _ in range(n)]

    def flag(self, hint=""):
        return bool(self.bits(1, hint))

    def integer(self, nbytes, signed, hint=""):
        return self.int_of(self.cells(nbytes, hint), signed)

    def int_of(self, cells, signed=False):
        return int.from_bytes(bytes(cells), "little", signed=signed)

    def float_of(self, cells):
        return struct.unpack("<f" if len(cells) == 4 else "<d", bytes(cells))[0]

    def bytes_of(self, cells):
        return bytes(cells)

    def cells_of(self, b):
        return list(b)

    def str_of(self, codes):
        return "".join(map(chr, codes))

    def chr_of(self, cell):
        return cell

    def utf16(self, cells):
        return bytes(cells).decode("utf-16-le", "surrogatepass")

    def guid_text(self, c):
        order = [3, 2, 1, 0, None, 7, 6, None, 5, 4, None, 11, 10, None, 9, 8, 15, 14, 13, 12]
        return "".join("-" if i is None else "%02x" % c[i] for i in order)

    def dict(self, items):
        return dict(items)

    def b64(self, cells):
        return base64.b64encode(bytes(cells)).decode("ascii")

    def bool_of(self, cell):
        return cell != 0

    def low(self, v, n):
        return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))

    def assume(self, b):
        if not b:
            self.infeasible = True
            raise Stop()

    def later(self, b):
        self.pending.append(b)

    def flush(self):
        ps, self.pending = self.pending, []
        self.assume(all(ps))

    def all(self, xs):
        return all(xs)

    def any(self, xs):
        return any(xs)

    def no(self, x):
        return not x

    def isnan(self, f):
        return math.isnan(f)

    def isfinite(self, f):
        return math.isfinite(f)

    def round32(self, f):
        return struct.unpack("f", struct.pack("f", f))[0]

    def branch(self, b):
        return bool(b)

    def eq(self, a, b):
        return deep_eq(a, b)

    def mod(self, name):
        return importlib.import_module(name)

    def call(self, f, *a, **k):
        return f(*a, **k)

    def json(self, obj, allow_nan=True):
        enc = self.mod("palworld_save_tools.json_tools").CustomEncoder
        return json.loads(json.dumps(obj, cls=enc, allow_nan=allow_nan))

    def contains(self, hay, needle):
        return needle in hay

    def hash(self, x):
        return hash(x)

    def copy(self, tree):
        return copy.deepcopy(tree)

    def attempt(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def fs(self, replies=()):
        self.scratch = tempfile.mkdtemp(prefix="pst-")
        self.replies = list(replies)
        self.prompts = 0

    def _at(self, name):
        assert "/" not in name and name not in ("", ".", "..")
        return os.path.join(self.scratch, name)

    def fs_put(self, name, data):
        with open(self._at(name), "wb") as f:
            f.write(data)
        self._age(name)

    def _age(self, name):
        t = 1_500_000_000 + self.integer(1, False, "age")
        os.utime(self._at(name), (t, t))

    def fs_json(self, name, tree):
        with open(self._at(name), "w", encoding="utf8") as f:
            json.dump(tree, f)
        self._age(name)

    def fs_dir(self, name):
        os.mkdir(self._at(name))

    def fs_get(self, name):
        try:
            with open(self._at(name), "rb") as f:
                return f.read()
        except OSError:
            return None

    def fs_tree(self, data):
        try:
            return json.loads(data.decode("utf8"))
        except Exception:
            return None

    def fs_names(self):
        return sorted(os.listdir(self.scratch))

    def fs_same(self, a, b):
        return a == b

    def main(self, module, argv, func=None):
        m = self.mod(module)

        def ask(prompt=""):
            self.prompts += 1
            if not self.replies:
                raise EOFError("EOF when reading a line")
            return self.replies.pop(0)

        old = sys.argv, os.getcwd(), builtins.input
        sys.argv = ["prog"] + list(argv)
        builtins.input = ask
        os.chdir(self.scratch)
        try:
            with variables():
                if func:
                    getattr(m, func)(*argv)
                else:
                    m.main()
            return 0, None
        except SystemExit as e:
            return (0 if e.code is None else e.code if isinstance(e.code, int) else 1), None
        except Exception as e:
            return None, e
        finally:
            sys.argv, builtins.input = old[0], old[2]
            os.chdir(old[1])

    def zip(self, data):
        return zlib.compress(data)

    def unzip(self, data):
        return zlib.decompress(data)

    def check(self, label, cond):
        if not cond:
            self.failures.append(label)
            return False
        return True

    def fail(self, label, exc=None):
        self.failures.append(label if exc is None else "%s: %s: %s" % (label, type(exc).__name__, str(exc)[:300]))
        if exc is not None and self.detail is None:
            self.detail = "".join(traceback.format_exception(exc))[-2000:]

    def observe(self, label, v):
        self.observed.append([label, render(v)])


def render(v):
    if v is None or isinstance(v, bool) or (isinstance(v, int) and not isinstance(v, bool)):
        return v
    if isinstance(v, float):
        return "f:" + (struct.pack("<d", v).hex() if v == v else struct.pack("<d", float("nan")).hex())
    if isinstance(v, str):
        return "s:" + v.encode("utf-8", "surrogatepass").hex()
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [render(x) for x in v]
    if isinstance(v, dict):
        return [[render(k), render(x)] for k, x in v.items()]
    if isinstance(v, BaseException):
        return "exc:" + type(v).__name__
    return "obj:" + type(v).__name__


def deep_eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(deep_eq, a, b))
    if isinstance(a, float):
        return isinstance(b, float) and (struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b))
    if isinstance(a, int):
        return isinstance(b, int) and a == b
    if isinstance(a, (bytes, bytearray)):
        return isinstance(b, (bytes, bytearray)) and bytes(a) == bytes(b)
    return type(a) == type(b) and a == b
