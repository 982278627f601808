"""A file system for the code under test: one flat directory, names may be symbolic.

Stands in for the real one in symbolic runs, so nothing on disk is touched; the concrete
side of the harness does the same in a scratch directory.
"""
import errno
import os

from . import core, models, text
from .core import Unsupported
from .values import SymBytes, SymStr, bytes_cells, is_sym, scells_eq, str_cells


AGE0 = 1_500_000_000     # files that were there before are this old, and a free number of seconds younger
NOW = 2_000_000_000


class Node:
    def __init__(self, name, data, isdir=False, mtime=NOW):
        self.name, self.data, self.isdir, self.mtime = name, data, isdir, mtime


class Stat:
    def __init__(self, n, size):
        self.st_mode = 0o40755 if n.isdir else 0o100644
        self.st_mtime = n.mtime
        self.st_mtime_ns = n.mtime * 1_000_000_000
        self._size = size

    @property
    def st_size(self):
        return self._size()


def _same(a, b):
    r = scells_eq(str_cells(a), str_cells(b))
    return r if type(r) is bool else bool(r)


class World:
    def __init__(self, replies=()):
        self.nodes = []
        self.replies = list(replies)
        self.prompts = 0
        self.events = []
        self.open_writes = 0

    # ---- lookup
    def norm(self, p):
        if isinstance(p, (bytes, int)) or p is None:
            raise Unsupported("path type")
        if not isinstance(p, str):
            p = models.path_str(p)
        while not is_sym(p) and p.startswith("./"):
            p = p[2:]
        return p

    def find(self, p):
        p = self.norm(p)
        for n in self.nodes:
            if _same(n.name, p):
                return n
        return None

    def put(self, name, data, isdir=False, age=None):
        n = Node(name, data, isdir, NOW + len(self.nodes) if age is None else AGE0 + age)
        self.nodes.append(n)
        return n

    # ---- calls
    def exists(self, p):
        return self.find(p) is not None

    lexists = exists

    def isfile(self, p):
        n = self.find(p)
        return n is not None and not n.isdir

    def isdir(self, p):
        n = self.find(p)
        return n is not None and n.isdir

    def islink(self, p):
        return False

    def access(self, p, mode):
        return self.exists(p)

    def samefile(self, a, b):
        x, y = self.find(a), self.find(b)
        if x is None or y is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        return x is y

    def getsize(self, p):
        n = self.find(p)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        if type(n.data) is models.SymJson:
            raise Unsupported("size of JSON text")
        return len(n.data)

    def _node(self, p):
        n = self.find(p)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        return n

    def getmtime(self, p):
        return self._node(p).mtime

    def stat(self, p, **k):
        return Stat(self._node(p), lambda: self.getsize(p))

    lstat = stat

    def utime(self, p, times=None, **k):
        if times is None and not k:
            self._node(p).mtime = NOW + 1000
        elif times is not None:
            self._node(p).mtime = times[1]
        else:
            raise Unsupported("utime")

    def remove(self, p):
        n = self.find(p)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        if n.isdir:
            raise IsADirectoryError(errno.EISDIR, "Is a directory")
        self.nodes.remove(n)

    unlink = remove

    def replace(self, a, b):
        n = self.find(a)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        o = self.find(b)
        if o is n:
            return
        if o is not None:
            if o.isdir:
                raise IsADirectoryError(errno.EISDIR, "Is a directory")
            self.nodes.remove(o)
        n.name = self.norm(b)

    rename = replace
    move = replace

    def copyfile(self, a, b, **k):
        n = self.find(a)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        o = self.find(b)
        if o is None:
            self.put(self.norm(b), n.data)
        else:
            o.data = n.data
        return b

    copy = copy2 = copyfile

    def listdir(self, p="."):
        return [n.name for n in self.nodes]

    def fsync(self, fd):
        return None

    def input(self, prompt=""):
        self.prompts += 1
        if not self.replies:
            raise EOFError("EOF when reading a line")
        return self.replies.pop(0)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            raise Unsupported("open of a descriptor")
        name = self.norm(file)
        n = self.find(name)
        kind = mode.replace("b", "").replace("t", "")
        if n is not None and n.isdir:
            raise IsADirectoryError(errno.EISDIR, "Is a directory")
        if kind in ("r", "r+"):
            if n is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory: %r" % (name if not is_sym(name) else "?",))
        elif kind in ("x", "x+"):
            if n is not None:
                raise FileExistsError(errno.EEXIST, "File exists")
            n = self.put(name, b"")
        elif kind in ("w", "w+"):
            if n is None:
                n = self.put(name, b"")
            n.data = b""
            n.mtime = NOW + self.open_writes
            self.open_writes += 1
        elif kind in ("a", "a+"):
            if n is None:
                n = self.put(name, b"")
        else:
            raise Unsupported("open mode " + mode)
        return File(n, mode, encoding, errors)


class File:
    def __init__(self, node, mode, encoding, errors):
        self.node, self.mode, self.encoding, self.errors = node, mode, encoding or "utf-8", errors or "strict"
        self.binary = "b" in mode
        self.pos = 0
        self.closed = False
        self.name = node.name
        self.mode_w = any(c in mode for c in "wax+")
        self.mode_r = "r" in mode or "+" in mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        return 99

    def _data(self):
        d = self.node.data
        if type(d) in (models.SymJson, models.SymJsonBytes):
            return d if self.binary == (type(d) is models.SymJsonBytes) else (
                d.encode() if self.binary else d.decode())
        if self.binary:
            return d
        if is_sym(d):
            return models.call(d.decode, self.encoding, self.errors)
        return d.decode(self.encoding, self.errors)

    def read(self, n=-1):
        if not self.mode_r:
            raise OSError("not readable")
        d = self._data()
        if type(d) in (models.SymJson, models.SymJsonBytes):
            if n is not None and not is_sym(n) and n >= 0:
                raise Unsupported("partial read of JSON text")
            if self.pos:
                return b"" if self.binary else ""
            self.pos = 1
            return d
        if n is None or (not is_sym(n) and n < 0):
            r = d[self.pos:]
        else:
            r = d[self.pos:self.pos + int(n)]
        self.pos += len(r)
        return r

    def readline(self, *a):
        raise Unsupported("readline")

    def seek(self, pos, whence=0):
        if whence == 0:
            self.pos = int(pos)
        elif whence == 2:
            self.pos = len(self._data()) + int(pos)
        else:
            self.pos += int(pos)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.node.data = self.node.data[:self.pos if size is None else size]

    def write(self, d):
        if not self.mode_w:
            raise OSError("not writable")
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if type(d) in (models.SymJson, models.SymJsonBytes):
            if (type(d) is models.SymJson) == self.binary:
                raise TypeError("a bytes-like object is required, not 'str'" if self.binary else "write() argument must be str, not bytes")
            if len(self.node.data):
                raise Unsupported("JSON text appended to something")
            self.node.data = d.encode(self.encoding, self.errors) if type(d) is models.SymJson else d
            return 2
        if type(self.node.data) in (models.SymJson, models.SymJsonBytes):
            if d in ("", "\n", b"", b"\n"):
                return len(d)
            raise Unsupported("text appended to JSON")
        if self.binary:
            c = bytes_cells(d)
            if c is None:
                raise TypeError("a bytes-like object is required, not '%s'" % models.type_name(d))
        else:
            if not isinstance(d, str):
                raise TypeError("write() argument must be str, not %s" % models.type_name(d))
            c = bytes_cells(models.call(d.encode, self.encoding, self.errors))
        cur = list(bytes_cells(self.node.data))
        if "a" in self.mode or "+" not in self.mode:
            cur += list(c)
        else:
            cur[self.pos:self.pos + len(c)] = list(c)
            self.pos += len(c)
        self.node.data = SymBytes.mk(cur)
        return len(c)

    def writelines(self, xs):
        for x in xs:
            self.write(x)
