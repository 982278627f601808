"""Harnesses on single parts of the package: strings, numbers, GUIDs, the container."""
import uuid as _uuid

from .build import B, Shape, fstring
from .harness import harness


def arch(env):
    return env.mod("palworld_save_tools.archive")


def reader(env, data, **k):
    return env.call(arch(env).FArchiveReader, data, **k)


def written(env, f):
    """(bytes written, return value) of f(writer)."""
    w = env.call(arch(env).FArchiveWriter)
    r = f(w)
    return env.call(w.bytes), r


# ------------------------------------------------------------------ C09 strings
TAIL = [0xEE, 1, 2, 3]


@harness
def str_read(env, p):
    """p: shape (kind, n).  A stored string: its text, its end, and its bytes again."""
    b = B(env, Shape())
    want = b.fstr("s", p["shape"])
    n = len(b.c)
    wire = b.wire()
    env.observe("wire", wire)
    r = reader(env, env.bytes_of(b.c + TAIL))
    s, e = env.attempt(r.fstring)
    if e is not None:
        env.fail("a stored string is rejected", e)
        return
    env.observe("text", s)
    env.check("the text is the stored text", env.eq(s, want))
    env.check("reading ends where the string ends", env.eq(env.call(r.read_to_end), bytes(TAIL)))
    res, e = env.attempt(written, env, lambda w: env.call(w.fstring, s))
    if e is not None:
        env.fail("a read string cannot be written", e)
        return
    env.check("written back byte for byte", env.eq(res[0], wire))
    env.check("the reported size is the number of bytes", env.eq(res[1], n))


@harness
def str_write(env, p):
    """p: n, max: any text of n characters is read back as written (or refused)."""
    codes = []
    for _ in range(p["n"]):
        c = env.int_of(env.cells(3, "ch"))
        env.assume(c <= p.get("max", 0x10FFFF))
        codes.append(c)
    if p.get("max", 0x10FFFF) > 0xD800:
        for a, b in zip(codes, codes[1:]):    # a pair of halves is one character in any JSON text
            env.assume(env.no(env.all([a >= 0xD800, a <= 0xDBFF, b >= 0xDC00, b <= 0xDFFF])))
    s = env.str_of(codes)
    res, e = env.attempt(written, env, lambda w: env.call(w.fstring, s))
    if e is not None:
        env.fail("a text is refused", e)
        return
    out, size = res
    env.observe("out", out)
    env.check("the reported size is the number of bytes", env.eq(size, len(env.cells_of(out))))
    r = reader(env, env.bytes_of(env.cells_of(out) + TAIL))
    t, e = env.attempt(r.fstring)
    if e is not None:
        env.fail("a written string cannot be read", e)
        return
    env.check("the text is read back as written", env.eq(t, s))
    env.check("reading ends where the string ends", env.eq(env.call(r.read_to_end), bytes(TAIL)))


@harness
def str_cut(env, p):
    """p: shape, cut: a string whose data ends early is refused."""
    b = B(env, Shape())
    b.fstr("s", p["shape"])
    wire = b.wire()[:-p["cut"]]
    env.observe("wire", wire)
    s, e = env.attempt(reader(env, wire).fstring)
    env.check("a cut-off string is refused", e is not None)


@harness
def str_claim(env, p):
    """A length field that claims more than the data holds is refused.  p: have."""
    size = env.cells(4, "size")
    n = env.int_of(size, True)
    have = p["have"]
    env.assume(env.any([n > have, n < -(have // 2)]))
    data = env.cells(have, "data")
    wire = env.bytes_of(size + data)
    env.observe("wire", wire)
    s, e = env.attempt(reader(env, wire).fstring)
    env.check("a string longer than the data is refused", e is not None)


# ------------------------------------------------------------------ C10 numbers
PRIM = {"i16": (2, True), "u16": (2, False), "i32": (4, True), "u32": (4, False), "i64": (8, True), "u64": (8, False),
        "byte": (1, False)}


@harness
def prim(env, p):
    """p: kind: every bit pattern is read as its value and written back."""
    k = p["kind"]
    if k in PRIM:
        n, signed = PRIM[k]
        c = env.cells(n, "v")
        want = env.int_of(c, signed)
    elif k in ("float", "double"):
        n = 4 if k == "float" else 8
        c = env.cells(n, "v")
        want = env.float_of(c)
        env.assume(env.no(env.isnan(want)))
    elif k == "bool":
        c = [env.bits(1, "v")]
        want = env.bool_of(c[0])
    elif k in ("vector", "quat"):
        n = 3 if k == "vector" else 4
        c = env.cells(8 * n, "v")
        want = [env.float_of(c[8 * i:8 * i + 8]) for i in range(n)]
        for f in want:
            env.assume(env.no(env.isnan(f)))
    wire = env.bytes_of(c)
    env.observe("wire", wire)
    r = reader(env, env.bytes_of(c + TAIL))
    v, e = env.attempt(getattr(r, k))
    if e is not None:
        env.fail("a stored number is rejected", e)
        return
    env.observe("value", v)
    env.check("the value is the stored value", env.eq(v, want))
    env.check("reading ends where the number ends", env.eq(env.call(r.read_to_end), bytes(TAIL)))
    if k in ("vector", "quat"):
        if k == "quat":
            return
        res, e = env.attempt(written, env, lambda w: [env.call(w.double, x) for x in v])
    else:
        res, e = env.attempt(written, env, lambda w: env.call(getattr(w, k), v))
    if e is not None:
        env.fail("a read number cannot be written", e)
        return
    env.check("written back byte for byte", env.eq(res[0], wire))


@harness
def prim_wide(env, p):
    """p: kind, bytes: any integer is written exactly or refused, and refused only if it does not fit."""
    k = p["kind"]
    n, signed = PRIM[k]
    v = env.integer(p.get("bytes", n + 2), True, "v")
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    res, e = env.attempt(written, env, lambda w: env.call(getattr(w, k), v))
    env.observe("refused", e is not None)
    fits = env.all([v >= lo, v <= hi])
    if e is not None:
        env.check("only numbers that do not fit are refused", env.no(fits))
        return
    env.check("numbers that do not fit are refused", fits)
    env.check("written exactly", env.eq(res[0], env.bytes_of(env.low(v, n))))


@harness
def prim_short(env, p):
    """p: kind, have: a number cut off by the end of the data is refused."""
    r = reader(env, env.bytes_of(env.cells(p["have"], "v")))
    v, e = env.attempt(getattr(r, p["kind"]))
    env.check("a cut-off number is refused", e is not None)


# ------------------------------------------------------------------- C12 GUIDs
@harness
def guid(env, p):
    """p: op."""
    A = arch(env)
    op = p["op"]
    c = env.cells(16, "a")
    raw = env.bytes_of(c)
    env.observe("raw", raw)
    text = env.guid_text(c)
    u = env.call(A.UUID, raw)
    s = text if op == "equal" else env.call(str, u)
    if op == "text":
        env.check("the text is the canonical lower-case text", env.eq(s, text))
        env.check("the text does not change", env.eq(env.call(str, u), text))
        v, e = env.attempt(A.UUID.from_str, s)
        if e is not None:
            return env.fail("its own text is refused", e)
        env.check("the text names the same bytes", env.eq(v.raw_bytes, raw))
        env.check("and gives the same text", env.eq(env.call(str, v), text))
    elif op == "stdlib":
        x, e = env.attempt(u.UUID)
        if e is not None:
            return env.fail("no standard UUID", e)
        env.check("the standard UUID has the same text", env.eq(env.call(str, x), text))
        y = env.call(u.UUID)
        env.check("asking again gives the same", env.eq(env.call(str, y), text))
        env.check("the text is unaffected", env.eq(env.call(str, u), text))
    elif op == "write":
        forms = {"own": u, "text": s, "canonical": text, "std": env.call(u.UUID)}
        for k, f in forms.items():
            res, e = env.attempt(written, env, lambda w: env.call(w.guid, f))
            if e is not None:
                env.fail("GUID given as %s is refused" % k, e)
            else:
                env.check("GUID given as %s is written as its bytes" % k, env.eq(res[0], raw))
            res, e = env.attempt(written, env, lambda w: env.call(w.optional_guid, f))
            if e is not None:
                env.fail("optional GUID given as %s is refused" % k, e)
            else:
                env.check("optional GUID given as %s" % k, env.eq(res[0], env.bytes_of([1] + c)))
        res, e = env.attempt(written, env, lambda w: env.call(w.optional_guid, None))
        env.check("no GUID is a zero flag", e is None and env.eq(res[0], b"\0"))
    elif op == "read":
        r = reader(env, env.bytes_of(c + TAIL))
        v, e = env.attempt(r.guid)
        if e is not None:
            return env.fail("a stored GUID is rejected", e)
        env.check("the text is that of the stored bytes", env.eq(env.call(str, v), text))
        env.check("16 bytes are read", env.eq(env.call(r.read_to_end), bytes(TAIL)))
        r = reader(env, env.bytes_of([1] + c + TAIL))
        v = env.call(r.optional_guid)
        env.check("an optional GUID is there", v is not None and env.eq(env.call(str, v), text))
        env.check("17 bytes are read", env.eq(env.call(r.read_to_end), bytes(TAIL)))
        r = reader(env, env.bytes_of([0] + TAIL))
        env.check("an absent GUID is absent", env.call(r.optional_guid) is None)
        env.check("one byte is read", env.eq(env.call(r.read_to_end), bytes(TAIL)))
    elif op == "equal":
        d = env.cells(16, "b")
        v = env.call(A.UUID, env.bytes_of(d))
        same = env.eq(raw, env.bytes_of(d))
        # a value whose text or standard UUID was asked for before compares the same
        for x, w in ((u, p.get("warm", 0)), (v, p.get("warm", 0) >> 2)):
            if w & 1:
                env.call(str, x)
            if w & 2:
                env.call(x.UUID)
        q = env.call(lambda: u == v)
        ne = env.call(lambda: u != v)
        env.check("equal exactly when the bytes are equal", env.eq(q, same))
        env.check("unequal exactly when not equal", env.eq(ne, env.no(same)))
        if env.branch(same):
            env.check("equal values hash alike", env.eq(env.hash(u), env.hash(v)))
            env.check("found in a set by value", env.call(lambda: v in {u: 1}))
    elif op == "equal text":
        d = env.cells(16, "b")
        t = env.guid_text(d)
        if p.get("warm"):
            env.call(u.UUID)
        same = env.eq(raw, env.bytes_of(d))
        env.check("equal to a text exactly when it is its text", env.eq(env.call(lambda: u == t), same))
    elif op == "json":
        j, e = env.attempt(env.json, {"id": u, "std": env.call(u.UUID)})
        if e is not None:
            return env.fail("a GUID cannot be shown as JSON", e)
        env.check("JSON shows the canonical text", env.eq(j, {"id": text, "std": text}))


@harness
def guid_text(env, p):
    """Any text of 32 hex digits, any letter case, with or without dashes."""
    A = arch(env)
    digits, low = [], []
    for _ in range(32):
        x = env.bits(7, "h")
        i = env.chr_of(x)
        env.later(env.any([env.all([i >= 48, i <= 57]), env.all([i >= 65, i <= 70]), env.all([i >= 97, i <= 102])]))
        digits.append(i)
    env.flush()
    form = p["form"]
    cut = [8, 12, 16, 20, 32]
    pieces, k = [], 0
    for n in cut:
        pieces.append(digits[k:n])
        k = n
    codes = []
    for i, x in enumerate(pieces):
        if i and form != "plain":
            codes.append(45)
        codes += x
    t = env.str_of(codes)
    canon = []
    for i, x in enumerate(pieces):
        if i:
            canon.append(45)
        canon += x
    want = env.call(env.str_of(canon).lower)
    env.observe("text", t)
    u, e = env.attempt(A.UUID.from_str, t)
    if e is not None:
        return env.fail("a GUID text is refused", e)
    env.check("its text is the same in lower case", env.eq(env.call(str, u), want))
    res, e = env.attempt(written, env, lambda w: env.call(w.guid, t))
    if e is not None:
        return env.fail("a GUID text is refused by the writer", e)
    env.check("written as the same GUID", env.eq(res[0], u.raw_bytes))


# ------------------------------------------------------------------ long lists
@harness
def bulk(env, p):
    """A list of n elements of which the first, the last and one in between are free.
    p: kind, n, mode."""
    from .build import gvas
    from .harness import three_way
    kind, n = p["kind"], p["n"]
    free = {0, n - 1, p.get("mid", n // 2)}

    def elem(b, i):
        f = i in free
        if kind in ("names", "enums"):
            return b.fstr("elem", ["a", 2]) if f else b.cstr("ab")
        if kind == "bytes":
            if f:
                return b.u8()
            b.c.append(i * 7 & 255)
            return i * 7 & 255
        if kind == "guids":
            return b.guid() if f else b.zguid()
        if kind == "vectors":
            if f:
                return b.vec()
            b.const(bytes(24))
            return {"x": 0.0, "y": 0.0, "z": 0.0}
        if kind == "structs":
            if f:
                return b.props([("X", lambda b, m: b.p_int(m))])
            b.cstr("None")
            return {}
        if kind == "map":
            k = b.cstr("k%05d" % i)
            if f:
                return {"key": k, "value": b.i32()}
            b.cint(i, 4)
            return {"key": k, "value": i}
        if kind == "versions":
            if f:
                return [b.guid(), b.i32()]
            z = b.zguid()
            b.cint(i, 4)
            return [z, i]
        if kind == "props":
            nm = "P%05d" % i
            if f:
                return nm, b.p_int(nm)
            b.head(nm, "IntProperty", 4)
            b.c.append(0)
            b.cint(i, 4)
            return nm, {"id": None, "value": i, "type": "IntProperty"}
        raise ValueError(kind)

    def prop(b, name):
        t = b.sub()
        vs = [elem(t, i) for i in range(n)]
        if kind in ("structs", "vectors"):
            u = b.sub()
            u.cint(n, 4)
            u.cstr(name)
            u.cstr("StructProperty")
            u.cint(len(t.c), 8)
            tn = u.cstr("Vector" if kind == "vectors" else "PalElementSaveData")
            z = u.zguid()
            u.c.append(0)
            b.head(name, "ArrayProperty", len(u.c) + len(t.c))
            b.cstr("StructProperty")
            b.c.append(0)
            b.c += u.c + t.c
            return {"array_type": "StructProperty", "id": None, "type": "ArrayProperty",
                    "value": {"prop_name": name, "prop_type": "StructProperty", "values": vs, "type_name": tn, "id": z}}
        if kind == "map":
            b.head(name, "MapProperty", len(t.c) + 8)
            b.cstr("NameProperty")
            b.cstr("IntProperty")
            b.c.append(0)
            b.cint(0, 4)
            b.cint(n, 4)
            b.c += t.c
            return {"key_type": "NameProperty", "value_type": "IntProperty", "key_struct_type": None, "value_struct_type": None,
                    "id": None, "value": vs, "type": "MapProperty"}
        at = {"names": "NameProperty", "enums": "EnumProperty", "guids": "Guid", "bytes": "ByteProperty"}[kind]
        b.head(name, "ArrayProperty", len(t.c) + 4)
        b.cstr(at)
        b.c.append(0)
        b.cint(n, 4)
        b.c += t.c
        return {"array_type": at, "id": None, "value": {"values": vs}, "type": "ArrayProperty"}

    b = B(env, Shape())
    if kind == "versions":
        from .build import header_free
        from . import build
        h = build.header_const(b.sub())
        b.cint(0x53415647, 4)
        for k, size in (("save_game_version", 4), ("package_file_version_ue4", 4), ("package_file_version_ue5", 4),
                        ("engine_version_major", 2), ("engine_version_minor", 2), ("engine_version_patch", 2),
                        ("engine_version_changelist", 4)):
            b.cint(h[k], size)
        b.cstr(h["engine_version_branch"])
        b.cint(3, 4)
        b.cint(n, 4)
        h["custom_versions"] = [elem(b, i) for i in range(n)]
        b.cstr(h["save_game_class_name"])
        want = {"header": h, "properties": b.props([("X", lambda b, m: b.p_int(m))]), "trailer": "AAAAAA=="}
        b.const(bytes(4))
    elif kind == "props":
        from .build import header_const
        h = header_const(b)
        want = {"header": h, "properties": dict(elem(b, i) for i in range(n)), "trailer": "AAAAAA=="}
        b.end()
        b.const(bytes(4))
    else:
        want = gvas(b, [("List", prop)])
    three_way(env, p, want, b.wire())
