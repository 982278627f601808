"""Reference wire format.

A `B` builds the bytes of a well-formed save and, alongside, the JSON that the tool must
show for them.  Every value is a free variable supplied by the environment; only the shape
(string kinds and lengths, element counts, presence of optional ids) is fixed per run, and
comes from `Shape`.
"""


class Shape:
    """Named dimensions; anything not overridden has its base value."""

    BASE = {"s": ["a", 2], "n": 1, "o": 0, "u": ["a", 2]}

    def __init__(self, over=None):
        self.over = dict(over or {})
        self.seen = []   # (key, kind)
        self.count = {}

    def get(self, kind, hint, base=None):
        i = self.count.get(hint, 0)
        self.count[hint] = i + 1
        key = "%s#%d" % (hint, i)
        self.seen.append((key, kind))
        if key in self.over:
            return self.over[key]
        if "*" + hint in self.over:
            return self.over["*" + hint]
        if "*" + kind in self.over:
            return self.over["*" + kind]
        return self.BASE[kind] if base is None else base


class B:
    def __init__(self, env, shape):
        self.env = env
        self.sh = shape
        self.c = []

    def sub(self):
        return B(self.env, self.sh)

    def wire(self):
        self.env.flush()
        return self.env.bytes_of(self.c)

    # ---- fixed content
    def const(self, data):
        self.c += list(data)

    def cint(self, v, n):
        self.c += list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))

    def cstr(self, s):
        self.c += fstring(s)
        return s

    # ---- free content
    def _n(self, n, hint):
        x = self.env.cells(n, hint)
        self.c += x
        return x

    def u8(self, h=""):
        return self.env.int_of(self._n(1, h))

    def u16(self, h=""):
        return self.env.int_of(self._n(2, h))

    def i32(self, h=""):
        return self.env.int_of(self._n(4, h), True)

    def u32(self, h=""):
        return self.env.int_of(self._n(4, h))

    def i64(self, h=""):
        return self.env.int_of(self._n(8, h), True)

    def u64(self, h=""):
        return self.env.int_of(self._n(8, h))

    def f32(self, h="", nan=False):
        f = self.env.float_of(self._n(4, h))
        if not nan:
            self.env.later(self.env.no(self.env.isnan(f)))
        return f

    def f64(self, h="", nan=False):
        f = self.env.float_of(self._n(8, h))
        if not nan:
            self.env.later(self.env.no(self.env.isnan(f)))
        return f

    def boolean(self, h=""):
        c = self.env.bits(1, h)
        self.c.append(c)
        return self.env.bool_of(c)

    def bool32(self, h=""):
        v = self.boolean(h)
        self.c += [0, 0, 0]
        return v

    def guid(self, h=""):
        return self.env.guid_text(self._n(16, h))

    def opt_guid(self, h="id"):
        if self.sh.get("o", h):
            self.c.append(1)
            return self.guid(h)
        self.c.append(0)
        return None

    def raw(self, n, h="raw"):
        return [self.env.int_of([x]) for x in self._n(n, h)]

    def fstr(self, h="s", shape=None):
        kind, n = shape if shape is not None else self.sh.get("s", h)
        env = self.env
        if kind == "e" or n == 0:
            self.cint(0, 4)
            return ""
        if kind == "a":     # n free ASCII characters
            cs = [env.bits(7, h) for _ in range(n)]
            self.cint(n + 1, 4)
            self.c += cs + [0]
            return env.str_of([env.chr_of(x) for x in cs])
        if kind == "L":     # n ASCII characters, free at both ends
            cs = [env.bits(7, h)] + [120] * (n - 2) + [env.bits(7, h)] * (1 if n > 1 else 0)
            self.cint(n + 1, 4)
            self.c += cs + [0]
            return env.str_of([env.chr_of(x) for x in cs])
        if kind == "u":     # n free UTF-16 units, not all ASCII
            cs = env.cells(2 * n, h)
            self.cint(-(n + 1), 4)
            self.c += cs + [0, 0]
            units = [env.int_of(cs[i:i + 2]) for i in range(0, 2 * n, 2)]
            env.assume(env.any([u > 0x7F for u in units]))
            return env.utf16(cs)
        if kind == "b":     # n free UTF-16 units outside the surrogates, not all ASCII
            cs = env.cells(2 * n, h)
            self.cint(-(n + 1), 4)
            self.c += cs + [0, 0]
            units = [env.int_of(cs[i:i + 2]) for i in range(0, 2 * n, 2)]
            env.assume(env.all([env.any([u > 0x7F for u in units])] + [env.any([u < 0xD800, u > 0xDFFF]) for u in units]))
            return env.utf16(cs)
        if kind == "T":     # n units, all ASCII but the last, which is free and not ASCII
            cs = [0x78, 0] * (n - 1) + env.cells(2, h)
            self.cint(-(n + 1), 4)
            self.c += cs + [0, 0]
            env.assume(env.int_of(cs[-2:]) > 0x7F)
            return env.utf16(cs)
        if kind == "U":     # n units, one free (not ASCII), the rest fixed
            cs = [0x42, 0x30] * (n - 1) + env.cells(2, h)
            self.cint(-(n + 1), 4)
            self.c += cs + [0, 0]
            if n == 1:
                env.assume(env.int_of(cs) > 0x7F)
            return env.utf16(cs)
        raise ValueError(kind)

    def array(self, h, f, base=None):
        """u32 count, then elements."""
        n = self.sh.get("n", h, base)
        self.cint(n, 4)
        return [f(self) for _ in range(n)]

    def vec(self, h="v"):
        return {"x": self.f64(h), "y": self.f64(h), "z": self.f64(h)}

    def quat(self, h="q"):
        return {"x": self.f64(h), "y": self.f64(h), "z": self.f64(h), "w": self.f64(h)}

    def transform(self, h="t"):
        return {"rotation": self.quat(h), "translation": self.vec(h), "scale3d": self.vec(h)}

    # ---- tagged properties
    def head(self, name, typ, size):
        self.cstr(name) if isinstance(name, str) else self.c.extend(name[0])
        self.cstr(typ)
        self.cint(size, 8)

    def end(self):
        self.cstr("None")

    def p_int(self, name, typ="IntProperty"):
        self.head(name, typ, 4)
        return {"id": self.opt_guid(), "value": self.i32(), "type": typ}

    def p_fixed(self, name):
        return self.p_int(name, "FixedPoint64Property")

    def p_int64(self, name):
        self.head(name, "Int64Property", 8)
        return {"id": self.opt_guid(), "value": self.i64(), "type": "Int64Property"}

    def p_float(self, name, nan=False):
        self.head(name, "FloatProperty", 4)
        return {"id": self.opt_guid(), "value": self.f32(nan=nan), "type": "FloatProperty"}

    def p_str(self, name, typ="StrProperty", shape=None):
        b = self.sub()
        i = b.opt_guid()
        k = len(b.c)
        v = b.fstr("str", shape)
        self.head(name, typ, len(b.c) - k)
        self.c += b.c
        return {"id": i, "value": v, "type": typ}

    def p_name(self, name, shape=None):
        return self.p_str(name, "NameProperty", shape)

    def p_conststr(self, name, s, typ="NameProperty"):
        self.head(name, typ, len(fstring(s)))
        i = self.opt_guid()
        self.cstr(s)
        return {"id": i, "value": s, "type": typ}

    def p_enum(self, name, etype=None, value=None):
        b = self.sub()
        t = b.cstr(etype) if etype is not None else b.fstr("enumtype")
        i = b.opt_guid()
        k = len(b.c)
        v = b.cstr(value) if value is not None else b.fstr("enumvalue")
        self.head(name, "EnumProperty", len(b.c) - k)
        self.c += b.c
        return {"id": i, "value": {"type": t, "value": v}, "type": "EnumProperty"}

    def p_bool(self, name):
        self.head(name, "BoolProperty", 0)
        return {"value": self.boolean(), "id": self.opt_guid(), "type": "BoolProperty"}

    def p_struct(self, name, stype, f, anyid=True):
        """f(b) -> expected value; stype: concrete type name."""
        b = self.sub()
        t = b.cstr(stype)
        sid = b.guid("structid") if anyid else b.zguid()
        i = b.opt_guid()
        k = len(b.c)
        v = f(b)
        self.head(name, "StructProperty", len(b.c) - k)
        self.c += b.c
        return {"struct_type": t, "struct_id": sid, "id": i, "value": v, "type": "StructProperty"}

    def zguid(self):
        self.const(bytes(16))
        return "00000000-0000-0000-0000-000000000000"

    def p_bytes(self, name, payload):
        """ArrayProperty of ByteProperty; payload(b) -> expected decoded value (or raw)."""
        b = self.sub()
        v = payload(b)
        self.bytes_head(name, len(b.c))
        i = self.opt_guid()
        self.cint(len(b.c), 4)
        self.c += b.c
        return {"array_type": "ByteProperty", "id": i, "value": v, "type": "ArrayProperty"}

    def bytes_head(self, name, n):
        self.head(name, "ArrayProperty", n + 4)
        self.cstr("ByteProperty")

    def p_rawbytes(self, name, n):
        return self.p_bytes(name, lambda b: {"values": b.raw(n)})

    def p_array(self, name, atype, f, h="arr", base=None):
        """Plain array of Name/Enum/Guid."""
        b = self.sub()
        n = self.sh.get("n", h, base)
        b.cint(n, 4)
        vs = [f(b) for _ in range(n)]
        self.head(name, "ArrayProperty", len(b.c))
        self.cstr(atype)
        i = self.opt_guid()
        self.c += b.c
        return {"array_type": atype, "id": i, "value": {"values": vs}, "type": "ArrayProperty"}

    def p_structs(self, name, prop_name, tname, f, h="structs", base=None, prop_type="StructProperty", n=None):
        """Array of structs."""
        b = self.sub()
        if n is None:
            n = self.sh.get("n", h, base)
        b.cint(n, 4)
        b.cstr(prop_name)
        b.cstr(prop_type)
        body = self.sub()
        gid = self.sub()
        g = gid.guid("arrid")
        vs = [f(body) for _ in range(n)]
        b.cint(len(body.c), 8)
        b.cstr(tname)
        b.c += gid.c
        b.c.append(0)
        b.c += body.c
        self.head(name, "ArrayProperty", len(b.c))
        self.cstr("StructProperty")
        i = self.opt_guid()
        self.c += b.c
        return {"array_type": "StructProperty", "id": i, "type": "ArrayProperty",
                "value": {"prop_name": prop_name, "prop_type": prop_type, "values": vs, "type_name": tname, "id": g}}

    def p_map(self, name, kt, vt, fk, fv, kst=None, vst=None, h="map", base=None):
        b = self.sub()
        b.cint(0, 4)
        n = self.sh.get("n", h, base)
        b.cint(n, 4)
        vs = []
        for _ in range(n):
            k = fk(b)
            vs.append({"key": k, "value": fv(b)})
        self.head(name, "MapProperty", len(b.c))
        self.cstr(kt)
        self.cstr(vt)
        i = self.opt_guid()
        self.c += b.c
        return {"key_type": kt, "value_type": vt, "key_struct_type": kst, "value_struct_type": vst, "id": i,
                "value": vs, "type": "MapProperty"}

    def props(self, items):
        """items: list of (name, f(b, name)); terminated property list."""
        out = {}
        for name, f in items:
            out[name] = f(self, name)
        self.end()
        return out


def fstring(s):
    if s == "":
        return [0, 0, 0, 0]
    if s.isascii():
        d = s.encode("ascii")
        return list((len(d) + 1).to_bytes(4, "little")) + list(d) + [0]
    d = s.encode("utf-16-le", "surrogatepass")
    return list((-(len(d) // 2 + 1) & 0xFFFFFFFF).to_bytes(4, "little")) + list(d) + [0, 0]


# ------------------------------------------------------------------------ file
def header_const(b):
    b.cint(0x53415647, 4)
    b.cint(3, 4)
    b.cint(522, 4)
    b.cint(1008, 4)
    b.cint(5, 2)
    b.cint(1, 2)
    b.cint(1, 2)
    b.cint(0, 4)
    b.cstr("++UE5+Release-5.1")
    b.cint(3, 4)
    b.cint(0, 4)
    b.cstr("/Script/Pal.PalWorldSaveGame")
    return {"magic": 0x53415647, "save_game_version": 3, "package_file_version_ue4": 522,
            "package_file_version_ue5": 1008, "engine_version_major": 5, "engine_version_minor": 1,
            "engine_version_patch": 1, "engine_version_changelist": 0,
            "engine_version_branch": "++UE5+Release-5.1", "custom_version_format": 3, "custom_versions": [],
            "save_game_class_name": "/Script/Pal.PalWorldSaveGame"}


def header_free(b):
    b.cint(0x53415647, 4)
    b.cint(3, 4)
    h = {"magic": 0x53415647, "save_game_version": 3}
    h["package_file_version_ue4"] = b.i32()
    h["package_file_version_ue5"] = b.i32()
    h["engine_version_major"] = b.u16()
    h["engine_version_minor"] = b.u16()
    h["engine_version_patch"] = b.u16()
    h["engine_version_changelist"] = b.u32()
    h["engine_version_branch"] = b.fstr("branch")
    b.cint(3, 4)
    h["custom_version_format"] = 3
    h["custom_versions"] = b.array("custom_versions", lambda b: [b.guid(), b.i32()])
    h["save_game_class_name"] = b.fstr("class")
    return h


def gvas(b, items, header=header_const, trailer=None):
    """Whole file; items as for B.props.  trailer: None for the usual four zero bytes."""
    import base64
    h = header(b)
    p = b.props(items)
    if trailer is None:
        b.const(bytes(4))
        t = "AAAAAA=="
    else:
        t = trailer(b)
    return {"header": h, "properties": p, "trailer": t}


def world(b, items):
    """worldSaveData with the given members."""
    return gvas(b, [("worldSaveData", lambda b, n: b.p_struct(n, "PalWorldSaveData", lambda b: b.props(items), anyid=False))])
