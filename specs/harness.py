"""Harnesses.  Each runs unchanged on the symbolic environment (all values) and on the
concrete one (replays and witnesses, against the real package)."""
import random

from symx.cenv import ConcEnv, Stop
from .build import B, Shape
from . import records as R
from . import tree as T

HARNESS = {}


def harness(f):
    HARNESS[f.__name__] = f
    return f


def tools(env):
    g = env.mod("palworld_save_tools.gvas")
    t = env.mod("palworld_save_tools.paltypes")
    return g.GvasFile, t.PALWORLD_TYPE_HINTS, t.PALWORLD_CUSTOM_PROPERTIES


def to_json(env, wire, what="well-formed save", custom=None, allow_nan=True):
    """sav contents -> JSON tree, as the converter does; None if it fails (reported)."""
    G, hints, props = tools(env)
    g, e = env.attempt(G.read, wire, hints, props if custom is None else custom, allow_nan=allow_nan)
    if e is not None:
        env.fail("%s rejected by the reader" % what, e)
        return None
    d, e = env.attempt(g.dump)
    if e is None:
        d, e = env.attempt(env.json, d, allow_nan=allow_nan)
    if e is not None:
        env.fail("%s cannot be shown as JSON" % what, e)
        return None
    return d


def to_wire(env, tree, what="its own JSON"):
    G, hints, props = tools(env)
    g, e = env.attempt(G.load, tree)
    if e is None:
        g, e = env.attempt(g.write, props)
    if e is not None:
        env.fail("%s rejected by the writer" % what, e)
        return None
    return g


def is_props(t):
    """Is this a list of properties (whose order is the order in the save)?"""
    return bool(t) and all(isinstance(v, dict) and isinstance(v.get("type"), str) and v["type"].endswith("Property") for v in t.values())


def rekey(t, how):
    """The same JSON with the members of every object that is not a property list in another
    order, or (how "noid") without the ids that are null."""
    if isinstance(t, dict):
        vs = [(k, rekey(v, how)) for k, v in t.items()]
        if not is_props(t):
            if how == "reverse":
                vs.reverse()
            elif how == "sorted":
                vs.sort(key=lambda x: x[0])
            elif "id" in t and t["id"] is None and str(t.get("type", "")).endswith("Property"):
                vs = [x for x in vs if x[0] != "id"]
        t.clear()
        for k, v in vs:     # names may be free, and are distinct
            dict.__setitem__(t, k, v)
        return t
    if type(t) is list:
        return [rekey(x, how) for x in t]
    return t


def three_way(env, p, want, wire):
    env.observe("wire", wire)
    if p["mode"] == "enc":
        doc = env.copy(want)
        if "keys" in p:
            doc = rekey(doc, p["keys"])
        out = to_wire(env, doc, "JSON in the documented layout")
        if out is not None:
            env.observe("out", out)
            env.check("the written bytes are exactly the edited values", env.eq(out, wire))
        return
    j = to_json(env, wire, custom={} if p.get("custom") == "none" else None)
    if j is None:
        return
    if p["mode"] == "dec":
        env.observe("json", j)
        env.check("JSON shows exactly the stored values", env.eq(j, want))
        return
    out = to_wire(env, j)
    if out is not None:
        env.observe("out", out)
        env.check("unchanged save comes back byte for byte", env.eq(out, wire))


@harness
def tree(env, p):
    """p: tree, mode, header, trailer, shape."""
    b = B(env, Shape(p.get("shape")))
    want = T.file(b, p["spec"] if "spec" in p else T.TREES[p["tree"]], p.get("header", "const"), p.get("trailer"))
    three_way(env, p, want, b.wire())


@harness
def record(env, p):
    """p: rec, variant, mode (rt|dec|enc), shape."""
    sh = Shape(p.get("shape"))
    sh.turn = p.get("turn", 0)      # whole turns added to each angle
    b = B(env, sh)
    want = R.RECORDS[p["rec"]][0](b, p["variant"])
    wire = b.wire()
    three_way(env, p, want, wire)


# ------------------------------------------------------------------------- C07 edits
def _prebuilt(b, spec, name):
    """A property built on its own: (cells of the whole property, its JSON)."""
    t = b.sub()
    js = T.prop(t, name, spec)
    return t.c, js


def _members(names, parts):
    """Builder of a property list from prebuilt members."""
    def f(b):
        out = {}
        for n, (cells, js) in zip(names, parts):
            b.c += cells
            out[n] = js
        b.end()
        return out
    return f


def _wrap(b, ctx, f):
    """A file with the list of members `f` at the place `ctx`; fixed surroundings."""
    from .build import header_const
    h = header_const(b)
    nid = {"*o": 0}
    sub = Shape(nid)
    keep, b.sh = b.sh, sub
    out = {}

    def side(name, v):
        b.head(name, "IntProperty", 4)
        b.c.append(0)
        b.cint(v, 4)
        out[name] = {"id": None, "value": v, "type": "IntProperty"}

    def struct(name, g):
        out[name] = b.p_struct(name, "PalSomethingSaveData", g, anyid=False)

    if ctx == "top":
        out = f(b)
        # f has ended the list
        b.const(bytes(4))
        b.sh = keep
        return {"header": h, "properties": out, "trailer": "AAAAAA=="}
    side("Before", 7)
    if ctx == "struct":
        struct("Outer", lambda b: b.props([("Pre", lambda b, n: b.p_int(n) if False else _fixint(b, n, 3)),
                                           ("Inner", lambda b, n: b.p_struct(n, "PalInner", f, anyid=False)),
                                           ("Post", lambda b, n: _fixint(b, n, 4))]))
    elif ctx == "structs":
        it = iter([lambda b: b.props([("Other", lambda b, n: _fixint(b, n, 1))]), f,
                   lambda b: b.props([("Other", lambda b, n: _fixint(b, n, 2))])])
        t = b.sub()
        js = _fixed_structs(t, "List", lambda b: next(it)(b), 3)
        b.c += t.c
        out["List"] = js
    elif ctx == "map":
        it = iter([lambda b: b.props([("Other", lambda b, n: _fixint(b, n, 1))]), f])
        names = iter(["first", "second"])
        out["Map"] = b.p_map("Map", "NameProperty", "StructProperty", lambda b: b.cstr(next(names)), lambda b: next(it)(b),
                             None, "StructProperty", base=2)
    elif ctx == "character":
        path = ".worldSaveData.CharacterSaveParameterMap.Value.RawData"

        def payload(b):
            o = b.props([("SaveParameter", lambda b, n: b.p_struct(n, "PalIndividualCharacterSaveParameter", f, anyid=False))])
            b.const(bytes(4))
            return {"object": o, "unknown_bytes": [0] * 4, "group_id": b.zguid()}

        out["worldSaveData"] = b.p_struct("worldSaveData", "PalWorldSaveData", lambda b: b.props([
            ("CharacterSaveParameterMap", lambda b, n: b.p_map(
                n, "StructProperty", "StructProperty", lambda b: b.props([("K", lambda b, n: _fixint(b, n, 5))]),
                lambda b: b.props([("RawData", lambda b, n: R.custom(b.p_bytes(n, payload), path))]),
                "StructProperty", "StructProperty", base=1))]), anyid=False)
    else:
        raise ValueError(ctx)
    side("After", 9)
    b.end()
    b.const(bytes(4))
    b.sh = keep
    return {"header": h, "properties": out, "trailer": "AAAAAA=="}


def _fixint(b, name, v):
    b.head(name, "IntProperty", 4)
    b.c.append(0)
    b.cint(v, 4)
    return {"id": None, "value": v, "type": "IntProperty"}


def _fixed_structs(b, name, f, n):
    body = b.sub()
    vs = [f(body) for _ in range(n)]
    t = b.sub()
    t.cint(n, 4)
    t.cstr(name)
    t.cstr("StructProperty")
    t.cint(len(body.c), 8)
    t.cstr("PalElementSaveData")
    z = t.zguid()
    t.c.append(0)
    t.c += body.c
    b.head(name, "ArrayProperty", len(t.c))
    b.cstr("StructProperty")
    b.c.append(0)
    b.c += t.c
    return {"array_type": "StructProperty", "id": None, "type": "ArrayProperty",
            "value": {"prop_name": name, "prop_type": "StructProperty", "values": vs, "type_name": "PalElementSaveData", "id": z}}


WHERE = {"top": ["properties"], "struct": ["properties", "Outer", "value", "Inner", "value"],
         "structs": ["properties", "List", "value", "values", 1], "map": ["properties", "Map", "value", 1, "value"],
         "character": ["properties", "worldSaveData", "value", "CharacterSaveParameterMap", "value", 0, "value",
                       "RawData", "value", "object", "SaveParameter", "value"]}


def opened(env, p, wire):
    """(the tree to edit, what writes it): the JSON; or, for a program that has written the
    save once already, the tree that it wrote."""
    if p.get("first") != "lib":
        j = to_json(env, wire)
        if j is None:
            return None
        if p.get("first") == "json":
            out = to_wire(env, j)
            if out is None:
                return None
            env.check("unchanged save comes back byte for byte", env.eq(out, wire))
        return j, lambda: to_wire(env, j, "an edited JSON")
    G, hints, props = tools(env)
    g, e = env.attempt(G.read, wire, hints, props)
    if e is None:
        out, e = env.attempt(g.write, props)
    if e is not None:
        env.fail("well-formed save rejected", e)
        return None
    env.check("unchanged save comes back byte for byte", env.eq(out, wire))

    def write():
        out, e = env.attempt(g.write, props)
        if e is not None:
            env.fail("an edited save is rejected by the writer", e)
        return out
    return {"properties": g.properties}, write


@harness
def edit(env, p):
    """One edit in the JSON of a save: p: ctx, op, old (spec), new (spec), shape,
    first: "json" | "lib": by a program that has already written the unedited save."""
    sh = Shape(p.get("shape"))
    b = B(env, sh)
    first = _prebuilt(b, "int", "First")
    last = _prebuilt(b, "str", "Last")
    old = _prebuilt(b, p["old"], "Mid")
    new = _prebuilt(b, p["new"], "Mid") if p["op"] != "delete" else None
    names, parts = ["First", "Mid", "Last"], [first, old, last]
    if p["op"] == "replace":
        n2, p2 = names, [first, new, last]
    elif p["op"] == "inplace":
        n2, p2 = names, [first, new, last]
    elif p["op"] == "delete":
        n2, p2 = ["First", "Last"], [first, last]
    elif p["op"] == "add":
        names, parts = ["First", "Last"], [first, last]
        n2, p2 = ["First", "Last", "Mid"], [first, last, new]
    a, z = b.sub(), b.sub()
    _wrap(a, p["ctx"], _members(names, parts))
    _wrap(z, p["ctx"], _members(n2, p2))
    wire, goal = a.wire(), z.wire()
    env.observe("wire", wire)
    write = opened(env, p, wire)
    if write is None:
        return
    j, write = write
    d = j
    for k in WHERE[p["ctx"]]:
        d = d[k]
    if p["op"] == "delete":
        del d["Mid"]
    elif p["op"] == "inplace":
        for k, v in env.copy(new[1]).items():
            d["Mid"][k] = v
    else:
        d["Mid"] = env.copy(new[1])
    out = write()
    if out is not None:
        env.observe("out", out)
        env.check("the edited save is the save with those contents", env.eq(out, goal))


@harness
def resize(env, p):
    """Elements added to or removed from an array or map in the JSON: p: kind, n, m, ctx, shape."""
    b = B(env, Shape(p.get("shape")))
    n, m = p["n"], p["m"]
    kind = p["kind"]
    k = max(n, m)
    cells, js = [], []
    for _ in range(k):
        t = b.sub()
        if kind in ("names", "enums"):
            js.append(t.fstr("elem"))
        elif kind == "guids":
            js.append(t.guid())
        elif kind == "bytes":
            js.append(t.raw(1)[0])
        elif kind == "structs":
            js.append(t.props([("X", lambda b, n: b.p_str(n)), ("Y", lambda b, n: b.p_int(n))]))
        elif kind == "vectors":
            js.append(t.vec())
        elif kind == "map":
            key = t.fstr("key")
            js.append({"key": key, "value": t.i32()})
        elif kind == "mapst":
            key = t.guid()
            js.append({"key": key, "value": t.props([("X", lambda b, n: b.p_str(n))])})
        cells.append(t.c)

    def mid(b, idx):
        t = b.sub()
        body = []
        for i in idx:
            body += cells[i]
        if kind in ("names", "enums", "guids"):
            at = {"names": "NameProperty", "enums": "EnumProperty", "guids": "Guid"}[kind]
            t.head("Mid", "ArrayProperty", 4 + len(body))
            t.cstr(at)
            t.c.append(0)
            t.cint(len(idx), 4)
        elif kind == "bytes":
            t.bytes_head("Mid", len(body))
            t.c.append(0)
            t.cint(len(idx), 4)
        elif kind in ("structs", "vectors"):
            u = b.sub()
            u.cint(len(idx), 4)
            u.cstr("Mid")
            u.cstr("StructProperty")
            u.cint(len(body), 8)
            u.cstr("Vector" if kind == "vectors" else "PalElementSaveData")
            u.zguid()
            u.c.append(0)
            t.head("Mid", "ArrayProperty", len(u.c) + len(body))
            t.cstr("StructProperty")
            t.c.append(0)
            t.c += u.c
        else:
            t.head("Mid", "MapProperty", 8 + len(body))
            t.cstr("NameProperty" if kind == "map" else "StructProperty")
            t.cstr("IntProperty" if kind == "map" else "StructProperty")
            t.c.append(0)
            t.cint(0, 4)
            t.cint(len(idx), 4)
        return t.c + body

    first, last = _prebuilt(b, "int", "First"), _prebuilt(b, "str", "Last")
    order = list(range(m))
    if p.get("reverse"):
        order.reverse()
    a, z = b.sub(), b.sub()
    _wrap(a, p["ctx"], _members(["First", "Mid", "Last"], [first, (mid(b, range(n)), None), last]))
    _wrap(z, p["ctx"], _members(["First", "Mid", "Last"], [first, (mid(b, order), None), last]))
    wire, goal = a.wire(), z.wire()
    env.observe("wire", wire)
    write = opened(env, p, wire)
    if write is None:
        return
    j, write = write
    d = j
    for x in WHERE[p["ctx"]]:
        d = d[x]
    vals = [env.copy(js[i]) for i in order]
    if kind in ("map", "mapst"):
        d["Mid"]["value"] = vals
    else:
        d["Mid"]["value"]["values"] = vals
    out = write()
    if out is not None:
        env.observe("out", out)
        env.check("the edited save is the save with those elements", env.eq(out, goal))


# ------------------------------------------------- C08 damaged or unknown data
class TB(B):
    """Builder that lengthens or cuts the payload of one byte array."""

    def __init__(self, env, shape, state):
        super().__init__(env, shape)
        self.state = state

    def sub(self):
        return TB(self.env, self.sh, self.state)

    def plain(self, cells):
        """A dynamic item has no tag: its bytes may be read as floats, and the payload of a NaN
        is not kept (see DESIGN.md), so no byte may be the top of one."""
        if self.state.get("nonan"):
            e = self.env
            for c in cells:
                v = e.int_of([c])
                e.later(e.all([e.no(v == 0x7F), e.no(v == 0xFF)]))

    def raw(self, *a, **k):
        n = len(self.c)
        v = super().raw(*a, **k)
        self.plain(self.c[n:])
        return v

    def p_bytes(self, name, payload):
        def f(b):
            v = payload(b)
            st = self.state
            i = st["seen"]
            st["seen"] += 1
            if i == st["index"]:
                st["size"] = len(b.c)
                if st["delta"] >= 0:
                    self.plain(b._n(st["delta"], "extra"))
                else:
                    if len(b.c) < -st["delta"]:
                        st["none"] = True
                    else:
                        del b.c[len(b.c) + st["delta"]:]
            return v
        return super().p_bytes(name, f)


def lossless(env, wire, what, custom=None):
    """Reading and writing back either fails or gives the same bytes."""
    G, hints, props = tools(env)

    def there():
        g = env.call(G.read, wire, hints, props if custom is None else custom)
        return env.json(env.call(g.dump))

    def back(j):
        return env.call(env.call(G.load, j).write, props)

    j, e = env.attempt(there)
    out = None
    if e is None:
        out, e = env.attempt(back, j)
    env.observe("outcome", "refused" if e is not None else out)
    if e is None:
        env.check("%s is refused or kept byte for byte" % what, env.eq(out, wire))


@harness
def tamper(env, p):
    """p: rec, variant, shape, index (which byte array), delta (bytes added or cut)."""
    st = {"seen": 0, "index": p["index"], "delta": p["delta"], "nonan": p["rec"] == "dynamic_item"}
    b = TB(env, Shape(p.get("shape")), st)
    R.RECORDS[p["rec"]][0](b, p["variant"])
    if st.get("none"):
        env.flush()
        env.check("nothing to cut", True)
        return
    wire = b.wire()
    env.observe("wire", wire)
    lossless(env, wire, "a record with %s" % ("unknown extra data" if p["delta"] > 0 else "missing data"))


@harness
def renamed(env, p):
    """A record whose kind is written with a name the tool may not know, with the payload of one
    it knows. p: rec, variant, shape, index (which such name), n (length, None: unchanged)."""
    st = {"seen": 0, "texts": [], "name": None}

    class RB(B):
        def sub(self):
            return RB(self.env, self.sh)

        def cstr(self, s):
            if "::" not in s and s not in R.MAP_NAMES:
                return super().cstr(s)
            i = st["seen"]
            st["seen"] += 1
            st["texts"].append(s)
            if i != p["index"]:
                return super().cstr(s)
            head, sep, tail = s.rpartition("::")
            n = p["n"] or len(tail)
            self.cint(len(head + sep) + n + 1, 4)
            self.c += [ord(x) for x in head + sep]
            cells = [env.bits(7, "name") for _ in range(n)]
            self.c += cells + [0]
            st["name"] = (head + sep, cells)
            return env.str_of([env.chr_of(ord(x)) for x in head + sep] + [env.chr_of(x) for x in cells])

    b = RB(env, Shape(p.get("shape")))
    R.RECORDS[p["rec"]][0](b, p["variant"])
    head, cells = st["name"]
    for k in sorted(R.KINDS if head else R.MAP_NAMES):
        if k.startswith(head) and len(k) == len(head) + len(cells):
            env.assume(env.no(env.all([R._same_letter(env, c, x) for c, x in zip(cells, k[len(head):])])))
    wire = b.wire()
    env.observe("wire", wire)
    lossless(env, wire, "a record of an unknown kind")


@harness
def prefix(env, p):
    """A file cut after p["keep"] bytes (negative: that many off the end)."""
    b = B(env, Shape(p.get("shape")))
    if "rec" in p:
        R.RECORDS[p["rec"]][0](b, p["variant"])
    else:
        T.file(b, T.TREES[p["tree"]], p.get("header", "const"), p.get("trailer"))
    wire = b.wire()
    k = p["keep"]
    cut = wire[:k]
    env.observe("wire", cut)
    lossless(env, cut, "a cut-off save")


KNOWN = {"property": ["StructProperty", "IntProperty", "Int64Property", "FixedPoint64Property", "FloatProperty", "StrProperty",
                      "NameProperty", "EnumProperty", "BoolProperty", "ArrayProperty", "MapProperty"],
         "struct": ["Vector", "DateTime", "Guid", "Quat", "LinearColor"],
         "array": ["StructProperty", "EnumProperty", "NameProperty", "Guid", "ByteProperty"],
         "mapkey": ["StructProperty", "EnumProperty", "NameProperty", "IntProperty", "BoolProperty"]}
KNOWN["mapvalue"] = KNOWN["mapkey"]


@harness
def unknown(env, p):
    """Type names the tool may not know: p: what, type (string shape), body (bytes)."""
    from .build import header_const
    b = B(env, Shape(p.get("shape")))
    header_const(b)
    w = p["what"]
    t = b.sub()
    if w != "labelled":
        name = t.fstr("type", p["type"])
        for k in KNOWN[w]:
            if len(k) == len(name):
                env.assume(env.no(env.eq(name, k)))
    body = env.cells(p["body"], "body")
    if w == "property":
        b.cstr("Prop")
        b.c += t.c
        b.cint(p["body"], 8)
        b.c.append(0)
        b.c += body
    elif w == "struct":
        b.head("Prop", "StructProperty", 9)
        b.c += t.c
        b.zguid()
        b.c.append(0)
        b.end()
    elif w == "array":
        b.head("Prop", "ArrayProperty", p["body"] + 4)
        b.c += t.c
        b.c.append(0)
        b.cint(p.get("count", 1), 4)
        b.c += body
    elif w == "labelled":      # an array of bytes that are not one byte each
        b.head("Prop", "ArrayProperty", p["body"] + 4)
        b.cstr("ByteProperty")
        b.c.append(0)
        b.cint(p["count"], 4)
        b.c += body
    elif w in ("mapkey", "mapvalue"):
        b.head("Prop", "MapProperty", p["body"] + 8)
        if w == "mapkey":
            b.c += t.c
            b.cstr("IntProperty")
        else:
            b.cstr("IntProperty")
            b.c += t.c
        b.c.append(0)
        b.cint(0, 4)
        b.cint(p.get("count", 1), 4)
        b.c += body
    b.end()
    b.const(bytes(4))
    wire = b.wire()
    env.observe("wire", wire)
    lossless(env, wire, "a save with an unknown %s type" % w)


# --------------------------------------------------------------- C16 subsets
@harness
def subset(env, p):
    """p: rec, variant, shape, keep: "none" | "own" | "others" | list of paths."""
    b = B(env, Shape(p.get("shape")))
    R.RECORDS[p["rec"]][0](b, p["variant"])
    wire = b.wire()
    env.observe("wire", wire)
    _, _, props = tools(env)
    own = R.PATHS[p["rec"]]
    if p["keep"] == "none":
        sel = {}
    elif p["keep"] == "own":
        sel = {k: props[k] for k in props if k in own}
    elif p["keep"] == "others":
        sel = {k: props[k] for k in props if k not in own}
    else:
        sel = {k: props[k] for k in props if k in p["keep"]}
    j = to_json(env, wire, custom=sel)
    if j is None:
        return
    out = to_wire(env, j)
    if out is not None:
        env.observe("out", out)
        env.check("decoding only some properties keeps the save", env.eq(out, wire))


# --------------------------------------------------------- C17 independence
def _build(env, q):
    b = B(env, Shape(q.get("shape")))
    if "rec" in q:
        want = R.RECORDS[q["rec"]][0](b, q["variant"])
    else:
        want = T.file(b, q["spec"] if "spec" in q else T.TREES[q["tree"]], q.get("header", "const"), q.get("trailer"))
    return want, b.wire()


class FillEnv(ConcEnv):
    """Builder only: every free value is drawn at random."""

    def __init__(self, seed):
        ConcEnv.__init__(self, {}, {})
        self.rng = random.Random(seed)

    def bits(self, k, hint=""):
        v = self.rng.getrandbits(k)
        return v & 0x7f if k == 8 and self.rng.random() < .7 else v


def filled(q, seed):
    """A concrete save of the kind that q describes."""
    for i in range(12):
        e = FillEnv(seed * 16 + i) if i < 11 else ConcEnv({}, {})
        try:
            w = _build(e, q)
            e.flush()
            return w
        except Stop:
            pass
    raise AssertionError("no such save")


def unhinted(n):
    return [{"spec": [["Unhinted%d" % i, ["map", ["st", "Guid"], "int", 1]], ["Also%d" % i, ["map", "int", ["st", [["A", "int"]]], 1]]]} for i in range(n)]


def scribble(t):
    """Overwrites every value in a tree."""
    for k in list(t) if isinstance(t, dict) else range(len(t)):
        if isinstance(t[k], (dict, list)):
            scribble(t[k])
        else:
            t[k] = None
    if isinstance(t, list):
        t.append(None)
    else:
        t["scribble"] = None


@harness
def again(env, p):
    """Repeating a step, and other conversions before or in between, change nothing.
    p: a, b (files), order."""
    G, hints, props = tools(env)
    wa, A = _build(env, p["a"])
    wb, Bw = _build(env, p["b"])
    env.observe("wire", A)
    o = p["order"]

    def rd(w):
        return env.call(G.read, w, hints, props)

    def js(g):
        return env.json(env.call(g.dump))

    def wr(j):
        return env.call(env.call(G.load, j).write, props)

    def run():
        res = []
        if o == "write twice":      # library use: read, write, write
            g = rd(A)
            res.append((env.call(g.write, props), A))
            res.append((env.call(g.write, props), A))
        elif o == "dump then write":
            g = rd(A)
            res.append((js(g), wa))
            res.append((js(g), wa))
            res.append((env.call(g.write, props), A))
        elif o == "load write twice":
            g = env.call(G.load, js(rd(A)))
            res.append((env.call(g.write, props), A))
            res.append((env.call(g.write, props), A))
        elif o == "interleaved":
            ga = rd(A)
            gb = rd(Bw)
            ja, jb = js(ga), js(gb)
            res.append((env.copy(ja), wa))
            res.append((env.copy(jb), wb))
            res.append((wr(jb), Bw))
            res.append((wr(ja), A))
        elif o == "sequence":
            res.append((wr(js(rd(Bw))), Bw))
            res.append((js(rd(A)), wa))
            res.append((wr(js(rd(A))), A))
            res.append((js(rd(Bw)), wb))
        elif o == "after failure":
            bad = Bw[:len(Bw) - p.get("cut", 12)]
            env.attempt(lambda: wr(js(rd(bad))))
            env.attempt(lambda: wr({"header": wa["header"], "properties": {"X": {"type": "Nope"}}, "trailer": ""}))
            res.append((js(rd(A)), wa))
            res.append((wr(js(rd(A))), A))
        elif o == "after bad edit":      # a value that cannot be written, somewhere in another save
            t = env.copy(wb)
            put(t, p["at"], p["bad"])
            env.attempt(wr, t)
            res.append((js(rd(A)), wa))
            res.append((wr(js(rd(A))), A))
        elif o == "after bad record":    # a record of another save that cannot be read
            st = {"seen": 0, "index": p["index"], "delta": p["delta"]}
            t = TB(env, Shape(p["b"].get("shape")), st)
            R.RECORDS[p["b"]["rec"]][0](t, p["b"]["variant"])
            bad = t.wire()
            env.attempt(lambda: wr(js(rd(bad))))
            res.append((js(rd(A)), wa))
            res.append((wr(js(rd(A))), A))
        elif o == "after many":
            for k, q in enumerate(p["many"]):
                w, x = filled(q, k)
                if q.get("cut"):
                    x = x[:len(x) - q["cut"]]
                env.attempt(lambda: wr(js(rd(x))))
            res.append((js(rd(A)), wa))
            res.append((wr(js(rd(A))), A))
        elif o == "after change":        # a program changes what it read, and does not write it
            g = rd(A)
            scribble(g.properties)
            res.append((js(rd(A)), wa))
            j = js(rd(A))
            scribble(j["properties"])
            res.append((wr(js(rd(A))), A))
        elif o == "nan mode":
            env.attempt(lambda: js(env.call(G.read, Bw, hints, props, allow_nan=False)))
            res.append((js(rd(A)), wa))
            res.append((wr(js(rd(A))), A))
        return res

    res, e = env.attempt(run)
    if e is not None:
        env.fail("a repeated or later conversion fails", e)
        return
    for i, (got, want) in enumerate(res):
        env.check("step %d of '%s' gives the same result as alone" % (i, o), env.eq(got, want))


# -------------------------------------------------------- C10 numbers in JSON
SKIP_LEAF = ("magic", "save_game_version", "custom_version_format", "v2")


def leaves(t, kind, path=(), out=None, skip=("rotator", "location")):
    """Paths of the numbers in a JSON tree, in document order."""
    if out is None:
        out = []
    if isinstance(t, dict):
        for k, v in t.items():
            if path == () and k != "properties" and k != "header":
                continue
            if k in SKIP_LEAF or k in skip:
                continue
            leaves(v, kind, path + (k,), out, skip)
    elif isinstance(t, (list, tuple)):
        for i, v in enumerate(t):
            leaves(v, kind, path + (i,), out, skip)
    elif isinstance(t, bool):
        pass
    elif kind == "int" and isinstance(t, int) or kind == "float" and isinstance(t, float):
        if path[0] == "properties" or kind == "int":
            out.append(path)
    return out


def put(t, path, v):
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v


def fetch(t, path):
    for k in path:
        t = t[k]
    return t


@harness
def wide(env, p):
    """Any integer put in place of one number: refused, or read back as written."""
    want, wire = _build(env, p)
    at = leaves(want, "int")[p["leaf"]]
    v = env.integer(p.get("bytes", 9), True, "wide")
    t = env.copy(want)
    put(t, at, v)
    G, hints, props = tools(env)
    g, e = env.attempt(lambda: env.call(env.call(G.load, env.copy(t)).write, props))
    env.observe("refused", e is not None)
    if e is not None:     # that values of the field's own range are accepted is C06 and C07
        env.check("refused", True)
        return
    j = to_json(env, g, "the edited save")
    if j is not None:
        env.check("the number reads back as written", env.eq(j, t))


@harness
def float_for_int(env, p):
    """Any double put in place of one integer: refused, or the same number is read back."""
    want, wire = _build(env, p)
    at = leaves(want, "int")[p["leaf"]]
    v = env.float_of(env.cells(8, "dbl"))
    env.assume(env.no(env.isnan(v)))
    t = env.copy(want)
    put(t, at, v)
    G, hints, props = tools(env)
    g, e = env.attempt(lambda: env.call(env.call(G.load, env.copy(t)).write, props))
    env.observe("refused", e is not None)
    if e is not None:
        env.check("refused", True)
        return
    j = to_json(env, g, "the edited save")
    if j is not None:
        x = fetch(j, at)
        env.check("the number reads back as the number written", env.call(lambda: x == v))
        put(t, at, x)
        env.check("and nothing else is touched", env.eq(j, t))


@harness
def wide_float(env, p):
    """Any double put in place of a single-precision number: refused, or the nearest float."""
    want, wire = _build(env, p)
    at = leaves(want, "float")[p["leaf"]]
    c = env.cells(8, "dbl")
    v = env.float_of(c)
    env.assume(env.no(env.isnan(v)))
    t = env.copy(want)
    put(t, at, v)
    G, hints, props = tools(env)
    g, e = env.attempt(lambda: env.call(env.call(G.load, env.copy(t)).write, props))
    env.observe("refused", e is not None)
    if e is not None:
        env.check("a finite number in range is accepted", env.any([v > 3.4028234663852886e38, v < -3.4028234663852886e38]))
        return
    put(t, at, env.round32(v))
    j = to_json(env, g, "the edited save")
    if j is not None:
        env.check("the number reads back as the nearest float", env.eq(j, t))


# ---------------------------------------------------------------- C11 nulls
@harness
def nan(env, p):
    """--convert-nan-to-null with one number that may be anything."""
    class NB(B):
        n = 0

        def sub(self):
            x = NB(self.env, self.sh)
            x.st = self.st
            return x

        def _f(self, k, h):
            cs = self._n(k, h)
            f = self.env.float_of(cs)
            i = self.st["i"]
            self.st["i"] += 1
            if i == p["leaf"]:
                self.st["cells"] = cs
                self.st["f"] = f
            else:
                self.env.later(self.env.isfinite(f))
            return f

        def f32(self, h="", nan=False):
            return self._f(4, h)

        def f64(self, h="", nan=False):
            return self._f(8, h)

    b = NB(env, Shape(p.get("shape")))
    b.st = {"i": 0}
    if "rec" in p:
        want = R.RECORDS[p["rec"]][0](b, p["variant"])
    else:
        want = T.file(b, T.TREES[p["tree"]], p.get("header", "const"), p.get("trailer"))
    wire = b.wire()
    env.observe("wire", wire)
    f = b.st["f"]
    at = where_is(want, f)
    if p.get("before"):     # the same save converted without the option first
        if to_json(env, wire, "a save with unusual numbers") is None:
            return
    j = to_json(env, wire, "a save with unusual numbers", allow_nan=False)
    if j is None:
        return
    finite = env.branch(env.isfinite(f))
    t = env.copy(want)
    if not finite:
        put(t, at, None)
    env.check("non-finite numbers become null and nothing else changes", env.eq(j, t))
    out = to_wire(env, j)
    if out is None:
        return
    env.observe("out", env.isfinite(f))
    if finite:
        env.check("finite numbers come back byte for byte", env.eq(out, wire))
        return
    env.check("the size is unchanged", len(out) == len(wire))
    if len(out) == len(wire):
        pos = p_pos(env, b, p)
        k = len(b.st["cells"])
        env.check("null is written as NaN", env.isnan(env.float_of(env.cells_of(out)[pos:pos + k])))
        env.check("nothing else changes", env.all([
            env.eq(out[:pos], wire[:pos]), env.eq(out[pos + k:], wire[pos + k:])]))


def where_is(t, x, path=()):
    if t is x:
        return path
    for k, v in (t.items() if isinstance(t, dict) else enumerate(t) if isinstance(t, (list, tuple)) else ()):
        r = where_is(v, x, path + (k,))
        if r is not None:
            return r
    return None


class Mark(int):
    pass


def p_pos(env, b, p):
    """Where the chosen number lies in the file: found by building once more with markers."""
    from symx.cenv import ConcEnv

    class M(ConcEnv):
        def assume(self, x):
            pass

    class MB(B):
        def sub(self):
            x = MB(self.env, self.sh)
            x.st = self.st
            return x

        def _f(self, k, h):
            i = self.st["i"]
            self.st["i"] += 1
            self.c += [Mark(0) if i == p["leaf"] else 0] * k
            return 0.5

        def f32(self, h="", nan=False):
            return self._f(4, h)

        def f64(self, h="", nan=False):
            return self._f(8, h)

    m = MB(M(p, {}), Shape(p.get("shape")))
    m.st = {"i": 0}
    if "rec" in p:
        R.RECORDS[p["rec"]][0](m, p["variant"])
    else:
        T.file(m, T.TREES[p["tree"]], p.get("header", "const"), p.get("trailer"))
    return next(i for i, x in enumerate(m.c) if type(x) is Mark)


from . import direct, cli  # noqa: register their harnesses


# harnesses on sound saves only: the real code must come to an end
ENDS = {"tree", "record", "subset", "nan", "edit", "resize", "bulk"}
