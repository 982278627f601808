"""Generic property trees described by JSON-able specs.

kinds: "int" "int64" "fixed" "float" "str" "name" "enum" "bool"
       ["struct", ST]               ST: "Vector" "DateTime" "Guid" "Quat" "LinearColor" or [[name, spec], ...]
       ["names", n] ["enums", n] ["guids", n] ["bytes", n]
       ["structs", ST, n(, element name)] array of structs
       ["map", K, V, n]             K, V: "name" "enum" "int" "bool" or ["st", ST]
ST may be ["any", ST, ST, ...]: the elements of an array or map take these forms in turn.
names: a string, or ["free", string shape(, names it may not be)] for a name of free characters.
"""
from .build import B, fstring, gvas, header_const, header_free

STRUCTS = ("Vector", "DateTime", "Guid", "Quat", "LinearColor")


def st_value(b, st):
    if st == "Vector":
        return b.vec()
    if st == "DateTime":
        return b.u64()
    if st == "Guid":
        return b.guid()
    if st == "Quat":
        return b.quat()
    if st == "LinearColor":
        return {"r": b.f32(), "g": b.f32(), "b": b.f32(), "a": b.f32()}
    if st and st[0] == "any":       # the elements differ, in turn
        turns = b.sh.__dict__.setdefault("turns", {})
        i = turns[str(st)] = turns.get(str(st), 0) + 1
        st = st[1 + (i - 1) % (len(st) - 1)]
    return props(b, st)


def st_name(st):
    return st if st in STRUCTS else "PalSomethingSaveData"


def entry(b, k):
    """Map key or value."""
    if k in ("name", "enum"):
        return b.fstr("mapstr")
    if k == "int":
        return b.i32()
    if k == "bool":
        return b.boolean()
    return st_value(b, k[1])


TYPE = {"name": "NameProperty", "enum": "EnumProperty", "int": "IntProperty", "bool": "BoolProperty"}


def tname(k):
    return TYPE[k] if isinstance(k, str) else "StructProperty"


def sname(k):
    """Struct type the tool works out for a map side: from its hints, else generic."""
    if isinstance(k, str):
        return None
    return "Guid" if k[1] == "Guid" else "StructProperty"


def prop(b, name, spec):
    k = spec if isinstance(spec, str) else spec[0]
    if k == "int":
        return b.p_int(name)
    if k == "int64":
        return b.p_int64(name)
    if k == "fixed":
        return b.p_fixed(name)
    if k == "float":
        return b.p_float(name)
    if k == "str":
        return b.p_str(name)
    if k == "name":
        return b.p_name(name)
    if k == "enum":
        return b.p_enum(name)
    if k == "bool":
        return b.p_bool(name)
    if k == "struct":
        return b.p_struct(name, st_name(spec[1]), lambda b: st_value(b, spec[1]))
    if k == "names":
        return b.p_array(name, "NameProperty", lambda b: b.fstr("elem"), h="arr", base=spec[1])
    if k == "enums":
        return b.p_array(name, "EnumProperty", lambda b: b.fstr("elem"), h="arr", base=spec[1])
    if k == "guids":
        return b.p_array(name, "Guid", lambda b: b.guid(), h="arr", base=spec[1])
    if k == "bytes":
        return b.p_rawbytes(name, spec[1])
    if k == "structs":
        return b.p_structs(name, spec[3] if len(spec) > 3 else name if isinstance(name, str) else "Elem", st_name(spec[1]),
                           lambda b: st_value(b, spec[1]), base=spec[2])
    if k == "map":
        return b.p_map(name, tname(spec[1]), tname(spec[2]), lambda b: entry(b, spec[1]), lambda b: entry(b, spec[2]),
                       sname(spec[1]), sname(spec[2]), base=spec[3])
    raise ValueError(spec)


def named(b, name):
    """(what the builder takes, the JSON key)"""
    if isinstance(name, str):
        return name, name
    t = b.sub()
    key = t.fstr("propname", name[1])
    if len(key) == 4:
        b.env.later(b.env.no(b.env.eq(key, "None")))
    for x in name[2] if len(name) > 2 else ():
        if len(x) == len(key):
            b.env.assume(b.env.no(b.env.eq(key, x)))
    return (t.c,), key


def props(b, items):
    out = []
    for name, spec in items:
        n, key = named(b, name)
        out.append((key, prop(b, n, spec)))
    b.end()
    return Pairs(out).build(b.env)


class Pairs:
    """Dict whose keys may be symbolic (assumed distinct)."""

    def __init__(self, items):
        self.items = items

    def build(self, env):
        keys = [k for k, _ in self.items]
        for i, a in enumerate(keys):
            for c in keys[:i]:
                if not (type(a) is str and type(c) is str) and len(a) == len(c):
                    env.assume(env.no(env.eq(a, c)))
        return env.dict(self.items)


def file(b, items, header="const", trailer=None):
    import base64
    h = header_free(b) if header == "free" else header_const(b)
    p = props(b, items)
    if trailer is None:
        b.const(bytes(4))
        t = "AAAAAA=="
    else:
        t = b.env.b64(b._n(trailer, "trailer"))
    return {"header": h, "properties": p, "trailer": t}


W = "worldSaveData"


def ws(*items):
    return [[W, ["struct", [list(i) for i in items]]]]


# Struct types of map keys and values at the places where the game uses maps (the documented
# default elsewhere: keys are GUIDs, values are property lists).
HINTS = {x: "StructProperty" for x in """
.worldSaveData.CharacterContainerSaveData.Key
.worldSaveData.CharacterSaveParameterMap.Key
.worldSaveData.CharacterSaveParameterMap.Value
.worldSaveData.FoliageGridSaveDataMap.Key
.worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value
.worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Key
.worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value
.worldSaveData.FoliageGridSaveDataMap.Value
.worldSaveData.ItemContainerSaveData.Key
.worldSaveData.MapObjectSaveData.MapObjectSaveData.ConcreteModel.ModuleMap.Value
.worldSaveData.MapObjectSaveData.MapObjectSaveData.Model.EffectMap.Value
.worldSaveData.MapObjectSpawnerInStageSaveData.Key
.worldSaveData.MapObjectSpawnerInStageSaveData.Value
.worldSaveData.MapObjectSpawnerInStageSaveData.Value.SpawnerDataMapByLevelObjectInstanceId.Value
.worldSaveData.MapObjectSpawnerInStageSaveData.Value.SpawnerDataMapByLevelObjectInstanceId.Value.ItemMap.Value
.worldSaveData.WorkSaveData.WorkSaveData.WorkAssignMap.Value
.worldSaveData.BaseCampSaveData.Value
.worldSaveData.BaseCampSaveData.Value.ModuleMap.Value
.worldSaveData.ItemContainerSaveData.Value
.worldSaveData.CharacterContainerSaveData.Value
.worldSaveData.GroupSaveDataMap.Value
.worldSaveData.EnemyCampSaveData.EnemyCampStatusMap.Value
.worldSaveData.DungeonSaveData.DungeonSaveData.MapObjectSaveData.MapObjectSaveData.Model.EffectMap.Value
.worldSaveData.DungeonSaveData.DungeonSaveData.MapObjectSaveData.MapObjectSaveData.ConcreteModel.ModuleMap.Value
""".split()}
HINTS.update({x: "Guid" for x in """
.worldSaveData.MapObjectSpawnerInStageSaveData.Value.SpawnerDataMapByLevelObjectInstanceId.Key
.worldSaveData.BaseCampSaveData.Key
.worldSaveData.GroupSaveDataMap.Key
""".split()})


def chain(comps, spec):
    """Nested structs down to a property at the path `comps`."""
    items = [[comps[-1], spec]]
    for c in reversed(comps[:-1]):
        items = [[c, ["struct", items]]]
    return items


def map_at(path, n=1):
    """A map at the path (a list of names), its sides being what the tool takes there."""
    p = "".join("." + (x if isinstance(x, str) else "?") for x in path)
    k = HINTS.get(p + ".Key", "Guid")
    v = HINTS.get(p + ".Value", "StructProperty")
    side = {"Guid": ["st", "Guid"], "StructProperty": ["st", [["In", "int"]]]}
    return chain(path, ["map", side[k], side[v], n])


FREE = ["free", ["a", 3]]
MIXED = ["any", [["X", "int"], ["Y", "bool"]], [["Y", "str"], ["X", "bool"]], [], [["Z", ["struct", "Vector"]], ["X", "name"]]]

# Trees for every property kind, alone and nested.
TREES = {k: [["Prop", k]] for k in ("int", "int64", "fixed", "float", "str", "name", "enum", "bool")}
TREES.update({"st_" + s: [["Prop", ["struct", s]]] for s in STRUCTS})
TREES.update({"sts_" + s: [["Prop", ["structs", s, 2]]] for s in STRUCTS})
TREES.update({
    "empty": [],
    "all_scalars": [[k, k] for k in ("int", "int64", "fixed", "float", "str", "name", "enum", "bool")],
    "names": [["Prop", ["names", 2]]], "enums": [["Prop", ["enums", 2]]], "guids": [["Prop", ["guids", 2]]],
    "bytes0": [["Prop", ["bytes", 0]]], "bytes1": [["Prop", ["bytes", 1]]], "bytes5": [["Prop", ["bytes", 5]]],
    "freename": [[FREE, "int"]], "freename4": [[["free", ["a", 4]], "bool"]], "freename_u": [[["free", ["u", 2]], "str"]],
    "two_free": [[FREE, "int"], [FREE, "str"], [["free", ["a", 2]], "name"]],
    "nested": [["A", ["struct", [["B", ["struct", [[FREE, ["struct", [["C", "str"], ["D", "bool"]]]], ["E", "int"]]]], ["F", "float"]]]]],
    "structs_props": [["Items", ["structs", [["X", "int"], ["Y", "str"], ["Z", ["names", 1]]], 2]]],
    "structs_nested": [["Items", ["structs", [["Sub", ["structs", [["V", ["struct", "Vector"]], [FREE, "enum"]], 1]], ["B", ["bytes", 3]]], 2]]],
    "structs_named": [["Items", ["structs", [["X", "int"]], 2, "Slot"]], ["Slots", ["structs", "Vector", 0, "Items"]]],
    "map_name_int": [["M", ["map", "name", "int", 2]]], "map_enum_bool": [["M", ["map", "enum", "bool", 2]]],
    "map_int_name": [["M", ["map", "int", "name", 2]]], "map_bool_enum": [["M", ["map", "bool", "enum", 2]]],
    "map_int_int": [["M", ["map", "int", "int", 3]]],
    "map_st_st": [["M", ["map", ["st", "Guid"], ["st", [["V", "str"], ["W", ["map", "name", "int", 1]]]], 2]]],
    "map_name_st": [["M", ["map", "name", ["st", [["V", "int64"], ["L", ["struct", "LinearColor"]]]], 1]]],
    "structs_mixed": [["Items", ["structs", MIXED, 4]]],
    "map_mixed": [["M", ["map", "int", ["st", MIXED], 4]]],
    "hint_spawner": ws(["MapObjectSpawnerInStageSaveData", ["map", ["st", [["Stage", "int"]]], ["st", [
        ["SpawnerDataMapByLevelObjectInstanceId", ["map", ["st", "Guid"], ["st", [
            ["ItemMap", ["map", "int", ["st", [["Id", ["struct", "Guid"]]]], 1]], ["N", "int"]]], 1]]]], 1]]),
    "hint_enemycamp": ws(["EnemyCampSaveData", ["struct", [["EnemyCampStatusMap", ["map", "name", ["st", [["S", "bool"]]], 1]]]]]),
    "hint_dungeon": ws(["DungeonSaveData", ["structs", [["MapObjectSaveData", ["structs", [
        ["Model", ["struct", [["EffectMap", ["map", "enum", ["st", [["R", ["bytes", 2]]]], 1]], ["RawData", ["bytes", 3]]]]],
        ["ConcreteModel", ["struct", [["ModuleMap", ["map", "enum", ["st", [["RawData", ["bytes", 2]]]], 1]]]]]], 1]]], 1]]),
    "hint_camp": ws(["BaseCampSaveData", ["map", ["st", "Guid"], ["st", [["Other", ["struct", "DateTime"]]]], 2]]),
    "player": [["Version", "int"], ["Timestamp", ["struct", "DateTime"]], ["SaveData", ["struct", [
        ["PlayerUId", ["struct", "Guid"]], ["LastTransform", ["struct", [["Rotation", ["struct", "Quat"]], ["Translation", ["struct", "Vector"]]]]],
        ["Color", ["struct", "LinearColor"]], ["bSet", "bool"],
        ["Rec", ["struct", [["Cnt", ["map", "name", "int", 2]], ["Flag", ["map", "name", "bool", 1]]]]]]]]],
})
