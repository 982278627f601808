"""Reference layout of Palworld's records and the JSON each must be shown as.

Frozen from the format as the pinned tree reads and writes it; nothing here is derived from
/repo at run time, so a change made to a reader and its writer together is still seen.
"""
import json
import os

from .build import B, world, gvas

W = ".worldSaveData"

with open(os.path.join(os.path.dirname(__file__), "mapnames.json")) as _f:
    MAP_NAMES = json.load(_f)


def custom(d, path):
    d = dict(d)
    d["custom_type"] = path
    return d


def k_guid(b):
    return b.guid("key")


def k_idstruct(b):
    return b.props([("ID", lambda b, n: b.p_struct(n, "Guid", lambda b: b.guid("key"), anyid=False))])


class Mix:
    """The kinds of the elements of a list in turn; a plain kind stands for every element."""

    def __init__(self, v):
        self.vs = v[4:].split("|") if v.startswith("mix:") else [v]
        self.mixed = len(self.vs) > 1
        self.n = len(self.vs) if self.mixed else None
        self.i = -1

    def next(self):
        self.i += 1
        return self.now()

    def now(self):
        return self.vs[self.i % len(self.vs)]


# ------------------------------------------------------------------ characters
def savepar(b):
    return b.props([("SaveParameter", lambda b, n: b.p_struct(n, "PalIndividualCharacterSaveParameter", lambda b: b.props([
        ("Level", lambda b, n: b.p_int(n)),
        ("NickName", lambda b, n: b.p_str(n)),
    ]), anyid=False))])


def character(b, v):
    path = W + ".CharacterSaveParameterMap.Value.RawData"

    def payload(b):
        return {"object": savepar(b), "unknown_bytes": b.raw(4), "group_id": b.guid()}

    return world(b, [("CharacterSaveParameterMap", lambda b, n: b.p_map(
        n, "StructProperty", "StructProperty",
        lambda b: b.props([("PlayerUId", lambda b, n: b.p_struct(n, "Guid", lambda b: b.guid("key"), anyid=False))]),
        lambda b: b.props([("RawData", lambda b, n: custom(b.p_bytes(n, payload), path))]),
        "StructProperty", "StructProperty"))])


# ----------------------------------------------------------------------- group
GROUP_TYPES = ["EPalGroupType::Guild", "EPalGroupType::IndependentGuild", "EPalGroupType::Organization",
               "EPalGroupType::Neutral"]


def handle(b):
    return {"guid": b.guid(), "instance_id": b.guid()}


def player_info(b):
    return {"last_online_real_time": b.i64(), "player_name": b.fstr("player_name")}


def group_payload(b, t):
    d = {"group_type": t, "group_id": b.guid(), "group_name": b.fstr("group_name"),
         "individual_character_handle_ids": b.array("handles", handle)}
    if t in GROUP_TYPES[:3]:
        d["org_type"] = b.u8()
        d["base_ids"] = b.array("base_ids", lambda b: b.guid())
    if t in GROUP_TYPES[:2]:
        d["base_camp_level"] = b.i32()
        d["map_object_instance_ids_base_camp_points"] = b.array("points", lambda b: b.guid())
        d["guild_name"] = b.fstr("guild_name")
    if t == GROUP_TYPES[1]:
        d["player_uid"] = b.guid()
        d["guild_name_2"] = b.fstr("guild_name_2")
        d["player_info"] = player_info(b)
    if t == GROUP_TYPES[0]:
        d["admin_player_uid"] = b.guid()
        d["players"] = b.array("players", lambda b: {"player_uid": b.guid(), "player_info": player_info(b)})
    return d


def group(b, t):
    path = W + ".GroupSaveDataMap"
    m = Mix(t)
    return world(b, [("GroupSaveDataMap", lambda b, n: custom(b.p_map(
        n, "StructProperty", "StructProperty", k_guid,
        lambda b: b.props([
            ("GroupType", lambda b, n: b.p_enum(n, "EPalGroupType", m.next())),
            ("RawData", lambda b, n: b.p_bytes(n, lambda b: group_payload(b, m.now()))),
        ]), "Guid", "StructProperty", base=m.n), path))])


# ------------------------------------------------------------------ containers
def permission(b):
    return {"type_a": b.array("type_a", lambda b: b.u8()), "type_b": b.array("type_b", lambda b: b.u8()),
            "item_static_ids": b.array("static_ids", lambda b: b.fstr("static_id"))}


def item_container(b, v):
    path = W + ".ItemContainerSaveData.Value.RawData"
    m = Mix(v)
    pay = lambda b: None if m.next() == "empty" else {"permission": permission(b)}
    return world(b, [("ItemContainerSaveData", lambda b, n: b.p_map(
        n, "StructProperty", "StructProperty", k_idstruct,
        lambda b: b.props([("RawData", lambda b, n: custom(b.p_bytes(n, pay), path))]),
        "StructProperty", "StructProperty", base=m.n))])


def slots(root, path, pay, count=None):
    return lambda b: world(b, [(root, lambda b, n: b.p_map(
        n, "StructProperty", "StructProperty", k_idstruct,
        lambda b: b.props([("Slots", lambda b, n: b.p_structs(n, "Slots", "PalSlotSaveData", lambda b: b.props([
            ("SlotIndex", lambda b, n: b.p_int(n)),
            ("RawData", lambda b, n: custom(b.p_bytes(n, pay), path)),
        ]), base=count))]), "StructProperty", "StructProperty"))])


def item_slots(b, v):
    path = W + ".ItemContainerSaveData.Value.Slots.Slots.RawData"
    m = Mix(v)
    pay = lambda b: None if m.next() == "empty" else {"permission": permission(b), "corruption_progress_value": b.f32()}
    return slots("ItemContainerSaveData", path, pay, m.n)(b)


def char_slots(b, v):
    path = W + ".CharacterContainerSaveData.Value.Slots.Slots.RawData"
    m = Mix(v)
    pay = lambda b: None if m.next() == "empty" else {
        "player_uid": b.guid(), "instance_id": b.guid(), "permission_tribe_id": b.u8()}
    return slots("CharacterContainerSaveData", path, pay, m.n)(b)


# ---------------------------------------------------------------- dynamic item
def normal_or_zero(b, f):
    """durability: zero or a normal float (denormals would read as tiny string lengths)."""
    env = b.env
    c = b.c[-4:]
    u = env.int_of(c)
    env.later(env.any([u == 0, env.int_of([c[2] if type(c[2]) is int else c[2]]) >= 0x80,
                       env.no(env.eq(env.int_of([c[3]]) & 0x7F, 0))]))
    return f


def dyn_payload(b, v):
    if v == "empty":
        return None
    d = {"id": {"created_world_id": b.guid(), "local_id_in_created_world": b.guid(), "static_id": b.fstr("static_id")}}
    if v == "armor":
        d["type"] = "armor"
        d["durability"] = b.f32()
    elif v == "weapon":
        d["type"] = "weapon"
        d["durability"] = normal_or_zero(b, b.f32())
        d["remaining_bullets"] = b.i32()
        b.env.later(d["remaining_bullets"] >= 64)
        d["passive_skill_list"] = b.array("skills", lambda b: b.fstr("skill"))
    elif v == "egg":
        d["type"] = "egg"
        d["character_id"] = b.fstr("character_id")
        d["object"] = savepar(b)
        d["unknown_bytes"] = b.raw(4)
        d["unknown_id"] = b.guid()
    else:
        d["type"] = "unknown"
        d["trailer"] = b.raw(int(v[4:]))
    return d


def dynamic_item(b, v):
    path = W + ".DynamicItemSaveData.DynamicItemSaveData.RawData"
    m = Mix(v)
    return world(b, [("DynamicItemSaveData", lambda b, n: b.p_structs(
        n, "DynamicItemSaveData", "PalDynamicItemSaveData", lambda b: b.props([
            ("RawData", lambda b, n: custom(b.p_bytes(n, lambda b: dyn_payload(b, m.next())), path))]), base=m.n))])


# ------------------------------------------------------------------- base camp
def item_and_num(b):
    return {"item_id": {"static_id": b.fstr("static_id"), "dynamic_id": {
        "created_world_id": b.guid(), "local_id_in_created_world": b.guid()}}, "num": b.u32()}


def camp(items):
    return lambda b: world(b, [("BaseCampSaveData", lambda b, n: b.p_map(
        n, "StructProperty", "StructProperty", k_guid, lambda b: b.props(items), "Guid", "StructProperty"))])


def base_camp(b, v):
    path = W + ".BaseCampSaveData.Value.RawData"

    def pay(b):
        return {"id": b.guid(), "name": b.fstr("name"), "state": b.u8(), "transform": b.transform(),
                "area_range": b.f32(), "group_id_belong_to": b.guid(), "fast_travel_local_transform": b.transform(),
                "owner_map_object_instance_id": b.guid()}

    return camp([("RawData", lambda b, n: custom(b.p_bytes(n, pay), path))])(b)


def worker_director(b, v):
    path = W + ".BaseCampSaveData.Value.WorkerDirector.RawData"

    def pay(b):
        return {"id": b.guid(), "spawn_transform": b.transform(), "current_order_type": b.u8(),
                "current_battle_type": b.u8(), "container_id": b.guid()}

    return camp([("WorkerDirector", lambda b, n: b.p_struct(n, "PalWorkerDirector", lambda b: b.props([
        ("RawData", lambda b, n: custom(b.p_bytes(n, pay), path))])))])(b)


def work_collection(b, v):
    path = W + ".BaseCampSaveData.Value.WorkCollection.RawData"

    def pay(b):
        return {"id": b.guid(), "work_ids": b.array("work_ids", lambda b: b.guid())}

    return camp([("WorkCollection", lambda b, n: b.p_struct(n, "PalWorkCollection", lambda b: b.props([
        ("RawData", lambda b, n: custom(b.p_bytes(n, pay), path))])))])(b)


M = "EPalBaseCampModuleType::"
MODULE_NOOP = [M + x for x in ("Energy", "Medical", "ResourceCollector", "ItemStorages", "FacilityReservation",
                               "ObjectMaintenance")]


def module_payload(b, v):
    kind, _, arg = v.partition("/")
    if kind == "noop":
        return {}
    if kind == "transport":
        return {"transport_item_character_infos": b.array("infos", lambda b: {
            "item_infos": b.array("item_infos", item_and_num), "character_location": b.vec()})}
    if kind == "passive":
        def eff(b):
            d = {"type": int(arg)}
            b.cint(int(arg), 1)
            if arg == "2":
                d["work_hard_type"] = b.u8()
                d["unknown_trailer"] = b.raw(4)
            return d
        return {"passive_effects": b.array("effects", eff)}
    if kind in ("raw", "extra"):
        return {"values": b.raw(int(arg.split("/")[-1]))}
    if kind == "odd":       # an effect of a type that has no layout
        b.cint(1, 4)
        t = b.u8("effect")
        b.env.later(t > 2)
        return {"values": [1, 0, 0, 0, t] + b.raw(int(arg.split("/")[-1]))}
    raise ValueError(v)


def module_key(v):
    kind, _, arg = v.partition("/")
    if kind == "noop":
        return M + arg
    if kind == "transport":
        return M + "TransportItemDirector"
    if kind == "passive":
        return M + "PassiveEffect"
    return M + arg.split("/")[0]


def base_camp_module(b, v):
    path = W + ".BaseCampSaveData.Value.ModuleMap"
    m = Mix(v)
    return camp([("ModuleMap", lambda b, n: custom(b.p_map(
        n, "EnumProperty", "StructProperty", lambda b: b.cstr(module_key(m.next())),
        lambda b: b.props([("RawData", lambda b, n: b.p_bytes(n, lambda b: module_payload(b, m.now())))]),
        None, "StructProperty", h="modules", base=m.n), path))])(b)


# ------------------------------------------------------------------------ work
K = "EPalWorkableType::"
WORK_BASE = ["Progress", "TransportItemInBaseCamp", "ReviveCharacter", "LevelObject", "Repair", "Defense", "BootUp",
             "OnlyJoin", "OnlyJoinAndWalkAround", "RemoveMapObjectEffect", "MonsterFarm"]


def work_transform(b, tt):
    if tt == -1:        # as written by versions that read the fields in the wrong order
        b.cint(1, 1)
        return {"type": 1, "location": b.vec(), "rotation": b.quat(), "scale": b.vec()}
    if tt == -2:        # any type that has no layout
        t = b.u8("transform_type")
        b.env.later(b.env.any([t < 1, t > 3]))
        return {"type": t, "v2": 0, "raw_data": b.raw(b.sh.get("n", "transform_raw", 2))}
    d = {"type": tt, "v2": 0}
    b.cint(tt, 1)
    if tt == 1:
        d.update(b.transform())
    elif tt == 2:
        d["map_object_instance_id"] = b.guid()
    elif tt == 3:
        d["guid"] = b.guid()
        d["instance_id"] = b.guid()
    else:
        d["raw_data"] = b.raw(b.sh.get("n", "transform_raw", 2))
    return d


def individual(b):
    return {"player_uid": b.guid(), "instance_id": b.guid()}


def work_payload(b, wt, tt):
    if wt == "raw":
        return {"values": b.raw(5)}
    d = {}
    if wt in WORK_BASE:
        d["id"] = b.guid()
        d["workable_bounds"] = {"location": b.vec(), "rotation": b.quat(), "box_sphere_bounds": {
            "origin": b.vec(), "box_extent": b.vec(), "sphere_radius": b.f64()}}
        d["base_camp_id_belong_to"] = b.guid()
        d["owner_map_object_model_id"] = b.guid()
        d["owner_map_object_concrete_model_id"] = b.guid()
        d["current_state"] = b.u8()
        d["assign_locations"] = b.array("assign_locations", lambda b: {"location": b.vec(), "facing_direction": b.vec()})
        d["behaviour_type"] = b.u8()
        d["assign_define_data_id"] = b.fstr("assign_define_data_id")
        d["override_work_type"] = b.u8()
        d["assignable_fixed_type"] = b.u8()
        d["assignable_otomo"] = b.bool32()
        d["can_trigger_worker_event"] = b.bool32()
        d["can_steal_assign"] = b.bool32()
        if wt == "Defense":
            d["defense_combat_type"] = b.u8()
        elif wt == "Progress":
            d["required_work_amount"] = b.f32()
            d["work_exp"] = b.i32()
            d["current_work_amount"] = b.f32()
            d["auto_work_self_amount_by_sec"] = b.f32()
        elif wt == "ReviveCharacter":
            d["target_individual_id"] = individual(b)
    else:
        d["handle_id"] = b.guid()
        d["location_index"] = b.i32()
        d["assign_type"] = b.u8()
        d["assigned_individual_id"] = individual(b)
        d["state"] = b.u8()
        d["fixed"] = b.u32()
    d["transform"] = work_transform(b, tt)
    return d


def work_assign(b):
    return {"id": b.guid(), "location_index": b.i32(), "assign_type": b.u8(), "assigned_individual_id": individual(b),
            "state": b.u8(), "fixed": b.bool32()}


def work(b, v):
    """v: '<WorkableType>/<transform type>' or 'raw:<WorkableType>/0'."""
    m = Mix(v)
    path = W + ".WorkSaveData"

    def pay(b):
        name, tt = m.next().split("/")
        return work_payload(b, "raw" if name.startswith("raw:") else name, int(tt))

    return world(b, [("WorkSaveData", lambda b, n: custom(b.p_structs(n, "WorkSaveData", "PalWorkSaveData", lambda b: b.props([
        ("RawData", lambda b, n: b.p_bytes(n, pay)),
        ("WorkableType", lambda b, n: b.p_enum(n, "EPalWorkableType", K + m.now().split("/")[0].replace("raw:", ""))),
        ("WorkAssignMap", lambda b, n: b.p_map(n, "IntProperty", "StructProperty", lambda b: b.i32("key"), lambda b: b.props([
            ("RawData", lambda b, n: b.p_bytes(n, work_assign))]), None, "StructProperty", h="assign")),
    ]), base=m.n), path))])


# ------------------------------------------------------------------ map object
def map_model(b):
    return {"instance_id": b.guid(), "concrete_model_instance_id": b.guid(), "base_camp_id_belong_to": b.guid(),
            "group_id_belong_to": b.guid(), "hp": {"current": b.i32(), "max": b.i32()},
            "initital_transform_cache": b.transform(), "repair_work_id": b.guid(),
            "owner_spawner_level_object_instance_id": b.guid(), "owner_instance_id": b.guid(),
            "build_player_uid": b.guid(), "interact_restrict_type": b.u8(),
            "stage_instance_id_belong_to": {"id": b.guid(), "valid": b.bool32()}, "created_at": b.i64()}


def connect_item(b):
    return {"connect_to_model_instance_id": b.guid(), "index": b.u8()}


def connector(b, v):
    if v == "none":
        return {"values": []}
    d = {"supported_level": b.i32(), "connect": {"index": b.u8(), "any_place": b.array("any_place", connect_item)}}
    k = int(v)
    if k:
        d["other_connectors"] = [{"index": b.u8(), "connect": b.array("other%d" % i, connect_item)} for i in range(k)]
    return d


def dyn_id(b):
    return {"created_world_id": b.guid(), "local_id_in_created_world": b.guid()}


def concrete(b, cls):
    d = {"instance_id": b.guid(), "model_instance_id": b.guid(), "concrete_model_type": cls}
    c = cls.replace("PalMapObject", "")
    if c == "DeathDroppedCharacterModel":
        d["stored_parameter_id"] = b.guid()
        d["owner_player_uid"] = b.guid()
    elif c == "ConvertItemModel":
        d["current_recipe_id"] = b.fstr("recipe")
        d["remain_product_num"] = b.i32()
        d["requested_product_num"] = b.i32()
        d["work_speed_additional_rate"] = b.f32()
    elif c == "PickupItemOnLevelModel":
        d["auto_picked_up"] = b.bool32()
    elif c == "DropItemModel":
        d["auto_picked_up"] = b.bool32()
        d["item_id"] = {"static_id": b.fstr("static_id"), "dynamic_id": dyn_id(b)}
    elif c == "ItemDropOnDamagModel":
        d["drop_item_infos"] = b.array("drops", item_and_num)
    elif c == "DeathPenaltyStorageModel":
        d["owner_player_uid"] = b.guid()
    elif c == "DefenseBulletLauncherModel":
        d["remaining_bullets"] = b.i32()
        d["magazine_size"] = b.i32()
        d["bullet_item_name"] = b.fstr("bullet")
    elif c == "GenerateEnergyModel":
        d["stored_energy_amount"] = b.f32()
    elif c == "FarmBlockV2Model":
        d["crop_data_id"] = b.fstr("crop")
        d["current_state"] = b.u8()
        d["crop_progress_rate_value"] = b.f32()
        d["water_stack_rate_value"] = b.f32()
        if b.sh.get("o", "state_machine"):
            d["state_machine"] = {"growup_required_time": b.f32(), "growup_progress_time": b.f32()}
    elif c == "FastTravelPointModel":
        d["location_instance_id"] = b.guid()
    elif c == "ShippingItemModel":
        d["shipping_hours"] = b.array("hours", lambda b: b.i32())
    elif c == "ProductItemModel":
        d["work_speed_additional_rate"] = b.f32()
        d["product_item_id"] = b.fstr("product")
    elif c == "RecoverOtomoModel":
        d["recover_amount_by_sec"] = b.f32()
    elif c == "HatchingEggModel":
        d["hatched_character_save_parameter"] = savepar(b)
        d["unknown_bytes"] = b.u32()
        d["hatched_character_guid"] = b.guid()
    elif c == "TreasureBoxModel":
        d["treasure_grade_type"] = b.u8()
    elif c == "BreedFarmModel":
        d["spawned_egg_instance_ids"] = b.array("eggs", lambda b: b.guid())
    elif c == "SignboardModel":
        d["signboard_text"] = b.fstr("signboard")
    elif c == "TorchModel":
        d["extinction_date_time"] = b.i64()
    elif c == "PalEggModel":
        d["unknown_bytes"] = b.u32()
    elif c == "BaseCampPoint":
        d["base_camp_id"] = b.guid()
    elif cls not in CONCRETE_NOOP:
        raise ValueError(cls)
    return d


CONCRETE_NOOP = ["Default_PalMapObjectConcreteModelBase", "PalBuildObject", "PalMapObjectRankUpCharacterModel",
                 "PalMapObjectDefenseWaitModel", "PalMapObjectItemChestModel", "PalMapObjectMedicalPalBedModel",
                 "PalMapObjectPalFoodBoxModel", "PalMapObjectPlayerBedModel", "PalMapObjectDisplayCharacterModel",
                 "PalMapObjectDoorModel", "PalMapObjectCharacterStatusOperatorModel", "PalMapObjectAmusementModel",
                 "PalMapObjectRepairItemModel", "PalMapObjectBaseCampPassiveEffectModel",
                 "PalMapObjectBaseCampPassiveWorkHardModel", "PalMapObjectItemChest_AffectCorruption",
                 "PalMapObjectDamagedScarecrowModel", "PalMapObjectBaseCampWorkerDirectorModel",
                 "PalMapObjectMonsterFarmModel", "PalMapObjectLampModel", "PalMapObjectHeatSourceModel"]
CM = "EPalMapObjectConcreteModelModuleType::"


def cmodule(b, t):
    if t.startswith("-"):      # a module without data
        return {"values": []}
    if t == "ItemContainer":
        return {"target_container_id": b.guid(), "slot_attribute_indexes": b.array("slot_attr", lambda b: {
            "attribute": b.u8(), "indexes": b.array("indexes", lambda b: b.i32())}),
            "all_slot_attribute": b.array("all_slot", lambda b: b.u8()), "drop_item_at_disposed": b.bool32(),
            "usage_type": b.u8()}
    if t == "CharacterContainer":
        return {"target_container_id": b.guid()}
    if t == "Workee":
        return {"target_work_id": b.guid()}
    if t == "Switch":
        return {"switch_state": b.u8()}
    if t == "PasswordLock":
        return {"lock_state": b.u8(), "password": b.fstr("password"), "player_infos": b.array("player_infos", lambda b: {
            "player_uid": b.guid(), "try_failed_count": b.i32(), "try_success_cache": b.bool32()})}
    return {"values": []}


CMODULES = ["ItemContainer", "CharacterContainer", "Workee", "Energy", "StatusObserver", "ItemStack", "Switch",
            "PlayerRecord", "BaseCampPassiveEffect", "PasswordLock"]


def mixed_case(b, name):
    """The name with every letter's case free."""
    env = b.env
    out = []
    for ch in name:
        o = ord(ch)
        if ch.isascii() and ch.islower():
            low = env.bits(1, "case")
            out.append((o, low))
        else:
            out.append((o, None))
    cells = []
    for o, bit in out:
        cells.append(o if bit is None else o - 32 * bit if type(bit) is int else o - (bit << 5))
    return cells


def _same_letter(env, cell, ch):
    c = env.int_of([cell])
    if ch.isalpha():
        return env.any([c == ord(ch.lower()), c == ord(ch.upper())])
    return c == ord(ch)


def map_element(b, name, conn, mods, conc, full=True):
    """name: concrete id, or cells."""
    def objid(b, n):
        if isinstance(name, str):
            return b.p_conststr(n, name)
        b.head(n, "NameProperty", len(name) + 5)
        i = b.opt_guid()
        b.cint(len(name) + 1, 4)
        b.c += name + [0]
        return {"id": i, "value": b.env.str_of([b.env.chr_of(x) for x in name]), "type": "NameProperty"}

    m = Mix(mods)
    return b.props([
        ("MapObjectId", objid),
        ("Model", lambda b, n: b.p_struct(n, "PalMapObjectModelSaveData", lambda b: b.props([
            ("RawData", lambda b, n: b.p_bytes(n, map_model)),
            ("Connector", lambda b, n: b.p_struct(n, "PalConnector", lambda b: b.props([
                ("RawData", lambda b, n: b.p_bytes(n, lambda b: connector(b, conn)))]), anyid=False)),
            ("BuildProcess", lambda b, n: b.p_struct(n, "PalBuildProcess", lambda b: b.props([
                ("RawData", lambda b, n: b.p_bytes(n, lambda b: {"state": b.u8(), "id": b.guid()}))]), anyid=False)),
        ]), anyid=False)),
        ("ConcreteModel", lambda b, n: b.p_struct(n, "PalConcreteModel", lambda b: b.props([
            ("RawData", lambda b, n: b.p_bytes(n, conc)),
            ("ModuleMap", lambda b, n: b.p_map(n, "EnumProperty", "StructProperty", lambda b: b.cstr(CM + m.next().strip("-")),
                                               lambda b: b.props([("RawData", lambda b, n: b.p_bytes(n, lambda b: cmodule(b, m.now())))]),
                                               None, "StructProperty", h="cmodules", base=m.n)),
        ]), anyid=False)),
    ])


def map_object(b, v):
    """v: 'class/<cls>' | 'conn/<n>' | 'mod/<type>' | 'unknown/<n>' | 'names/<i>'."""
    kind, _, arg = v.partition("/")
    name, cls, conn, mods = "ItemChest", "PalMapObjectItemChestModel", "none", "Energy"
    conc = None
    if kind == "class":
        cls = arg
        name = CLASS_SAMPLE[cls]
    elif kind == "conn":
        conn = arg
    elif kind == "mod":
        mods = arg
    elif kind == "unknown":
        name = "Unknown_Object_X"
        conc = lambda b: {"values": b.raw(int(arg))}
    elif kind == "emptyc":
        conc = lambda b: {"values": []}
    elif kind == "stranger":    # any ASCII name that is not in the tool's table
        n, raw = (int(x) for x in arg.split("."))
        name = [b.env.bits(7, "name") for _ in range(n)]
        conc = lambda b: {"values": b.raw(raw)}
        for nm in sorted(MAP_NAMES):
            if len(nm) == n:
                b.env.assume(b.env.no(b.env.all([_same_letter(b.env, c, ch) for c, ch in zip(name, nm)])))
    path = W + ".MapObjectSaveData"
    if v.startswith("mix:"):
        m = Mix(v)

        def one(b):
            name, conn, mods = m.next().split(",")
            empty = name.startswith("-")
            name = name.strip("-")
            cls = MAP_NAMES.get(name.lower())
            return map_element(b, name, conn, "mix:" + mods.replace("+", "|"), (lambda b: {"values": []}) if empty else (
                lambda b: concrete(b, cls)) if cls else (lambda b: {"values": b.raw(3)}))
        return world(b, [("MapObjectSaveData", lambda b, n: custom(
            b.p_structs(n, "MapObjectSaveData", "PalMapObjectSaveData", one, base=m.n), path))])
    if kind == "names":
        names = sorted(MAP_NAMES)[int(arg) * 8:int(arg) * 8 + 8]
        it = iter(names)

        def el(b):
            nm = next(it)
            c = MAP_NAMES[nm]
            return map_element(b, mixed_case(b, nm), "none", "Energy", (lambda b: concrete(b, c)) if known(c) else (
                lambda b: {"values": b.raw(2)}))
        return world(b, [("MapObjectSaveData", lambda b, n: custom(
            b.p_structs(n, "MapObjectSaveData", "PalMapObjectSaveData", el, n=len(names)), path))])
    conc = conc or (lambda b: concrete(b, cls))
    return world(b, [("MapObjectSaveData", lambda b, n: custom(b.p_structs(
        n, "MapObjectSaveData", "PalMapObjectSaveData", lambda b: map_element(b, name, conn, mods, conc)), path))])


def known(cls):
    try:
        class _E:
            pass
        concrete(_Null(), cls)
        return True
    except ValueError:
        return False


class _Null:
    def __getattr__(self, n):
        return lambda *a, **k: 0

    class sh:
        @staticmethod
        def get(*a):
            return 0

    def props(self, *a):
        return 0

    def array(self, *a):
        return 0


CLASS_SAMPLE = {}
for _n in sorted(MAP_NAMES):
    CLASS_SAMPLE.setdefault(MAP_NAMES[_n], _n)
CLASSES = sorted(c for c in CLASS_SAMPLE if known(c))
STRANGERS = [1, 2, 3, 4, 5, 6, 7, 9, 11, 14, 20, 24, 27, 38, 39]     # name lengths tried
N_NAME_CHUNKS = (len(MAP_NAMES) + 7) // 8


# --------------------------------------------------------------------- foliage
def foliage(items):
    return lambda b: world(b, [("FoliageGridSaveDataMap", lambda b, n: b.p_map(
        n, "StructProperty", "StructProperty",
        lambda b: b.props([("X", lambda b, n: b.p_int(n))]),
        lambda b: b.props([("ModelMap", lambda b, n: b.p_map(n, "NameProperty", "StructProperty", lambda b: b.fstr("model"),
                                                             lambda b: b.props(items), None, "StructProperty", h="models"))]),
        "StructProperty", "StructProperty"))])


def foliage_model(b, v):
    path = W + ".FoliageGridSaveDataMap.Value.ModelMap.Value.RawData"

    def pay(b):
        return {"model_id": b.fstr("model_id"), "foliage_preset_type": b.u8(),
                "cell_coord": {"x": b.i64(), "y": b.i64(), "z": b.i64()}}

    return foliage([("RawData", lambda b, n: custom(b.p_bytes(n, pay), path))])(b)


def angle(b, h):
    """Compressed short angle: flag, then a non-zero u16 if set; value in degrees."""
    if b.sh.get("o", h, 1 if h == "yaw" else 0):
        b.c.append(1)
        v = b.u16(h)
        b.env.later(v != 0)
        return (v + getattr(b.sh, "turn", 0) * 65536) * (360.0 / 65536.0)
    b.c.append(0)
    return getattr(b.sh, "turn", 0) * 360.0


def packed(b, v):
    """Packed vector as the engine writes it: minimal bit count, sign-extended to whole bytes."""
    env = b.env
    kind, _, arg = v.partition("/")
    if kind == "d":      # full doubles: some component of magnitude >= 2**62
        b.cint(64, 4)
        x, y, z = b.f64(), b.f64(), b.f64()
        big = float(1 << 62)
        env.later(env.any([env.any([f >= big, f <= -big]) for f in (x, y, z)]))
        return {"x": x, "y": y, "z": z}
    n = int(arg)
    nb = (n + 7) // 8
    b.cint((64 if kind == "f" else 0) | n, 4)
    vals = []
    for _ in range(3):
        c = env.cells(nb, "pv")
        b.c += c
        vals.append(env.int_of(c, True))
    hi = (1 << (n - 1)) - 1
    lo = -(1 << (n - 1))
    for x in vals:
        env.later(x >= lo)
        env.later(x <= hi)
    if n > 1:
        env.later(env.any([env.any([x > (hi >> 1), x < -(1 << (n - 2))]) for x in vals]))
    small = env.any([env.all([x < (1 << 52), x > -(1 << 52)]) for x in vals]) if n >= 53 else True
    if kind == "f":
        env.later(small)
        if n > 54:
            env.later(env.all([x == 0 for x in vals]))  # not reachable: outside the bound
        return {k: x * 1.0 for k, x in zip("xyz", vals)}
    env.later(env.no(small))
    for x in vals:
        env.later(x < (1 << 62))
        env.later(x > -(1 << 62))
    return dict(zip("xyz", vals))


def foliage_instance(b, v):
    path = W + ".FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData"

    def pay(b):
        d = {"model_instance_id": b.guid()}
        p, y, r = angle(b, "pitch"), angle(b, "yaw"), angle(b, "roll")
        loc = packed(b, v)
        d["world_transform"] = {"rotator": {"pitch": p, "yaw": y, "roll": r}, "location": loc, "scale_x": b.f32()}
        d["hp"] = b.i32()
        return d

    return foliage([("InstanceDataMap", lambda b, n: b.p_map(
        n, "StructProperty", "StructProperty", lambda b: b.props([("Guid", lambda b, n: b.p_struct(n, "Guid", lambda b: b.guid("key"), anyid=False))]),
        lambda b: b.props([("RawData", lambda b, n: custom(b.p_bytes(n, pay), path))]), "StructProperty", "StructProperty",
        h="instances"))])(b)


KINDS = set(GROUP_TYPES) | set(MODULE_NOOP) | {M + "TransportItemDirector", M + "PassiveEffect"} | {
    K + x for x in WORK_BASE + ["Assign", "Illegal", "CollectItem"]} | {CM + x for x in CMODULES}


# lists whose elements differ in kind: each kind before and after each other
MIXES = {
    "group": ["mix:" + "|".join(GROUP_TYPES + GROUP_TYPES[::-1])],
    "item_container": ["mix:empty|full|empty|full"],
    "item_slots": ["mix:empty|full|empty|full"],
    "char_slots": ["mix:empty|full|empty|full"],
    "dynamic_item": ["mix:empty|armor|weapon", "mix:weapon|egg|raw/3|armor", "mix:raw/1|egg|armor|empty|egg"],
    "base_camp_module": ["mix:raw/SomethingNew/3|transport|passive/2|raw/Other/0|noop/Energy|transport", "mix:noop/Medical|passive/1|noop/Energy|raw/New/1|passive/0",
                         "mix:extra/Medical/3|noop/Energy|transport|odd/PassiveEffect/5|passive/2", "mix:transport|extra/TransportItemDirector/3|transport"],
    "work": ["mix:raw:Illegal/0|Assign/3|raw:CollectItem/0|Assign/1", "mix:Progress/1|Progress/4|ReviveCharacter/2|raw:Illegal/0|LevelObject/3", "mix:Assign/4|Repair/2|Assign/1|Defense/3"],
    "map_object": ["mix:ItemChest,none,-Switch+Switch+-Energy+PasswordLock", "mix:ItemChest,none,ItemContainer+-Workee+Workee+-ItemContainer+Switch",
                   "mix:Unknown_X,none,-Energy|ItemChest,2,Energy+Switch|-ItemChest,none,Switch+-SomethingNew+Switch|PalEgg,none,Workee|Unknown_Y,4,Switch",
                   "mix:-PalEgg,0,Energy|Torch,none,Switch|FarmBlockV2_Grade01,2,Workee|-ItemChest,none,-Switch|Unknown_X,none,Switch|SignBoard,none,Energy"],
}


def mix_recs(recs):
    return [{"rec": r, "variant": v} for r in recs for v in MIXES.get(r, [])]


RECORDS = {
    "character": (character, ["-"]),
    "group": (group, GROUP_TYPES),
    "item_container": (item_container, ["full", "empty"]),
    "item_slots": (item_slots, ["full", "empty"]),
    "char_slots": (char_slots, ["full", "empty"]),
    "dynamic_item": (dynamic_item, ["armor", "weapon", "egg", "empty", "raw/0", "raw/1", "raw/2", "raw/3", "raw/5", "raw/9"]),
    "base_camp": (base_camp, ["-"]),
    "worker_director": (worker_director, ["-"]),
    "work_collection": (work_collection, ["-"]),
    "base_camp_module": (base_camp_module, ["noop/" + m.split("::")[1] for m in MODULE_NOOP] + [
        "transport", "passive/0", "passive/1", "passive/2", "raw/SomethingNew/3", "raw/SomethingNew/0", "extra/Medical/3", "extra/TransportItemDirector/0",
        "extra/TransportItemDirector/3", "extra/PassiveEffect/0", "extra/PassiveEffect/2", "odd/PassiveEffect/0", "odd/PassiveEffect/5"]),
    "work": (work, ["%s/2" % w for w in WORK_BASE] + ["Progress/1", "Progress/3", "Progress/0", "Progress/4", "Progress/200", "Progress/-2",
                                                   "Assign/1", "Assign/2", "Assign/3", "raw:Illegal/0", "raw:CollectItem/0"]),
    "map_object": (map_object, ["class/" + c for c in CLASSES] + ["conn/%d" % i for i in (0, 1, 2, 4)] + [
        "mod/" + m for m in CMODULES] + ["mod/-" + m for m in CMODULES] + ["mod/-SomethingNew"] + ["unknown/0", "unknown/5", "emptyc/"] + ["stranger/%d.3" % n for n in STRANGERS]),
    "foliage_model": (foliage_model, ["-"]),
    "foliage_instance": (foliage_instance, ["f/%d" % i for i in (1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 32, 33, 48, 53)] + [
        "i/53", "i/54", "i/56", "i/60", "i/62", "d"]),
}
DOMAIN = {
    "C02": ["character", "group", "item_container", "item_slots", "char_slots", "dynamic_item"],
    "C03": ["base_camp", "worker_director", "work_collection", "base_camp_module", "work"],
    "C04": ["map_object", "foliage_model", "foliage_instance"],
}
PATHS = {
    "character": [W + ".CharacterSaveParameterMap.Value.RawData"],
    "group": [W + ".GroupSaveDataMap"],
    "item_container": [W + ".ItemContainerSaveData.Value.RawData"],
    "item_slots": [W + ".ItemContainerSaveData.Value.Slots.Slots.RawData"],
    "char_slots": [W + ".CharacterContainerSaveData.Value.Slots.Slots.RawData"],
    "dynamic_item": [W + ".DynamicItemSaveData.DynamicItemSaveData.RawData"],
    "base_camp": [W + ".BaseCampSaveData.Value.RawData"],
    "worker_director": [W + ".BaseCampSaveData.Value.WorkerDirector.RawData"],
    "work_collection": [W + ".BaseCampSaveData.Value.WorkCollection.RawData"],
    "base_camp_module": [W + ".BaseCampSaveData.Value.ModuleMap"],
    "work": [W + ".WorkSaveData"],
    "map_object": [W + ".MapObjectSaveData"],
    "foliage_model": [W + ".FoliageGridSaveDataMap.Value.ModelMap.Value.RawData"],
    "foliage_instance": [W + ".FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData"],
}
