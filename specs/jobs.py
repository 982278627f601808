"""Which harness runs, on which shapes, decide each property."""
import ast
import json
import os
import random

from symx.cenv import ConcEnv
from .build import B, Shape
from . import records as R
from . import tree as T
from . import harness as H

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "palworld_save_tools")

ALTS = [["e", 0], ["a", 1], ["a", 3], ["b", 1], ["b", 2], ["L", 300], ["a", 7], ["T", 300]]
MODULE = {"character": "character", "group": "group", "item_container": "item_container",
          "item_slots": "item_container_slots", "char_slots": "character_container", "dynamic_item": "dynamic_item",
          "base_camp": "base_camp", "worker_director": "worker_director", "work_collection": "work_collection",
          "base_camp_module": "base_camp_module", "work": "work", "map_object": "*map", "foliage_model": "foliage_model",
          "foliage_instance": "foliage_model_instance"}
MANY = ("work", "map_object", "foliage_instance")     # variants share most of their layout
MAPMODS = ["build_process", "connector", "map_concrete_model", "map_concrete_model_module", "map_model", "map_object"]


class ShapeEnv(ConcEnv):
    """Builder only: values do not matter."""

    def assume(self, b):
        pass


def dims(harness, params):
    """The free dimensions of a job's input, from a run of the builder alone."""
    sh = Shape(params.get("shape"))
    b = B(ShapeEnv(params, {}), sh)
    if harness == "record":
        R.RECORDS[params["rec"]][0](b, params["variant"])
    else:
        T.file(b, params["spec"] if "spec" in params else T.TREES[params["tree"]], params.get("header", "const"), params.get("trailer"))
    return list(sh.seen)


def shapes(ds, tier, seed, wide=True):
    """Shapes for a list of (key, kind): the base, every kind of string everywhere, every
    dimension varied alone, and mixes."""
    out = [{}]
    s = [k for k, t in ds if t == "s"]
    n = [k for k, t in ds if t == "n"]
    o = [k for k, t in ds if t == "o"]
    if s:
        out += [{"*s": a} for a in ALTS]
        out += [{k: ["u", 2]} for k in s[:10]]
        if len(s) > 1:
            out += [{k: ["e", 0]} for k in s[:10]]
            out += [{k: ["a", 8]} for k in s[:10]]      # long enough to start with another and "::"
    if o:
        out.append({"*o": 1})
    if n:
        out += [{"*n": 2}, {"*n": 0}]
        out += [{k: v} for k in n[:12] for v in (0, 3)]
    if len(o) > 1 and len(o) <= 16:
        out += [{k: 1} for k in o]
    rng = random.Random(seed)
    for i in range((3 if wide else 1) if tier == "quick" else 24):
        d = {}
        for k in s:
            d[k] = rng.choice(ALTS)
        for k in o:
            d[k] = rng.randrange(2)
        for k in n:
            d[k] = rng.choice([0, 1, 1, 2, 3])
        if len(ds) > 1:
            out.append(d)
    if tier == "thorough":
        if len(s) > 1:
            out += [{k: a} for k in s[:12] for a in ALTS + [["U", 40]]]
        if n:
            out += [{"*n": v} for v in (3, 4, 7)] + [{k: v} for k in n[:12] for v in (2, 5, 16)]
        if s:
            out += [{"*s": ["a", v]} for v in range(4, 20)] + [{k: ["u", 3]} for k in s[:10]]
            out += [{"*s": a, "*o": 1, "*n": 2} for a in ALTS[:5]]
    seen, uniq = set(), []
    for x in out:
        key = json.dumps(x, sort_keys=True)
        if key not in seen:
            seen.add(key)
            uniq.append(x)
    return uniq


_consts = {}


def folded(x):
    """The value of an integer constant or of arithmetic on such."""
    if isinstance(x, ast.Constant):
        return x.value if type(x.value) is int else None
    if isinstance(x, ast.BinOp) and type(x.op) in FOLD:
        a, b = folded(x.left), folded(x.right)
        if a is not None and b is not None and 0 <= a <= 1 << 22 and 0 <= b <= 1 << 22 and (b <= 22 or isinstance(x.op, (ast.Add, ast.Sub, ast.Mult))):
            return FOLD[type(x.op)](a, b)
    return None


FOLD = {ast.Add: int.__add__, ast.Sub: int.__sub__, ast.Mult: int.__mul__, ast.LShift: int.__lshift__, ast.Pow: int.__pow__}
_big = {}


def big(mods):
    """Large integers written in sources."""
    out = set()
    for f in sources(mods):
        constants(f)
        out |= {x for x in _big.get(f, ()) if x > 70000} | {x for x in constants(f)[0] if x > 5000}
    return sorted(out)[:6]


def constants(path):
    """(ints, string lengths) written in a source file: sizes worth visiting."""
    if path in _consts:
        return _consts[path]
    ints, strs = set(), set()
    try:
        with open(path, "rb") as f:
            t = ast.parse(f.read())
        for x in ast.walk(t):
            v = folded(x)
            if type(v) is int and 2 <= v <= 1 << 22:
                (ints if v <= 70000 else _big.setdefault(path, set())).add(v)
            if isinstance(x, ast.Constant):
                if type(x.value) is str and 0 < len(x.value) <= 64:
                    strs.add(len(x.value))
                elif type(x.value) is bytes and 0 < len(x.value) <= 64:
                    strs.add(len(x.value))
    except (OSError, SyntaxError, ValueError):
        pass
    _consts[path] = ints, strs
    return ints, strs


def sources(mods):
    return [os.path.join(PKG, *m.split(".")) + ".py" for m in mods]


def rec_sources(rec):
    m = MODULE[rec]
    return sources(["rawdata." + x for x in (MAPMODS if m == "*map" else [m])] + ["rawdata.common"])


def directed(ds, files, tier, counts=True):
    """Shapes at the sizes that the current source mentions."""
    out = []
    s = [k for k, t in ds if t == "s"]
    n = [k for k, t in ds if t == "n"]
    ints, strs = set(), set()
    for f in files:
        a, b = constants(f)
        ints |= a
        strs |= b
    if s:
        lens = {x for x in strs if x > 3}
        lens |= {x + d for x in ints if x <= 40 for d in (-1, 0, 1) if x + d > 3}
        out += [{"*s": ["a", x]} for x in sorted(lens)]
        out += [{"*s": [k, x + d]} for x in sorted(ints) if 40 < x <= 5000 for d in (-1, 0, 1) for k in "LT"]
    if n and counts:
        cs = {x + d for x in ints if x <= 64 for d in (0, 1)}
        for c in sorted(cs):
            if c > 3:
                out += [{k: c} for k in n[:6 if tier == "thorough" or c <= 16 else 2]]
    return out


def job(harness, params, variant="stdlib", seconds=60, paths=400, **lim):
    return {"harness": harness, "params": params, "variant": variant, "limits": {"seconds": seconds, "paths": paths, **lim}}


def spread(groups):
    """Round-robin, so that a budget that runs out costs every group a little."""
    out = []
    i = 0
    groups = [g for g in groups if g]
    while groups:
        for g in groups:
            if i < len(g):
                out.append(g[i])
        i += 1
        groups = [g for g in groups if i < len(g)]
    return out


def record_jobs(recs, modes, tier, seed, variants=("stdlib",)):
    groups = []
    for rec in recs:
        vs = R.RECORDS[rec][1]
        many = rec in MANY
        alld = {v: dims("record", {"rec": rec, "variant": v}) for v in vs}
        uses = {}
        for v in vs:
            for k in {k for k, _ in alld[v]}:
                uses[k] = uses.get(k, 0) + 1
        for v in vs:
            p = {"rec": rec, "variant": v}
            ds = alld[v]
            raw = rec == "dynamic_item" and v.startswith("raw")
            shs = shapes(ds, tier, seed, wide=not many)
            if many and tier == "quick":
                # the shared parts of these records are varied on two of the variants
                full = v in (vs[0], vs[-1], "conn/2", "Progress/2")
                if not full:
                    shs = [{}] + [x for x in ({"*s": ["b", 1]}, {"*s": ["e", 0]}, {"*n": 2}, {"*n": 0}) if _applies(x, ds)]
                    # and what only a few variants have, on each of those
                    own = [(k, t) for k, t in ds if uses[k] <= 6]
                    shs += [{k: x} for k, t in own[:8] for x in {"s": (["u", 2], ["a", 5]), "n": (0, 3), "o": (1,)}[t]]
                dr = directed(ds, rec_sources(rec), tier) if full else []
            else:
                dr = directed(ds, rec_sources(rec), tier)
            seen = {json.dumps(x) for x in shs}
            shs += [x for x in dr if json.dumps(x) not in seen]
            if rec == "foliage_instance" and tier == "quick" and int(v.partition("/")[2] or 0) > 32:
                shs = [x for x in shs if all(k[:1] == "*" and k != "*n" or type(c) is list or c < 2 for k, c in x.items())]
            if rec == "dynamic_item":   # each item is probed for several layouts: the paths multiply
                shs = [x for x in shs if not any(type(c) is list and c[0] == "T" for c in x.values())]
                shs = [x for x in shs if max(x.get("structs#0", 1), x.get("*n", 1)) <= (1 if raw else 2) + (tier != "quick")]
            for m in modes:
                for uv in variants:
                    groups.append([job("record", dict(p, mode=m, shape=x), uv) for x in
                                   (shs if uv == "stdlib" or tier == "thorough" else shs[:2])])
    return spread(groups)


def _applies(sh, ds):
    k = next(iter(sh))[1:]
    return any(t == k for _, t in ds)


def tree_jobs(modes, tier, seed, variants=("stdlib",)):
    groups = []
    files = sources(["archive", "gvas", "paltypes"])
    for t in T.TREES:
        for head in ("const", "free"):
            p = {"tree": t}
            if head == "free":
                if t not in ("int", "player"):
                    continue
                p.update(header="free", trailer=5)
            ds = dims("tree", p)
            shs = shapes(ds, tier, seed, wide=len(ds) > 3)
            dr = directed(ds, files, tier) if len(ds) <= 6 and t not in ("freename", "freename4", "freename_u", "int", "bool") or tier == "thorough" else []
            seen = {json.dumps(x) for x in shs}
            shs += [x for x in dr if json.dumps(x) not in seen]
            for m in modes:
                for uv in variants:
                    groups.append([job("tree", dict(p, mode=m, shape=x), uv) for x in
                                   (shs if uv == "stdlib" or tier == "thorough" else shs[:2])])
    for m in modes:
        groups.append([job("tree", {"tree": "str", "mode": m, "trailer": k, "shape": {}}) for k in (0, 1, 2, 4, 8, 40)])
    return spread(groups)


def source_paths():
    """Property paths that the current source mentions."""
    out = set()
    for d, _, fs in os.walk(PKG):
        for f in fs:
            if f.endswith(".py"):
                try:
                    with open(os.path.join(d, f), "rb") as h:
                        t = ast.parse(h.read())
                except (OSError, SyntaxError, ValueError):
                    continue
                for x in ast.walk(t):
                    if isinstance(x, ast.Constant) and type(x.value) is str and x.value.count(".") > 1 and x.value.startswith(".") \
                            and all(y.isidentifier() for y in x.value[1:].split(".")):
                        out.add(x.value)
    return out


def place_jobs(mode, tier):
    """The places that have a meaning of their own, each of their parts replaced by any other
    name, and the same structures under other roots."""
    quick = tier == "quick"
    maps = {p.rpartition(".")[0] for p in T.HINTS}
    maps |= {p.rpartition(".")[0] for p in source_paths() if p.rpartition(".")[2] in ("Key", "Value")}
    names = {x for p in list(maps) + [y for v in R.PATHS.values() for y in v] for x in p[1:].split(".")}
    g1, g2 = [], []

    def add(g, spec, custom=None):
        q = {"spec": spec, "mode": mode, "shape": {}}
        if custom:
            q["custom"] = custom
        g.append(job("tree", q))

    for m in sorted(maps):
        c = m[1:].split(".")
        add(g1, T.map_at(c), "none")
        add(g1, T.map_at(c, 2), "none")
        if len(c) > 1:
            add(g1, T.map_at(c[-1:]))
            add(g1, T.map_at(["Other"] + c[1:]))
            add(g1, T.map_at(["worldSaveData", "Extra"] + c[1:]))
            add(g1, T.map_at(["Save"] + c), "none")
        for i in range(len(c)):
            free = ["free", ["a", len(c[i])], sorted(x for x in names if len(x) == len(c[i]))]
            add(g1, T.map_at(c[:i] + [free] + c[i + 1:]), "none" if i > 1 else None)
            if not quick:
                for d in (-1, 1, 2):
                    free = ["free", ["a", len(c[i]) + d], sorted(x for x in names if len(x) == len(c[i]) + d)]
                    add(g1, T.map_at(c[:i] + [free] + c[i + 1:]), "none" if i > 1 else None)
    leaf = {"RawData": ["bytes", 3], "ModuleMap": ["map", "enum", ["st", [["RawData", ["bytes", 2]]]], 1],
            "GroupSaveDataMap": ["map", ["st", "Guid"], ["st", [["GroupType", "enum"], ["RawData", ["bytes", 3]]]], 1],
            "WorkSaveData": ["structs", [["WorkableType", "enum"], ["RawData", ["bytes", 2]]], 1],
            "MapObjectSaveData": ["structs", [["MapObjectId", "name"], ["RawData", ["bytes", 2]]], 1]}
    for p in sorted({y for v in R.PATHS.values() for y in v} | {y for y in source_paths() if y.rpartition(".")[2] in leaf}):
        c = p[1:].split(".")
        k = leaf[c[-1]]
        add(g2, T.chain(c[-1:], k))
        add(g2, T.chain(["Other"] + c[1:], k))
        add(g2, T.chain(["worldSaveData", "Extra"] + c[1:], k))
        add(g2, T.chain(["Save"] + c, k))
        if len(c) > 3:
            add(g2, T.chain(["worldSaveData"] + c[2:], k))
        add(g2, T.chain(c + ["More"], k) if c[-1] == "RawData" else T.chain(c, k), "none")
        for i in range(len(c)):
            free = ["free", ["a", len(c[i])], sorted(x for x in names if len(x) == len(c[i]))]
            add(g2, T.chain(c[:i] + [free] + c[i + 1:], k))
    return spread([g1, g2])


BULK = ("names", "bytes", "vectors", "structs", "map", "enums", "guids", "props", "versions")


def bulk_jobs(mode, tier):
    """Long lists, at the sizes that the current source mentions and some others."""
    quick = tier == "quick"
    ints = set()
    for f in sources(["archive", "gvas"]):
        ints |= {x for x in constants(f)[0] if 64 < x < 70000}
    sizes = {100, 1000, 4097} | {x + d for x in ints for d in ((0, 1) if x > 130 or not quick else (1,))}
    if not quick:
        sizes |= {65537, 20000}
    sizes |= {x + d for x in big(["archive", "gvas"])[:2] if x <= 140000 for d in (0, 1)}
    return [job("bulk", {"kind": k, "n": n, "mode": mode}, seconds=250 if quick else 600, steps=40000000)
            for n in sorted(sizes) for k in BULK if n < 20000 or k not in ("props", "structs", "map") or not quick and k != "props"]


BOTH = ("stdlib", "recordclass")
ALL_RECS = list(R.RECORDS)


# ------------------------------------------------------------------ counting
def built(q, cls=B, st=None):
    b = cls(ShapeEnv(q, {}), Shape(q.get("shape")), *([st] if st is not None else []))
    if "rec" in q:
        want = R.RECORDS[q["rec"]][0](b, q["variant"])
    else:
        want = T.file(b, T.TREES[q["tree"]], q.get("header", "const"), q.get("trailer"))
    return want, b


def n_arrays(q):
    """How many raw byte arrays a record's file holds, and their sizes."""
    st = {"seen": 0, "index": -1, "delta": 0, "sizes": []}

    class C(H.TB):
        def sub(self):
            return C(self.env, self.sh, self.state)

        def p_bytes(self, name, payload):
            def f(b):
                v = payload(b)
                st["sizes"].append(len(b.c))
                return v
            return super().p_bytes(name, f)
    built(q, C, st)
    return st["sizes"]


def kinds(q):
    """The texts in a record's file that say what kind of record something is."""
    out = []

    class C(B):
        def sub(self):
            return C(self.env, self.sh)

        def cstr(self, s):
            if "::" in s or s in R.MAP_NAMES:
                out.append(s)
            return super().cstr(s)
    built(q, C)
    return out


def marks(q):
    """For each raw byte array of a record's file: its size and where its fields start."""
    out = []

    class C(H.TB):
        def sub(self):
            return C(self.env, self.sh, self.state)

        def _n(self, n, hint):
            self.state["at"].setdefault(id(self.c), set()).add(len(self.c))
            return super()._n(n, hint)

        def p_bytes(self, name, payload):
            def f(b):
                self.state["at"].pop(id(b.c), None)
                v = payload(b)
                out.append((len(b.c), sorted(self.state["at"].get(id(b.c), ()))))
                return v
            return super().p_bytes(name, f)
    built(q, C, {"seen": 0, "index": -1, "delta": 0, "at": {}})
    return out


def n_floats(q):
    st = {"n": 0}

    class C(B):
        def sub(self):
            return C(self.env, self.sh)

        def f32(self, h="", nan=False):
            st["n"] += 1
            return super().f32(h)

        def f64(self, h="", nan=False):
            st["n"] += 1
            return super().f64(h)
    built(q, C)
    return st["n"]


def leaf_indexes(q, kind, per=1):
    """Leaves of a kind, at most `per` for each place in the layout."""
    want, _ = built(q)
    seen, out = {}, []
    for i, at in enumerate(H.leaves(want, kind)):
        key = tuple("#" if isinstance(x, int) else x for x in at)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= per:
            out.append((i, at))
    return out


def length(q):
    return len(built(q)[1].c)


def rec_list(recs=None, per=None):
    for r in recs or ALL_RECS:
        vs = R.RECORDS[r][1]
        for i, v in enumerate(vs):
            if v.startswith("stranger/"):
                continue
            if per is None or i < per or i == len(vs) - 1 or vs[i + 1].startswith("stranger/1."):
                yield {"rec": r, "variant": v}


# ---------------------------------------------------------------- per property
def name_jobs(mode):
    """Every object name of the tool's table, its letters in any case."""
    return [job("record", {"rec": "map_object", "variant": "names/%d" % i, "mode": mode, "shape": {}})
            for i in range(R.N_NAME_CHUNKS)]


def edit_jobs(tier):
    quick = tier == "quick"
    specs = ["int", "int64", "fixed", "float", "str", "name", "enum", "bool", ["struct", "Vector"], ["struct", "Guid"],
             ["struct", "Quat"], ["struct", "LinearColor"], ["struct", "DateTime"],
             ["names", 2], ["enums", 1], ["guids", 2], ["bytes", 3], ["structs", [["X", "int"], ["Y", "str"]], 2],
             ["structs", "Vector", 1], ["map", "name", "int", 2], ["map", "int", ["st", [["S", "str"]]], 1],
             ["struct", [["A", "str"], ["B", ["struct", [["C", "bool"]]]]]]]
    groups = []
    ctxs = list(H.WHERE)
    for c in ctxs:
        g = []
        for i, s in enumerate(specs):
            o = specs[(i * 5 + 3) % len(specs)]
            g.append(job("edit", {"ctx": c, "op": "replace", "old": o, "new": s}))
            g.append(job("edit", {"ctx": c, "op": "add", "old": "int", "new": s}))
            g.append(job("edit", {"ctx": c, "op": "delete", "old": s, "new": None}))
        for i, s in enumerate(specs if c != "character" else ()):
            # writing records with a layout of their own replaces them by their bytes: not editable after
            for first in ("json", "lib"):
                g.append(job("edit", {"ctx": c, "op": "inplace", "old": s, "new": s, "first": first}))
                o = specs[(i * 7 + 2) % len(specs)]
                g.append(job("edit", {"ctx": c, "op": "replace", "old": o, "new": s, "first": first}))
            g.append(job("edit", {"ctx": c, "op": "add", "old": "int", "new": s, "first": "lib"}))
            g.append(job("edit", {"ctx": c, "op": "delete", "old": s, "new": None, "first": "json"}))
        for a in (["e", 0], ["a", 1], ["a", 9], ["b", 2], ["L", 300]):
            for s in ("str", "name", "enum", ["names", 2]):
                g.append(job("edit", {"ctx": c, "op": "replace", "old": "str", "new": s, "shape": {"*s": a}}))
        groups.append(g)
        g = []
        for k in ("names", "enums", "guids", "bytes", "structs", "vectors", "map", "mapst"):
            for n, m in ((1, 0), (0, 1), (2, 1), (1, 3), (2, 2)) if quick else ((1, 0), (0, 1), (2, 1), (1, 3), (2, 2), (3, 9), (0, 17), (5, 2)):
                g.append(job("resize", {"kind": k, "n": n, "m": m, "ctx": c, "reverse": n == m}))
            if c != "character":
                for first in ("json", "lib"):
                    for n, m in ((2, 1), (1, 2), (2, 2)):
                        g.append(job("resize", {"kind": k, "n": n, "m": m, "ctx": c, "first": first, "reverse": n == m}))
            g.append(job("resize", {"kind": k, "n": 1, "m": 2, "ctx": c, "shape": {"*s": ["b", 2], "*o": 1}}))
        groups.append(g)
    return spread(groups)


def damage_jobs(tier):
    quick = tier == "quick"
    groups = []
    for q in rec_list():
        if q["variant"].startswith("names/"):
            continue
        sizes = n_arrays(q)
        many = q["rec"] in MANY
        ds = [1, 4, -1, -4] if many and quick else [1, 2, 3, 4, 8, 12, 16, 20, -1, -2, -4, -8, -16] if quick else \
            list(range(1, 25)) + [32, 64] + [-x for x in range(1, 25)]
        g = []
        for i, size in enumerate(sizes):
            for d in ds:
                v = q["variant"]
                if q["rec"] == "dynamic_item" and (v == "armor" and d > 12 or v.startswith("raw/") and d + int(v[4:]) > 16):
                    continue    # free bytes enough for a whole weapon: that is a record, not extra data
                if q["variant"] == "empty" and d > 8:
                    continue    # likewise
                if d > 0 or size >= -d:
                    g.append(job("tamper", dict(q, index=i, delta=d, shape={}), paths=150, seconds=40))
            if not many or not quick:
                g.append(job("tamper", dict(q, index=i, delta=-size, shape={})))
        done = {json.dumps(x["params"], sort_keys=True) for x in g}
        # cut exactly where a field starts
        for sh in ({},) if many and quick or q["rec"] == "dynamic_item" else ({}, {"*n": 2}):
            for i, (size, at) in enumerate(marks(dict(q, shape=sh))):
                for k in at if not quick else at[-4:] if many else at[-20:]:
                    x = job("tamper", dict(q, index=i, delta=k - size, shape=sh), paths=150, seconds=40)
                    if json.dumps(x["params"], sort_keys=True) not in done:
                        g.append(x)
        groups.append(g)
    # kinds of records the tool does not know
    for q in rec_list():
        if not q["variant"].startswith(("names/", "unknown/", "raw/")):
            groups.append([job("renamed", dict(q, index=i, n=n, shape={}))
                           for i, k in enumerate(kinds(q)) for n in ((None, 7) if "::" in k else (None,))])
    # every cut point
    for t in ("all_scalars", "player", "structs_props", "map_st_st", "names", "bytes5", "hint_spawner", "two_free") if quick else T.TREES:
        q = {"tree": t}
        n = length(q)
        step = max(1, n // 160) if quick else 1
        groups.append([job("prefix", dict(q, keep=k)) for k in range(0, n, step)])
    groups.append([job("prefix", {"tree": "int", "header": "free", "keep": k}) for k in range(0, length({"tree": "int", "header": "free"}))])
    for q in rec_list(["group", "character", "work", "base_camp_module", "item_slots"], 0 if quick else 3):
        n = length(q)
        groups.append([job("prefix", dict(q, keep=k)) for k in range(n - (60 if quick else 400), n)])
    # names of types
    lens = set(range(1, 17)) | {20}
    for f in sources(["archive"]):
        lens |= constants(f)[1]
    lens = sorted(x for x in lens if x <= 40)
    for w in H.KNOWN:
        g = []
        for n in lens:
            for body in ((0, 8) if w != "struct" else (0,)):
                g.append(job("unknown", {"what": w, "type": ["a", n], "body": body}))
        if w != "struct":
            g.append(job("unknown", {"what": w, "type": ["a", 12], "body": 8, "count": 2}))
        g.append(job("unknown", {"what": w, "type": ["u", 3], "body": 4}))
        groups.append(g)
    groups.append([job("unknown", {"what": "labelled", "body": n, "count": c}) for n in range(0, 13 if quick else 33)
                   for c in sorted(set(range(0, 7)) | {n - 1, n + 1, n + 4, n + 8}) if c >= 0 and n != c])
    return spread(groups)


def string_jobs(tier):
    quick = tier == "quick"
    ints, strs = set(), set()
    for f in sources(["archive"]):
        a, b = constants(f)
        ints |= a
        strs |= b
    g1, g2, g3 = [], [], []
    for n in list(range(0, 13 if quick else 25)) + sorted(strs):
        if n:
            g1.append(job("str_read", {"shape": ["a", n]}))
            g1.append(job("str_read", {"shape": ["b", n]}) if n <= 8 else job("str_read", {"shape": ["U", n]}))
        else:
            g1.append(job("str_read", {"shape": ["e", 0]}))
    for n in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
        g1.append(job("str_read", {"shape": ["u", n]}, seconds=100, paths=2000))
    lens = {x + d for x in ints | {64, 100, 127, 128, 255, 256, 300, 511, 1000, 1024} if x <= 6000 for d in (-1, 0, 1)}
    lens |= {32767, 32768, 65536} | {x + d for x in big(["archive"]) if x <= 140000 for d in (-1, 0, 1)}
    for n in sorted(x for x in lens if x > 12):
        g1.append(job("str_read", {"shape": ["L", n]}))
        g1.append(job("str_read", {"shape": ["U", n]}))
        g1.append(job("str_read", {"shape": ["T", n]}))
    for n in (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4):
        g2.append(job("str_write", {"n": n}, seconds=120, paths=2000))
    for n in (4, 6, 8) if quick else (4, 5, 6, 8, 12, 16):
        g2.append(job("str_write", {"n": n, "max": 127}))
        g2.append(job("str_write", {"n": n, "max": 255}, seconds=100, paths=2000))
    for sh in (["a", 1], ["a", 4], ["b", 1], ["b", 3], ["L", 40], ["U", 20]):
        for c in range(1, 8):
            g3.append(job("str_cut", {"shape": sh, "cut": c}))
    for h in range(0, 12 if quick else 40):
        g3.append(job("str_claim", {"have": h}, paths=800))
    # strings inside saves: every place a string can stand
    g4 = []
    for t in ("str", "name", "enum", "names", "enums", "map_name_int", "map_enum_bool", "freename", "freename_u"):
        for a in ALTS + [["u", 2]]:
            g4.append(job("tree", {"tree": t, "mode": "rt", "shape": {"*s": a}}))
            g4.append(job("tree", {"tree": t, "mode": "dec", "shape": {"*s": a}}))
    for r in ("group", "base_camp", "dynamic_item", "map_object"):
        v = {"group": "Guild", "dynamic_item": "weapon"}.get(r) or R.RECORDS[r][1][0]
        v = next((x for x in R.RECORDS[r][1] if v in x), R.RECORDS[r][1][0])
        for a in ALTS[:-1] if r == "dynamic_item" else ALTS:
            g4.append(job("record", {"rec": r, "variant": v, "mode": "rt", "shape": {"*s": a}}))
    return spread([g1, g2, g3, g4])


def number_jobs(tier):
    quick = tier == "quick"
    from .direct import PRIM
    g1, groups = [], []
    for k in list(PRIM) + ["float", "double", "bool", "vector", "quat"]:
        g1.append(job("prim", {"kind": k}))
    for k, (n, _) in PRIM.items():
        for b in (n + 1, n + 2, 10) if quick else range(1, 14):
            g1.append(job("prim_wide", {"kind": k, "bytes": b}))
    for k, n in [(k, n) for k, (n, _) in PRIM.items()] + [("float", 4), ("double", 8), ("bool", 1), ("vector", 24), ("quat", 32)]:
        for h in range(0, n):
            if h < 4 or h == n - 1 or not quick:
                g1.append(job("prim_short", {"kind": k, "have": h}))
    groups.append(g1)
    for t in T.TREES:
        q = {"tree": t}
        groups.append([job(h, dict(q, leaf=i)) for i, at in leaf_indexes(q, "int") if at[0] == "properties"
                       for h in ("wide", "float_for_int")] +
                      [job("wide_float", dict(q, leaf=i)) for i, at in leaf_indexes(q, "float") if single(q, i)])
    q = {"tree": "int", "header": "free"}
    groups.append([job(h, dict(q, leaf=i)) for i, at in leaf_indexes(q, "int") for h in ("wide", "float_for_int")])
    for q in rec_list(None, 3 if quick else None):
        groups.append([job(h, dict(q, leaf=i)) for i, at in leaf_indexes(q, "int") if at[0] == "properties"
                       for h in ("wide", "float_for_int")] +
                      [job("wide_float", dict(q, leaf=i)) for i, at in leaf_indexes(q, "float") if single(q, i)])
    return spread(groups)


def single(q, leaf):
    """Is the leaf a single-precision number?"""
    class C(B):
        def sub(self):
            return C(self.env, self.sh)

        def f32(self, h="", nan=False):
            super().f32(h)
            return 1.5

        def f64(self, h="", nan=False):
            super().f64(h)
            return 2.5
    want, _ = built(q, C)
    return H.fetch(want, H.leaves(want, "float")[leaf]) == 1.5


def nan_jobs(tier):
    quick = tier == "quick"
    groups = []
    for t in T.TREES:
        q = {"tree": t}
        k = n_floats(q)
        groups.append([job("nan", dict(q, leaf=i)) for i in range(k)] + [job("nan", dict(q, leaf=i, before=1)) for i in sorted({0, k - 1}) if k])
    for q in rec_list():
        if q["rec"] == "foliage_instance" or q["variant"].startswith("names/"):
            continue
        n = n_floats(q)
        many = q["rec"] in MANY
        g = [job("nan", dict(q, leaf=i)) for i in range(n)]
        if many and quick:
            g = g[-4:]
        if n and not many:
            g += [job("nan", dict(q, leaf=i, before=1)) for i in sorted({0, n - 1})]
        groups.append(g)
    return spread(groups)


def guid_jobs(tier):
    out = []
    for v in BOTH:
        for op in ("text", "stdlib", "write", "read", "equal", "equal text", "json"):
            out.append(job("guid", {"op": op}, v, seconds=200))
        for w in range(1, 16):
            out.append(job("guid", {"op": "equal", "warm": w}, v, seconds=200))
        out.append(job("guid", {"op": "equal text", "warm": 1}, v, seconds=200))
        for f in ("plain", "dashes"):
            out.append(job("guid_text", {"form": f}, v, seconds=200))
        for t in ("st_Guid", "sts_Guid", "guids", "map_st_st", "hint_camp"):
            for m in ("rt", "dec", "enc"):
                for sh in ({}, {"*n": 3}, {"*o": 1}):
                    out.append(job("tree", {"tree": t, "mode": m, "shape": sh}, v))
        out.append(job("tree", {"tree": "int", "mode": "rt", "header": "free", "shape": {"*n": 2}}, v))
    return out


def pack_jobs(tier):
    quick = tier == "quick"
    g = []
    lens = [0, 1, 2, 3, 4, 8, 11, 12, 16, 100, 255, 256, 1000, 65535, 65536] + ([] if quick else [300000])
    # sizes the source mentions, and what a stored stream of just that size holds
    lens += sorted({x + d for x in big(["palsav", "gvas", "commands.convert"]) if x <= 1 << 20 or not quick
                    for d in (-11, -6, 0, 1)} - set(lens))
    for n in lens:
        for t in (0x31, 0x32):
            g.append(job("pack_write", {"n": n, "type": t}))
            for c in (0, 1):
                g.append(job("pack_read", {"n": n, "type": t, "cnk": c}))
    for n in (0, 1, 20) if quick else (0, 1, 2, 3, 7, 20, 100):
        for t in (0x31, 0x32):
            g.append(job("pack_foreign", {"n": n, "type": t}))
            for c in (0, 1):
                for f in ("all", "ulen", "clen", "magic", "type"):
                    g.append(job("pack_bad", {"n": n, "type": t, "cnk": c, "field": f}))
    for t in (0x31, 0x32):
        for c in (0, 1):
            for k in list(range(0, 24 + (not quick) * 12)) + [-1, -2, -3, -4, -5, -8]:
                g.append(job("pack_cut", {"n": 6, "type": t, "cnk": c, "keep": k}))
    for f in ("magic", "version", "format"):
        g.append(job("gvas_header", {"field": f}))
    return g


INT = {"tree": "int"}
SCAL = {"tree": "all_scalars"}
WORLD_CLASS = {"class#0": ["a", 22]}


def cls_file(n, kind="a"):
    return {"tree": "int", "header": "free", "shape": {"class#0": [kind, n]}}


BESIDE = [".tmp", ".temp", "~", ".bak", ".backup", ".part", ".partial", ".old", ".orig", ".new", ".swp", ".lock", ".out", ".log", ".err",
          "_backup", "_old", ".1", ".0", ".json", ".sav", ".gvas", ".raw", ".bin", ".txt", ".gz", ".z", ".json.tmp", ".sav.tmp", ".json.bak",
          ".sav.bak", ".resave.json", ".resave.sav", "-.json", "-.sav", "-.sav.json", "-.bin"]


def cli_safety_jobs(tier):
    quick = tier == "quick"
    g = []
    for name, content in (("a.sav", "sav"), ("a.sav.json", "json"), ("level.json", "json")):
        for n in ([], [0], [1], [2], [3], [1, 1], [0, 1], [2, 1], [1, 1, 1], [3, 2, 1]):
            for out in (None, "out.bin", name):
                for short in (0, 1):
                    g.append(job("convert", {"name": name, "content": content, "file": INT, "out": out, "short": short,
                                             "exists": "?", "opts": {"force": "?"}, "replies": n}))
        for out in (None, "out.bin"):
            for was in ("empty", "zero", "json", "other"):
                for n in ([1], [], [1, 1]):
                    g.append(job("convert", {"name": name, "content": content, "file": INT, "out": out, "was": was,
                                             "exists": "?", "opts": {"force": "?"}, "replies": n}))
            g.append(job("convert", {"name": name, "content": content, "file": INT, "out": out, "exists": "?", "first": 1,
                                     "opts": {"force": "?", "minify": "?", "nan": "?"}, "replies": [1]}))
            g.append(job("convert", {"name": name, "content": content, "file": SCAL, "out": out, "exists": "?",
                                     "opts": {"force": "?"}, "replies": [1]}))
            # wrong input: nothing is lost
            for bad in ("cut", "nojson", "", "{", "PlZ", "xxxxxxxxxxxxxxxx"):
                if (bad == "cut") != (content == "sav") and bad in ("cut", "nojson"):
                    continue
                g.append(job("convert", {"name": name, "content": bad, "file": SCAL, "out": out, "exists": "?", "opts": {"force": 1}}))
                g.append(job("convert", {"name": name, "content": bad, "file": SCAL, "out": out, "exists": "?", "replies": [1]}))
            for c in (12, 13, 17, 20, 40):
                if content == "sav":
                    g.append(job("convert", {"name": name, "content": "cut", "cut": c, "file": SCAL, "out": out, "exists": "?", "opts": {"force": 1}}))
            for kind in ("missing", "dir"):
                for t in (0, 1):
                    g.append(job("convert", {"name": name, "content": content, "input": kind, "file": INT, "out": out, "exists": "?",
                                             "opts": {"force": "?", "to": t and content == "sav", "from": t and content == "json"}}))
            g.append(job("convert", {"name": name, "content": content, "file": INT, "out": out, "exists": "?",
                                     "opts": {"force": "?", "to": 1, "from": 1}, "replies": [1]}))
    # records cut short, each just behind or within its last fields
    for q in rec_list(None, 2 if quick else None):
        if q["variant"].startswith("names/"):
            continue
        for i, (size, at) in enumerate(marks(dict(q, shape={}))):
            ks = sorted({k for m in at[-3:] for k in (m, m + 1, m + 3)} | {size - 1, size - 8, size - 15}, reverse=True)
            for k in [k for k in ks if 0 <= k < size][:5 if quick else 20]:
                g.append(job("convert", {"name": "a.sav", "content": "tampered", "file": q, "index": i, "delta": k - size, "exists": 1,
                                         "opts": {"force": 1}}, paths=60, seconds=30))
    # JSON with a value that cannot be written
    for q in [{"tree": t} for t in ("all_scalars", "player", "structs_props", "map_st_st", "names")] + list(rec_list(None, 1)):
        if q.get("variant", "").startswith("names/"):
            continue
        want, _ = built(q)
        ls = [(at, v) for at, v in scalars(want["properties"], ("properties",))]
        for i, (at, v) in enumerate(ls[-5:] + ls[:-5:max(1, len(ls) // (4 if quick else 40))]):
            bad = [1 << 80, "no", [1], None][i % 4] if type(v) is int else ["no", [1]][i % 2] if type(v) is float else [[1], 7][i % 2]
            g.append(job("convert", {"name": "a.json", "content": "badleaf", "file": q, "at": list(at), "bad": bad, "exists": 1,
                                     "opts": {"force": 1}}, paths=60, seconds=30))
    # nobody else's file beside the output is touched
    for name, content in (("a.sav", "sav"), ("a.sav.json", "json"), ("level.json", "json")):
        for out in (None, "out.bin"):
            for bad in (0, 1):
                g.append(job("convert", {"name": name, "content": "" if bad else content, "file": INT, "out": out, "exists": "?",
                                         "beside": BESIDE, "opts": {"force": "?"}, "replies": [1]}))
    for n, suf in ((1, ".sav"), (2, ".json"), (3, ".sav.json"), (6, ""), (7, ""), (8, "")) if quick else \
            ((1, ".sav"), (2, ".json"), (3, ".sav.json"), (5, ""), (6, ""), (7, ""), (8, ""), (9, ""), (12, ""), (5, ".sav"), (5, ".json")):
        for content in ("sav", "json"):
            g.append(job("convert", {"name": ["free", n, suf], "content": content, "file": INT, "exists": "?",
                                     "opts": {"force": "?", "to": "?", "from": "?"}, "replies": [1]}, seconds=120, paths=1500))
            g.append(job("convert", {"name": ["free", n, suf], "content": content, "file": INT, "exists": "?", "out": ["free", 4, ""],
                                     "opts": {"force": "?"}, "replies": [1]}, seconds=120, paths=1500))
    return g


# names that a shell, a glob, a path library or a terminal would take apart
ODD = ["a b.sav", " a.sav", "a .json", "a.sav ", "$SAVE.sav", "${SAVE}.json", "~.sav", "a*.sav", "[a].json", "a?.sav", "%41.sav", "a'b.json", 'a"b.sav', "a#b.sav",
       "{a}.json", "@a.sav", "a=b.sav", "a:b.json", "a;b.sav", "a\\b.json", "\u00e4.sav", "\u30bb\u30fc\u30d6.json", "e\u0301.sav", "a\tb.sav", "%s.json", "..sav", "a..json", "con.sav"]


def cli_route_jobs(tier):
    quick = tier == "quick"
    g = []
    names = ["a.sav", "a.json", "a.sav.json", "a.json.sav", "a.json.json", "a.txt", "a.SAV", "a.JSON", "a", ".sav", "sav", "json",
             "asav", "ajson", "a.sav.bak", "a.json.bak", "x.sav.sav", "x.json.sav.json"] + ODD
    for name in names:
        for content in ("sav", "json"):
            for out in (None, "result"):
                g.append(job("convert", {"name": name, "content": content, "file": INT, "out": out, "exists": "?",
                                         "opts": {"to": "?", "from": "?", "force": 1}}))
    for name in ("a.sav", "a.json", "a.sav.json", "b.txt"):
        for content in ("sav", "json"):
            for out in ("r.json", "r.sav", "r.sav.json", "r.json.json", "r.json.sav", "r", "r.txt", ["free", 3, ".json"], ["free", 3, ".sav"],
                        ["free", 3, ""], ["free", 6, ""], ["free", 9, ""], "$SAVE", "${SAVE}.json", "~", " r.json ", "r .sav", "%s", "r*", "\u00e4.json"):
                g.append(job("convert", {"name": name, "content": content, "file": INT, "out": out, "exists": "?",
                                         "opts": {"to": int(content == "sav"), "from": int(content == "json"), "force": 1}}))
    for n, suf in ((3, ""), (4, ""), (5, ""), (6, ""), (8, ""), (3, ".sav"), (3, ".json")) if quick else \
            [(n, s) for n in range(1, 13) for s in ("", ".sav", ".json", ".sav.json") if n + len(s) >= 3]:
        for content in ("sav", "json"):
            g.append(job("convert", {"name": ["free", n, suf], "content": content, "file": INT,
                                     "opts": {"to": "?", "from": "?"}}, seconds=120, paths=1500))
    # which kind of save is written
    base = len("Pal.PalWorldSaveGame")
    local = len("Pal.PalLocalWorldSaveGame")
    script = len("/Script/Pal.PalWorldSaveGame")
    for n in sorted({1, 8, base - 1, base, base + 1, base + 4, local - 1, local, local + 1, script, len("/Script/Pal.PalLocalWorldSaveGame"), 40}
                    if quick else set(range(1, 60))):
        g.append(job("convert", {"name": "a.json", "content": "json", "file": cls_file(n)}, seconds=100))
        g.append(job("both_ways", {"file": cls_file(n)}, seconds=100))
    g.append(job("convert", {"name": "a.json", "content": "json", "file": cls_file(22, "b")}))
    g.append(job("convert", {"name": "a.json", "content": "json", "file": {"tree": "int", "header": "free", "shape": {"class#0": ["e", 0]}}}))
    trees = ["all_scalars", "player", "str", "float", "st_Vector", "sts_LinearColor", "names", "guids", "bytes5", "map_name_int", "map_st_st", "freename"]
    for t in trees if quick else T.TREES:
        for st in (0x31, 0x32):
            for c in (0, 1):
                g.append(job("convert", {"name": "a.sav", "content": "sav", "stype": st, "cnk": c, "file": {"tree": t},
                                         "opts": {"minify": "?"}}))
        if n_floats({"tree": t}) <= 4:
            g.append(job("convert", {"name": "a.sav", "content": "sav", "file": {"tree": t}, "opts": {"minify": "?", "nan": 1}}))
        g.append(job("convert", {"name": "a.json", "content": "json", "file": {"tree": t}}))
        for m in (0, 1):
            g.append(job("both_ways", {"file": {"tree": t}, "minify": m}))
        g.append(job("convert", {"name": "a.sav", "content": "sav", "file": {"tree": t, "shape": {"*s": ["b", 2]}}}))
        k = [x for x, y in dims("tree", {"tree": t}) if y == "s"]
        if k:
            g.append(job("both_ways", {"file": {"tree": t, "shape": {k[-1]: ["u", 2]}}}))
    for q in rec_list(None, 1 if quick else None):
        g.append(job("both_ways", {"file": q}))
    # over the output of an earlier conversion
    for t in ("int", "float", "all_scalars", "player", "st_Vector"):
        for ind in (0, 1):
            g.append(job("convert", {"name": "a.sav", "content": "sav", "file": {"tree": t}, "exists": 1, "was": "other",
                                     "opts": {"minify": ind, "force": "?"}, "replies": [1]}))
        g.append(job("convert", {"name": "a.sav.json", "content": "json", "file": {"tree": t}, "exists": 1, "was": "other",
                                 "opts": {"force": "?"}, "replies": [1]}))
    return g


def subset_jobs(tier):
    quick = tier == "quick"
    groups = []
    for q in rec_list():
        many = q["rec"] in MANY
        shs = [{}]
        if not many or not quick:
            shs += [{"*n": 2}, {"*s": ["b", 1]}, {"*n": 0}]
        if q["rec"] == "dynamic_item":
            shs = [x for x in shs if "*n" not in x]
        g = []
        for keep in ("none", "others", "own"):
            if keep == "own" and many and quick:
                continue
            for sh in shs:
                g.append(job("subset", dict(q, keep=keep, shape=sh)))
        groups.append(g)
    for r in ALL_RECS:
        q = {"rec": r, "variant": R.RECORDS[r][1][0]}
        own = ["." + x for x in R.PATHS[r]]
        short = R.PATHS[r]
        other = next(x for k, v in R.PATHS.items() if k != r for x in v)
        real = real_paths(r)
        others = [x for k in ALL_RECS if k != r for x in R.PATHS[k] if x not in real]
        g = []
        for custom, sel in (("all", real), (real[0], real), (other_path(r), []), (other_path(r) + " , " + real[0], real),
                            ("", []), ("nothing.known", []), (real[0] + ".More", []), (others[0] + "," + others[1], []),
                            (others[0] + "," + others[0], []), (",".join(others), []), (real[0] + "," + others[0], real),
                            (",".join(others[:3] + real + others[3:]), real), (real[0].rpartition(".")[0], []),
                            (",".join([real[0].lower(), real[0][1:]]), []), ("," + real[0], real),
                            (".nope.Nothing," + real[0], real), ("nope," + ",".join(others[:2] + real), real), (real[0] + ",.nope", real),
                            (real[0] + "," + real[0], real), (",".join(reversed(others + real)), real), (real[0] + ",,", real),
                            (others[0] + ",nope,all", []), (",".join([".a.b"] * 60 + others + real), real),
                            (",".join(real * 40), real), (" ,\t" + real[0] + "  ", real)):
            g.append(job("convert", {"name": "a.sav", "content": "sav", "file": q, "custom": custom, "selected": sel}))
            g.append(job("both_ways", {"file": q, "custom": custom}))
        groups.append(g)
    return spread(groups)


def real_paths(r):
    return R.PATHS[r]


def other_path(r):
    ks = list(R.PATHS)
    return R.PATHS[ks[(ks.index(r) + 1) % len(ks)]][0]


ORDERS = ["write twice", "dump then write", "load write twice", "interleaved", "sequence", "after failure", "nan mode", "after change"]


def mix_jobs(recs, mode, tier):
    """Lists whose elements differ in kind."""
    return [job("record", dict(q, mode=mode)) for q in R.mix_recs(recs)]


def turn_jobs(tier):
    """Angles that a user gives as negative or as more than a full turn."""
    return [job("record", {"rec": "foliage_instance", "variant": "f/8", "mode": "enc", "turn": t, "shape": {"*" + h: 1 if h == k or k == "all" else 0 for h in ("pitch", "yaw", "roll")}})
            for t in ((-1, 1, -2) if tier == "quick" else (-1, 1, -2, 2, -7, 9)) for k in ("pitch", "yaw", "roll", "all", "none")]


def again_jobs(tier):
    quick = tier == "quick"
    groups = []
    small = [{"tree": "st_Vector"}, {"tree": "float"}, {"tree": "all_scalars"}]
    firsts = list(rec_list(None, 2 if quick else None)) + [{"tree": t} for t in T.TREES]
    for i, a in enumerate(firsts):
        g = []
        for o in ORDERS:
            if o in ("interleaved", "sequence", "after failure"):
                b = [small[i % 3]]
                if "rec" in a:
                    b.append(a)
                    k = ALL_RECS[(ALL_RECS.index(a["rec"]) + 1 + i % 5) % len(ALL_RECS)]
                    b.append({"rec": k, "variant": R.RECORDS[k][1][0]})
                if quick and a.get("rec") in MANY:
                    b = b[1:2]
            else:
                b = [small[i % 2] if o == "nan mode" else INT]
                if o == "nan mode" and "rec" in a:
                    b = [a if n_floats(a) <= 2 else {"rec": "item_slots", "variant": "full"}]
            for x in b:
                g.append(job("again", {"a": a, "b": x, "order": o}))
        if "rec" in a:
            want, _ = built(a)
            ls = [(at, v) for at, v in scalars(want["properties"], ("properties",))
                  if at[-1] not in ("type", "v2", "custom_type", "array_type", "prop_type", "prop_name", "type_name", "struct_type", "key_type", "value_type", "key_struct_type", "value_struct_type")]
            some = ls[-6:] + ls[:len(ls) - 6:max(1, len(ls) // (4 if quick else 40))]
            for at, v in some:
                bad = 1 << 80 if type(v) is int else "no" if type(v) is float else [1]
                g.append(job("again", {"a": a, "b": a, "order": "after bad edit", "at": list(at), "bad": bad}))
            for i, size in enumerate(n_arrays(a)):
                for d in (-1,) if quick else (-1, -4, -9, -17):
                    if size >= -d and a["rec"] != "dynamic_item":
                        g.append(job("again", {"a": a, "b": a, "order": "after bad record", "index": i, "delta": d}))
        groups.append(g)
    # after saves of every kind, their contents drawn at random
    many = [dict(q, cut=c) if c else q for c in (0, 5) for q in
            [{"tree": t} for t in T.TREES] + [x for x in rec_list(None, 1) if x["rec"] != "foliage_instance"] + H.unhinted(4)]
    for a in firsts + H.unhinted(1):
        groups.append([job("again", {"a": a, "b": INT, "order": "after many", "many": many})])
    # two saves of one kind, both read before either is shown
    done = {json.dumps(x) for x in firsts}
    groups.append([job("again", {"a": q, "b": q, "order": "interleaved"}) for q in rec_list() if json.dumps(q) not in done])
    # a program changes what it read before the same data are read again
    groups.append([job("again", {"a": q, "b": INT, "order": "after change"}) for q in rec_list() if json.dumps(q) not in done])
    groups.append([job("again", {"a": q, "b": q, "order": o}) for q in R.mix_recs(ALL_RECS) for o in ("interleaved", "load write twice", "after change")])
    # other variants of the same record before, sound and cut short
    for r in ALL_RECS:
        vs = [q for q in rec_list([r])]
        g = []
        for i, a in enumerate(vs):
            for b in (vs if not quick or r not in MANY else vs[i - 1:i] + vs[-1:]):
                if r == "foliage_instance" and quick and a != b:
                    continue
                if a != b and (a["variant"].split("/")[0], b["variant"].split("/")[0]) != ("noop", "noop"):
                    g.append(job("again", {"a": a, "b": b, "order": "sequence"}))
            if r != "dynamic_item" and (not quick or r not in MANY):
                for k, (size, at) in enumerate(marks(a)):
                    if size:
                        g.append(job("again", {"a": a, "b": a, "order": "after bad record", "index": k, "delta": at[-1] - size if at and at[-1] < size else -1}))
        groups.append(g)
    return spread(groups)


def command_jobs(prop, tier):
    """What a property says of the contents, for saves that go through the commands and files."""
    quick = tier == "quick"
    g = []

    def both(q, **k):
        g.append(job("both_ways", dict(k, file=q)))

    def show(q, **k):
        g.append(job("convert", dict(k, name="a.sav", content="sav", file=q)))

    def store(q, **k):
        g.append(job("convert", dict(k, name="a.json", content="json", file=q)))

    trees = [{"tree": t} for t in T.TREES]
    if prop == "C01":
        for q in trees:
            both(q)
            if not quick:
                both(q, minify=1)
                both(dict(q, shape={"*s": ["b", 2]}))
    elif prop in R.DOMAIN:
        for q in rec_list(R.DOMAIN[prop], 6 if quick else None):
            both(q)
            if not quick:
                both(dict(q, shape={"*s": ["b", 2], "*n": 2} if q["rec"] != "dynamic_item" else {"*s": ["b", 2]}))
    elif prop == "C05":
        for q in trees + list(rec_list(None, 2 if quick else None)):
            show(q, opts={"minify": "?"})
    elif prop == "C06":
        for q in rec_list(None, 2 if quick else None):
            store(q)
    elif prop == "C07":
        for q in trees:
            store(q)
    elif prop == "C08":
        for t in ("all_scalars", "player", "structs_props", "map_st_st", "names", "bytes5") if quick else T.TREES:
            for k in range(5, length({"tree": t}), 13 if quick else 1):
                g.append(job("convert", {"name": "a.sav", "content": "cut", "cut": k, "file": {"tree": t}}))
        for q in rec_list(None, 1):
            for k in (5, 6, 8, 9, 12, 20, 33, 60) if quick else range(5, 120):
                g.append(job("convert", {"name": "a.sav", "content": "cut", "cut": k, "file": q}))
    elif prop == "C09":
        for t in ("str", "name", "enum", "names", "enums", "map_name_int", "map_enum_bool", "freename", "freename_u"):
            for a in ALTS + [["u", 2]]:
                q = {"tree": t, "shape": {"*s": a}}
                both(q)
                show(q)
                store(q)
    elif prop == "C10":
        for t in ("int", "int64", "fixed", "float", "bool", "st_DateTime", "st_Vector", "st_Quat", "st_LinearColor", "all_scalars", "map_int_int"):
            q = {"tree": t}
            both(q)
            show(q, opts={"minify": "?"})
            store(q)
    elif prop == "C11":
        for q in trees + list(rec_list(None, 1 if quick else None)):
            if 0 < n_floats(q) <= 5:
                show(q, opts={"minify": "?", "nan": "?"})
    elif prop == "C12":
        for t in ("st_Guid", "sts_Guid", "guids", "map_st_st", "hint_camp"):
            for sh in ({}, {"*n": 3}, {"*o": 1}):
                q = {"tree": t, "shape": sh}
                both(q)
                show(q)
                store(q)
    return [x for x in g if not (x["params"]["file"].get("variant") or "").startswith("names/")]


def history_jobs(tier):
    quick = tier == "quick"
    g = []
    for r in ALL_RECS:
        for v in R.RECORDS[r][1][:1 if quick else 4]:
            q = {"rec": r, "variant": v}
            runs = [[{"file": q, "args": ["--custom-properties", "", "--minify-json"]}],
                    [{"file": INT, "args": ["--custom-properties", other_path(r), "--minify-json", "--convert-nan-to-null", "--force"]}],
                    [{"file": q, "args": ["--custom-properties", ""]}],
                    [{"file": q, "args": ["--custom-properties", other_path(r)]}],
                    [{"file": INT, "args": ["--custom-properties", real_paths(r)[0]]}],
                    [{"file": {"tree": "float"}, "args": ["--convert-nan-to-null", "--minify-json"]}],
                    [{"file": q, "content": "cut"}], [{"file": INT, "content": "json", "args": ["--to-json"]}],
                    [{"file": q, "content": "json"}], [{"file": {"tree": "float"}, "cmd": "resave"}]]
            k = ALL_RECS.index(r)
            g.append(job("history", {"file": q, "before": [], "lib": 1}))
            for i, b in enumerate(runs):
                if not quick or i < 4 or (i + k) % 3 == 0:
                    g.append(job("history", {"file": q, "before": b}))
            if not quick:
                g += [job("history", {"file": q, "before": a + b}) for a in runs[:5] for b in runs]
    # saves of other classes before
    for n in (8, 22, 32):
        for b in ([{"file": INT, "content": "json"}], [{"file": INT}, {"file": INT, "content": "json"}],
                  [{"file": INT, "cmd": "resave"}], [{"file": cls_file(32), "content": "json"}], [{"file": INT, "content": "json"}] * 3):
            g.append(job("history", {"file": cls_file(n), "before": b}))
    for n in (8, 32):
        g.append(job("history", {"file": INT, "before": [{"file": cls_file(n), "content": "json"}] * 2}))
    for t in ("float", "st_Vector", "all_scalars", "hint_camp"):
        q = {"tree": t}
        for b in ([{"file": q, "args": ["--convert-nan-to-null"]}], [{"file": q, "args": ["--custom-properties", ""]}],
                  [{"file": q, "cmd": "resave"}, {"file": q, "content": "cut"}]):
            g.append(job("history", {"file": q, "before": b}))
    return g


def scalars(t, path=()):
    if isinstance(t, dict):
        for k, v in t.items():
            yield from scalars(v, path + (k,))
    elif isinstance(t, (list, tuple)):
        for i, v in enumerate(t):
            yield from scalars(v, path + (i,))
    elif t is not None and not isinstance(t, bool):
        yield path, t


def resave_jobs(tier):
    quick = tier == "quick"
    g = []
    trees = ["int", "bool", "all_scalars", "player", "str", "names", "map_name_int", "st_Guid"] if quick else list(T.TREES)
    for t in trees:
        for st in (0x31, 0x32):
            g.append(job("resave", {"file": {"tree": t}, "stype": st}))
            g.append(job("resave", {"file": {"tree": t}, "stype": st, "cnk": 1}))
            for ex in ("same", "old", "other"):
                g.append(job("resave", {"file": {"tree": t}, "stype": st, "existing": ex}))
    for name in ODD + ["a.json", "a", "a.resave.sav", "a.sav.resave.json"]:
        g.append(job("resave", {"file": INT, "stype": 0x31, "name": name}))
    for n in (20, 22, 25, 28, 33):
        for st in (0x31, 0x32):
            g.append(job("resave", {"file": cls_file(n), "stype": st}))
    # bytes that may be anything, including ones that the tool does not keep
    for t in ("bool", "int", "st_Vector", "map_int_int", "names", "float") if quick else ("bool", "int", "st_Vector", "map_int_int", "names", "float", "str", "enums", "structs_props", "guids"):
        n = length({"tree": t})
        for k in range(-min(n, 60), 0, 1 if not quick else 2):
            g.append(job("resave", {"file": {"tree": t}, "stype": 0x32, "dirty": [k]}, paths=300, seconds=30))
    for name in (["free", 3, ".sav"], ["free", 4, ""], "a", "x.json", "x.resave.sav"):
        g.append(job("resave", {"file": INT, "stype": 0x32, "name": name}))
    for q in rec_list(None, 1 if quick else None):
        g.append(job("resave", {"file": q, "stype": 0x32}))
    for argv in ([], ["a.sav", "b.sav"], ["a.sav", "a.sav", "x"]):
        g.append(job("resave_usage", {"argv": argv}))
    return g


KEYS = ("reverse", "sorted", "noid")


def key_jobs(recs, tier):
    """JSON whose objects list their members in another order, or leave out null ids."""
    shs = [{}, {"*n": 2, "*o": 1}] if tier == "quick" else [{}, {"*n": 2, "*o": 1}, {"*n": 0}, {"*s": ["b", 1], "*n": 2}, {"*s": ["e", 0]}]
    g = []
    for q in (rec_list(recs) if recs else ({"tree": t} for t in T.TREES)):
        if str(q.get("variant")).startswith("names/"):
            continue
        for i, k in enumerate(KEYS):
            for sh in shs if q.get("rec") not in MANY else shs[:1]:
                if q.get("rec") == "dynamic_item":
                    sh = {x: y for x, y in sh.items() if x != "*n"}
                if k == "noid" and sh.get("*o"):
                    continue
                g.append(job("record" if "rec" in q else "tree", dict(q, mode="enc", keys=k, shape=sh)))
    if not recs:
        g += [job("tree", {"tree": "int", "mode": "enc", "header": "free", "trailer": 5, "keys": k, "shape": {"*n": 2}}) for k in KEYS]
    return g


def legacy_jobs(tier):
    return [job("record", {"rec": "work", "variant": w + "/-1", "mode": "enc", "shape": {"*n": n}})
            for w in R.WORK_BASE + ["Assign"] for n in (1, 2)]


def jobs(prop, tier, seed):
    quick = tier == "quick"
    budget = 400 if quick else 5400
    j = []
    if prop == "C01":
        j = spread([bulk_jobs("rt", tier), tree_jobs(["rt"], tier, seed, BOTH), place_jobs("rt", tier)])
    elif prop in R.DOMAIN:
        j = spread([record_jobs(R.DOMAIN[prop], ["rt"], tier, seed, BOTH), mix_jobs(R.DOMAIN[prop], "rt", tier)])
        if prop == "C04":
            j = spread([j, name_jobs("rt")])
    elif prop == "C05":
        j = spread([tree_jobs(["dec"], tier, seed), place_jobs("dec", tier), record_jobs(ALL_RECS, ["dec"], tier, seed), name_jobs("dec"), mix_jobs(ALL_RECS, "dec", tier)])
    elif prop == "C06":
        j = spread([record_jobs(ALL_RECS, ["enc"], tier, seed), name_jobs("enc"), legacy_jobs(tier), key_jobs(ALL_RECS, tier), turn_jobs(tier), mix_jobs(ALL_RECS, "enc", tier)])
    elif prop == "C07":
        j = spread([tree_jobs(["enc"], tier, seed), edit_jobs(tier), key_jobs(None, tier)])
    elif prop == "C08":
        j = damage_jobs(tier)
    elif prop == "C09":
        j = string_jobs(tier)
    elif prop == "C10":
        j = number_jobs(tier)
    elif prop == "C11":
        j = nan_jobs(tier)
    elif prop == "C12":
        j = guid_jobs(tier)
    elif prop == "C13":
        j = pack_jobs(tier)
    elif prop == "C14":
        j = cli_safety_jobs(tier)
    elif prop == "C15":
        j = cli_route_jobs(tier)
    elif prop == "C16":
        j = subset_jobs(tier)
    elif prop == "C17":
        j = spread([again_jobs(tier), history_jobs(tier)])
    elif prop == "C18":
        j = resave_jobs(tier)
    else:
        raise SystemExit("unknown property " + prop)
    j = spread([j, command_jobs(prop, tier)])
    # one worker serves one variant; keep each variant's jobs together
    j.sort(key=lambda x: x["variant"] != "stdlib")
    return j, budget


def bounds(prop, js):
    """What the jobs of this run let vary, and how far."""
    strs, counts, harn, var = set(), set(), {}, {}
    for j in js:
        harn[j["harness"]] = harn.get(j["harness"], 0) + 1
        var[j["variant"]] = var.get(j["variant"], 0) + 1
        for q in [j["params"]] + [x for x in j["params"].values() if isinstance(x, dict) and "shape" in x]:
            sh = q.get("shape") or {}
            for v in ([sh] if isinstance(sh, list) else sh.values()):
                if isinstance(v, list):
                    strs.add("%s%d" % tuple(v))
                elif isinstance(v, int):
                    counts.add(v)
    order = sorted(strs, key=lambda x: (x[0], int(x[1:])))
    return {
        "jobs_by_harness": harn, "jobs_by_uuid_implementation": var,
        "string_shapes": order,
        "string_shapes_mean": "kind and length: e empty, a every ASCII character free, L long ASCII with the ends free, "
                              "u every UTF-16 code unit free, b a mix of UTF-16 units outside ASCII free, U long UTF-16, T long ASCII with a free last UTF-16 unit",
        "element_counts": sorted(counts),
        "free": "within a shape every byte, number, flag, GUID and character of the input is one symbolic variable over its full range",
        "outside": "longer lists and strings, deeper nesting than the listed layouts; see DESIGN.md",
        "limits_per_job": {"paths": max((j["limits"]["paths"] for j in js), default=0),
                           "seconds": max((j["limits"]["seconds"] for j in js), default=0)},
    }


COMMON = [
    "Models of CPython built-ins (int, bytes, str, struct, io.BytesIO, base64, uuid, json, zlib, argparse, os.path, open) stand for "
    "the real ones; each path's witness is run on the real package and must agree (traces_validated_against_impl).",
    "Saves are well formed as the game writes them: booleans 0 or 1, strings NUL-terminated in the shorter fitting encoding, "
    "size fields true, property names distinct, NaN payloads canonical.",
]
MORE = {
    "C04": ["Packed vectors use the smallest bit count and doubles that the packing represents exactly."],
    "C05": ["The documented layout is the one of /verif/specs, written from the field names and order of the reader in the pinned commit."],
    "C06": ["Edited values lie in the range of their fields (C10 covers the others)."],
    "C08": ["Extra bytes of dynamic items do not form NaNs or complete items of another form."],
    "C10": ["Numbers inside packed vectors and rotations are excluded: their packing is lossy for arbitrary values."],
    "C11": ["Packed vectors and rotations are excluded; they are rebuilt from integers and cannot be non-finite."],
    "C12": ["Hashes are modelled as an uninterpreted function of the hashed value."],
    "C13": ["zlib is modelled as an opaque injective encoding whose streams end where they say; trailing bytes after the stream are not considered."],
    "C14": ["The file system is flat and writes do not fail."],
    "C15": ["zlib as in C13; file names use printable ASCII (and some listed others) without a slash and do not start with a dash."],
    "C18": ["zlib as in C13."],
}


def assumptions(prop):
    return COMMON + MORE.get(prop, [])
