"""Harnesses on the compressed container and the command line tools."""
import json
import struct
import zlib

from .build import B, Shape, fstring
from . import records as R
from . import tree as T
from .harness import harness, _build, leaves, TB, filled
from .direct import TAIL


def le(env, v, n=4):
    return env.low(v, n)


def container(env, data, stype, cnk=False):
    """A well-formed compressed save."""
    z1 = env.zip(data)
    z = env.zip(z1) if stype == 0x32 else z1
    c = []
    if cnk:
        c += le(env, 77) + le(env, 88) + [ord(x) for x in "CNK"] + [0x30]
    c += le(env, len(data)) + le(env, len(z1)) + [ord(x) for x in "PlZ"] + [stype]
    return env.bytes_of(c + list(env.cells_of(z)))


def unpack(env, sav):
    """(gvas, type) of a compressed save, or None if it is not well formed; independent of the tool."""
    c = env.cells_of(sav)
    if len(c) < 12 or any(type(x) is not int for x in c[:12]) or bytes(c[8:11]) != b"PlZ":
        return None
    t = c[11]
    ulen = int.from_bytes(bytes(c[:4]), "little")
    clen = int.from_bytes(bytes(c[4:8]), "little")
    if t not in (0x31, 0x32):
        return None
    body = env.bytes_of(c[12:])
    x, e = env.attempt(env.unzip, body)
    if e is not None:
        return None
    if t == 0x31:
        if clen != len(body):
            return None
    else:
        if clen != len(x):
            return None
        x, e = env.attempt(env.unzip, x)
        if e is not None:
            return None
    return (x, t) if len(x) == ulen else None


def payload(env, p):
    n = p["n"]
    k = min(n, p.get("free", 8))
    return env.bytes_of(env.cells(k, "d") + [(i * 7) & 255 for i in range(n - k)])


@harness
def pack_write(env, p):
    """p: n, type: what is compressed is a well-formed container of exactly that data."""
    m = env.mod("palworld_save_tools.palsav")
    d = payload(env, p)
    out, e = env.attempt(m.compress_gvas_to_sav, d, p["type"])
    if e is not None:
        return env.fail("data cannot be compressed", e)
    u = unpack(env, out)
    env.check("the container is well formed", u is not None)
    if u is not None:
        env.check("it has the asked type", u[1] == p["type"])
        env.check("it holds exactly the data", env.eq(u[0], d))
    r, e = env.attempt(m.decompress_sav_to_gvas, out)
    if e is not None:
        return env.fail("its own output is rejected", e)
    env.check("it reads back", env.all([env.eq(r[0], d), env.eq(r[1], p["type"])]))


@harness
def pack_read(env, p):
    """p: n, type, cnk: a well-formed container is read as the data and type it holds."""
    m = env.mod("palworld_save_tools.palsav")
    d = payload(env, p)
    sav = container(env, d, p["type"], p.get("cnk"))
    r, e = env.attempt(m.decompress_sav_to_gvas, sav)
    if e is not None:
        return env.fail("a well-formed save is rejected", e)
    env.check("the data and type come out", env.all([env.eq(r[0], d), env.eq(r[1], p["type"])]))


@harness
def pack_bad(env, p):
    """A container whose header may say anything: accepted only if it tells the truth.
    p: n, type (how the data is really packed), cnk, field: all | ulen | clen | magic | type."""
    m = env.mod("palworld_save_tools.palsav")
    d = payload(env, p)
    z1 = env.zip(d)
    z = env.zip(z1) if p["type"] == 0x32 else z1
    f = p["field"]
    true = {"ulen": len(d), "clen": len(z1)}
    h = []
    conds = []
    for k in ("ulen", "clen"):
        if f in ("all", k):
            delta = env.integer(4, False, k)
            h += le(env, delta + true[k])
            conds.append(delta == 0)
        else:
            h += le(env, true[k])
    magic = env.cells(3, "magic") if f in ("all", "magic") else [ord(x) for x in "PlZ"]
    if f in ("all", "magic"):
        conds.append(env.eq(env.bytes_of(magic), b"PlZ"))
        if p.get("cnk"):
            conds[-1] = env.eq(env.bytes_of(magic), b"PlZ")
        else:
            # "CNK" here moves the header; that layout is a case of its own
            env.assume(env.no(env.eq(env.bytes_of(magic), b"CNK")))
    h += magic
    t = env.cells(1, "type") if f in ("all", "type") else [p["type"]]
    if f in ("all", "type"):
        conds.append(env.int_of(t) == p["type"])
    h += t
    if p.get("cnk"):
        h = env.cells(8, "chunk") + [ord(x) for x in "CNK"] + env.cells(1, "chunktype") + h
    sav = env.bytes_of(h + list(env.cells_of(z)))
    r, e = env.attempt(m.decompress_sav_to_gvas, sav)
    env.observe("refused", e is not None)
    ok = env.all(conds)
    once = False
    if p["type"] == 0x32:
        # data packed twice is also a sound save, packed once, of data that is itself compressed
        k = len(h) - 12
        once = env.all([env.int_of(h[k:k + 4]) == len(z1), env.int_of(h[k + 4:k + 8]) == len(z),
                        env.eq(env.bytes_of(h[k + 8:k + 12]), b"PlZ1")])
    if e is not None:
        env.check("a truthful header is accepted", env.no(env.any([ok, once])))
    else:
        env.check("a false header is refused", env.any([ok, once]))
        env.check("the data comes out", env.any([env.all([ok, env.eq(r[0], d)]), env.all([once, env.eq(r[0], z1)])]))


@harness
def pack_foreign(env, p):
    """A sound container after a header of another kind: refused.  p: n, type."""
    m = env.mod("palworld_save_tools.palsav")
    d = payload(env, p)
    h = env.cells(12, "header")
    magic = env.bytes_of(h[8:11])
    env.assume(env.no(env.any([env.eq(magic, b"PlZ"), env.eq(magic, b"CNK")])))
    sav = env.bytes_of(h + list(env.cells_of(container(env, d, p["type"]))))
    r, e = env.attempt(m.decompress_sav_to_gvas, sav)
    env.check("a save of another kind is refused", e is not None)


@harness
def pack_cut(env, p):
    """p: n, type, cnk, keep: a container cut short is refused."""
    m = env.mod("palworld_save_tools.palsav")
    d = payload(env, p)
    sav = container(env, d, p["type"], p.get("cnk"))
    k = p["keep"]
    if k >= len(sav):
        return env.check("nothing is cut", True)
    r, e = env.attempt(m.decompress_sav_to_gvas, sav[:k])
    env.check("a cut-off save is refused", e is not None)


@harness
def gvas_header(env, p):
    """Only what says it is a version 3 GVAS file is read as one.  p: field."""
    want, wire = _build(env, {"tree": "int"})
    c = list(env.cells_of(wire))
    h = want["header"]
    at = {"magic": 0, "version": 4}.get(p["field"])
    if at is None:
        at = 26 + 4 + len(h["engine_version_branch"]) + 1
    true = env.bytes_of(c[at:at + 4])
    new = env.cells(4, "field")
    c[at:at + 4] = new
    G = env.mod("palworld_save_tools.gvas").GvasFile
    g, e = env.attempt(G.read, env.bytes_of(c))
    env.observe("refused", e is not None)
    same_ = env.eq(env.bytes_of(new), true)
    if e is not None:
        env.check("a right header is accepted", env.no(same_))
    else:
        env.check("a wrong header is refused", same_)


# ------------------------------------------------------------------- commands
def mkname(env, spec):
    """A file name: fixed, or ["free", n, suffix]."""
    if isinstance(spec, str):
        return spec
    _, n, suffix = spec
    codes = []
    for i in range(n):
        c = env.chr_of(env.bits(7, "name"))
        env.assume(env.all([c >= 32, c <= 126, env.no(c == 47)] + ([] if i else [env.no(c == 45)])))
        codes.append(c)
    if n + len(suffix) < 3:
        raise ValueError("name too short")
    s = env.str_of(codes + [ord(x) for x in suffix])
    if 5 <= n + len(suffix) <= 7:      # without the suffix nothing, "." or ".." is left of it
        env.assume(env.no(env.eq(s, "." * (n + len(suffix) - 5) + ".json")))
    return s


def chop(env, s, n):
    return s[:len(s) - n]


def eqs(env, a, b):
    return env.branch(env.eq(a, b))


CONVERT = "palworld_save_tools.commands.convert"


def earlier(q, to, indent=None, seed=5):
    """What a conversion of another save of the same kind would have left behind."""
    w, x = filled(q, seed)
    if to:
        return json.dumps(w, indent=indent).encode()
    return bytes(cenv_container(x))


def cenv_container(x):
    z = zlib.compress(zlib.compress(x))
    return struct.pack("<II", len(x), len(zlib.compress(x))) + b"PlZ2" + z


@harness
def convert(env, p):
    """One run of the converter.  p: name, out, content, opts{to,from,force,minify,nan}: 0|1|"?",
    exists: 0|1|"?", was: what an existing output holds, replies: [lengths], input: file|missing|dir, file: what is in the save, stype."""
    def flag(k, v):
        return env.branch(env.flag(k)) if v == "?" else bool(v)

    o = p.get("opts", {})
    want, wire = _build(env, p["file"])
    name = mkname(env, p["name"])
    out = mkname(env, p["out"]) if p.get("out") else None
    tj, fj = flag("to", o.get("to", 0)), flag("from", o.get("from", 0))
    force, minify = flag("force", o.get("force", 0)), flag("minify", o.get("minify", 0))
    nan = flag("nan", o.get("nan", 0))
    replies = []
    for n in p.get("replies", []):
        replies.append(env.str_of([env.chr_of(env.bits(7, "reply")) for _ in range(n)]))
    env.fs(list(replies))
    stype = p.get("stype", 0x32)
    content = p["content"]
    kind = p.get("input", "file")
    if kind == "file":
        if content == "sav":
            env.fs_put(name, container(env, wire, stype, p.get("cnk")))
        elif content == "json":
            env.fs_json(name, env.copy(want))
        elif content == "cut":       # a damaged save in a sound container
            env.fs_put(name, container(env, wire[:len(wire) - p.get("cut", 14)], stype))
        elif content == "tampered":  # a record with some of its bytes gone (or more of them)
            f = p["file"]
            b = TB(env, Shape(f.get("shape")), {"seen": 0, "index": p["index"], "delta": p["delta"], "nonan": True})
            R.RECORDS[f["rec"]][0](b, f["variant"])
            env.fs_put(name, container(env, b.wire(), stype))
        elif content == "badleaf":   # one value of a kind that cannot stand there
            t = env.copy(want)
            put(t, p["at"], p["bad"])
            env.fs_json(name, t)
        elif content == "nojson":
            env.fs_json(name, dict(env.copy(want), properties={"X": {"type": "NopeProperty", "value": 1, "id": None}}))
        else:
            env.fs_put(name, content.encode())
    elif kind == "dir":
        env.fs_dir(name)
    before_in = env.fs_get(name)
    env.fs_put("bystander.sav.json", b"keep me")

    # what the documentation says
    sav = env.branch(env.call(name.endswith, ".sav"))
    json_ = env.branch(env.call(name.endswith, ".json"))
    to = tj or (not fj and sav)
    frm = fj or (not tj and json_)
    wrong = (tj and fj) or kind != "file"
    target = None
    if not wrong and (to or frm):
        target = out if out is not None else (name + ".json" if to else chop(env, name, 5) if json_ else name)
    env.assume(env.no(env.eq(name, "bystander.sav.json")))
    old = None
    onto_input = target is not None and eqs(env, target, name)
    if target is not None:
        env.assume(env.no(env.eq(target, "bystander.sav.json")))
        if onto_input:
            old = before_in
        elif flag("exists", p.get("exists", 0)):
            old = {"empty": b"", "zero": bytes(1), "json": b"{}"}.get(p.get("was"), b"old output")
            if p.get("was") == "other":
                old = earlier(p["file"], to)
            env.fs_put(target, old)
    # files beside the output and the input, named as scratch and backup files would be
    others = []
    for suf in p.get("beside", []):
        for base in (target, name):
            if base is not None:
                x = env.call(base.removesuffix, suf[1:]) if suf[0] == "-" else base + suf
                if all(not eqs(env, x, y) for y in [name, target if target is not None else name] + [o for o, _ in others]):
                    others.append((x, b"mine " + suf.encode()))
                    env.fs_put(x, others[-1][1])
    argv = []
    if p.get("first"):
        argv.append(name)
    argv += ["--to-json"] * tj + ["--from-json"] * fj + ["--force" if not p.get("short") else "-f"] * force
    argv += ["--minify-json"] * minify + ["--convert-nan-to-null"] * nan
    if out is not None:
        argv += ["-o" if p.get("short") else "--output", out]
    if "custom" in p:
        argv += ["--custom-properties", p["custom"]]
    if not p.get("first"):
        argv.append(name)
    status, e = env.main(CONVERT, argv)
    ok = e is None and env.branch(env.eq(status, 0))
    env.observe("status", "fails" if not ok else 0)
    asked = env.prompts
    env.observe("asked", asked)

    def untouched(extra=()):
        env.check("the input is left alone", same(env, env.fs_get(name), before_in))
        env.check("other files are left alone", same(env, env.fs_get("bystander.sav.json"), b"keep me"))
        for x, d in others:
            env.check("other files are left alone", same(env, env.fs_get(x), d))
        want_n = 1 + len(others) + (kind != "missing") + (old is not None and not onto_input) + len(extra)
        env.check("no other files appear or vanish", len(env.fs_names()) == want_n)

    def keeps():
        untouched()
        if target is not None:
            env.check("an existing output is left as it was", same(env, env.fs_get(target), old))

    if wrong:
        env.check("refused with a non-zero status", not ok)
        env.check("nothing is asked", asked == 0)
        keeps()
        return
    if target is None:
        keeps()
        return
    if old is not None and not force:
        verdict = None
        used = 0
        for r in replies:
            used += 1
            low = env.call(r.casefold)
            if eqs(env, low, "y"):
                verdict = True
                break
            if eqs(env, low, "n"):
                verdict = False
                break
        if verdict is None:
            env.check("no answer: nothing is converted", not ok)
            keeps()
            return
        env.check("asked until answered, and no more", asked == used)
        if not verdict:
            env.check("declined: non-zero status", not ok)
            keeps()
            return
    else:
        env.check("nothing is asked", asked == 0)
    if content in ("tampered", "badleaf"):       # refused, or kept (see C08)
        if not ok:
            keeps()
        elif old is None:
            untouched((target,))
        else:
            untouched()
        return
    good = content == ("sav" if to else "json")
    if not good:
        env.check("a bad input is refused", not ok)
        keeps()
        return
    if not ok:
        env.fail("a good input is not converted", e)
        return
    got = env.fs_get(target)
    env.check("the output is there", got is not None)
    if got is None:
        return
    if onto_input:
        env.check("other files are left alone", same(env, env.fs_get("bystander.sav.json"), b"keep me"))
        for x, d in others:
            env.check("other files are left alone", same(env, env.fs_get(x), d))
        env.check("no other files appear or vanish", len(env.fs_names()) == 2 + len(others))
    else:
        untouched(() if old is not None else (target,))
    if to:
        t = env.fs_tree(got)
        env.check("the output is JSON", t is not None)
        if t is None:
            return
        goal = env.copy(want)
        if nan:
            for at in leaves(want, "float", skip=()):
                x = fetch(want, at)
                if not env.branch(env.isfinite(x)):
                    put(goal, at, None)
        if "custom" in p:
            sel = p["selected"]
            seen = customs(t)
            env.check("exactly the chosen properties are decoded", seen == set(sel))
        else:
            env.check("the JSON shows the save", env.eq(t, goal))
        if not env.sym and minify:
            env.check("minified", b"\n" not in got and b"\t" not in got)
    else:
        u = unpack(env, got)
        env.check("the output is a well-formed save", u is not None)
        if u is None:
            return
        env.check("it holds the edited contents", env.eq(u[0], wire))
        cls = want["header"]["save_game_class_name"]
        world = env.any([env.contains(cls, "Pal.PalWorldSaveGame"), env.contains(cls, "Pal.PalLocalWorldSaveGame")])
        env.check("world saves are packed twice, others once", env.eq(u[1] == 0x32, world))


def fetch(t, path):
    for k in path:
        t = t[k]
    return t


def put(t, path, v):
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v


def customs(t, out=None):
    out = set() if out is None else out
    if isinstance(t, dict):
        if "custom_type" in t:
            out.add(t["custom_type"])
        for v in t.values():
            customs(v, out)
    elif isinstance(t, (list, tuple)):
        for v in t:
            customs(v, out)
    return out


def same(env, a, b):
    if a is None or b is None:
        return a is b
    return env.fs_same(a, b)


@harness
def both_ways(env, p):
    """sav -> JSON -> sav with the commands gives the same save.  p: file, stype, custom, minify."""
    want, wire = _build(env, p["file"])
    env.fs([])
    sav = container(env, wire, p.get("stype", 0x32))
    env.fs_put("a.sav", sav)
    extra = ["--minify-json"] if p.get("minify") else []
    if "custom" in p:
        extra += ["--custom-properties", p["custom"]]
    s, e = env.main(CONVERT, extra + ["a.sav"])
    if e is not None or s != 0:
        return env.fail("a save is not converted to JSON", e)
    s, e = env.main(CONVERT, ["-o", "b.sav", "a.sav.json"])
    if e is not None or s != 0:
        return env.fail("the JSON is not converted back", e)
    got = env.fs_get("b.sav")
    u = unpack(env, got) if got is not None else None
    env.check("a well-formed save comes back", u is not None)
    if u is not None:
        env.check("with the same contents", env.eq(u[0], wire))
    env.check("the original is untouched", same(env, env.fs_get("a.sav"), sav))


@harness
def history(env, p):
    """A conversion by the commands after other runs of the commands in the same process.
    p: file, before: [{file, cmd, args, content}]."""
    want, wire = _build(env, p["file"])
    env.fs(["n"] * 8)
    for i, st in enumerate(p["before"]):
        name = "before%d.sav" % i
        w0, x0 = _build(env, st["file"])
        c = st.get("content", "sav")
        if c == "json":
            name += ".json"
            env.fs_json(name, env.copy(w0))
        else:
            env.fs_put(name, container(env, x0[:len(x0) - 14] if c == "cut" else x0, 0x32))
        env.main(RESAVE if st.get("cmd") == "resave" else CONVERT, list(st.get("args", [])) + [name])
    sav = container(env, wire, 0x31)
    env.fs_put("a.sav", sav)

    def run(func, argv, args):
        """By the command, or by its function in a program that uses it as a library."""
        if p.get("lib") and hasattr(env.mod(CONVERT), func):
            s, e = env.main(CONVERT, args, func)
            if not (isinstance(e, TypeError) and "argument" in str(e)):
                return s, e
        return env.main(CONVERT, argv)

    if p.get("lib"):
        run("convert_sav_to_json", ["-o", "x.json", "a.sav"], ["a.sav", "x.json"])
    s, e = run("convert_sav_to_json", ["a.sav"], ["a.sav", "a.sav.json"])
    if e is not None or s != 0:
        return env.fail("a save is not converted to JSON", e)
    t = env.fs_tree(env.fs_get("a.sav.json"))
    env.check("the JSON shows the save", t is not None and env.eq(t, want))
    env.fs_json("c.json", env.copy(want))
    s, e = run("convert_json_to_sav", ["-o", "b.sav", "c.json"], ["c.json", "b.sav"])
    if e is not None or s != 0:
        return env.fail("JSON is not converted back", e)
    u = unpack(env, env.fs_get("b.sav"))
    env.check("a well-formed save comes back", u is not None)
    if u is not None:
        env.check("with the same contents", env.eq(u[0], wire))
        cls = want["header"]["save_game_class_name"]
        world = env.any([env.contains(cls, "Pal.PalWorldSaveGame"), env.contains(cls, "Pal.PalLocalWorldSaveGame")])
        env.check("world saves are packed twice, others once", env.eq(u[1] == 0x32, world))


RESAVE = "palworld_save_tools.commands.resave_test"


@harness
def resave(env, p):
    """The resave check says "same" exactly when the resaved file has the same contents.
    p: file, stype, class, dirty: which byte may be anything, existing."""
    q = p["file"]
    want, wire = _build(env, q)
    c = list(env.cells_of(wire))
    for k in p.get("dirty", []):      # bytes that the tool does not keep as they are
        c[k] = env.cells(1, "dirty")[0]
    data = env.bytes_of(c)
    name = mkname(env, p.get("name", "a.sav"))
    env.fs(["y"] * 4 if p.get("existing") else [])
    sav = container(env, data, p["stype"], p.get("cnk"))
    env.fs_put(name, sav)
    if p.get("existing"):
        other = p["existing"] == "other"
        env.fs_put(name + ".resave.sav", sav if p["existing"] == "same" else earlier(q, 0) if other else b"old")
        env.fs_put(name + ".resave.json", earlier(q, 1) if other else b"old")
    status, e = env.main(RESAVE, [name])
    ok = e is None and env.branch(env.eq(status, 0))
    env.observe("ok", ok)
    env.check("the save itself is untouched", same(env, env.fs_get(name), sav))
    if e is not None:
        # it could not be converted at all; never the case for a well-formed save
        env.check("only a save that cannot be converted ends in an error", len(p.get("dirty", [])) > 0)
        return
    got = env.fs_get(name + ".resave.sav")
    env.check("the resaved file is there", got is not None)
    if got is None:
        return
    u = unpack(env, got)
    env.check("the resaved file is well formed", u is not None)
    if u is None:
        return
    equal = env.all([env.eq(u[0], data), u[1] == p["stype"]])
    env.check("success is reported exactly when the contents are the same", env.eq(ok, equal))
    if not p.get("dirty"):
        cls = want["header"]["save_game_class_name"]
        world = env.any([env.contains(cls, "Pal.PalWorldSaveGame"), env.contains(cls, "Pal.PalLocalWorldSaveGame")])
        env.check("a well-formed save packed as its class says is found the same", env.eq(ok, env.eq(p["stype"] == 0x32, world)))


@harness
def resave_usage(env, p):
    env.fs([])
    env.fs_put("a.sav", b"x")
    status, e = env.main(RESAVE, p["argv"])
    env.check("wrong usage is refused", e is not None or status != 0)
    env.check("nothing is written", len(env.fs_names()) == 1)
