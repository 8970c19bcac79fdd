"""C07: written level files are well formed for the game."""
import os

from dustmaker import DFWriter
from dustmaker import entity as E
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.dfreader import read_level
from dustmaker.tile import TileSide, TileSpriteSet

from ..core import REPO, Workload
from .. import dm, gen, lvl, refcodec, streams

PID = "C07"
RULE = ("levels as for C06, plus levels aimed at region and segment borders (pixel positions just left of, on and right of each "
        "border, fractional and negative), at filth totals and at ids; the produced bytes are decoded by an independent decoder "
        "that checks every length, offset, count, order, place and total; non-trivial: the file has at least one region; distinct "
        "by file bytes")
REQUIRED = {"big_levels": 60, "files_decoded": 2000, "regions": 4000, "segments": 10000, "objects_placed": 10000, "negative_places": 3000, "filthy_segments": 500, "unfit_tiles": 250, "unfit_objects": 800, "crowded_segments": 4, "reordered": 300, "over_older_content": 800}
ASSUMPTIONS = ["the position of a prop is the whole-pixel position the format stores"]


class VfEnemy(E.Enemy):
    TYPE_IDENTIFIER = "vf_enemy"
    FILTH = 7


class VfMany(E.Enemy):
    TYPE_IDENTIFIER = "vf_many"
    FILTH = 1234


class VfNone(E.EnemyBear):
    TYPE_IDENTIFIER = "vf_none"
    FILTH = 0


class VfEnemyChild(E.EnemyBear):
    TYPE_IDENTIFIER = "vf_bear"


FILTH = dict(gen.FILTH, vf_enemy=7, vf_bear=9, vf_many=1234, vf_none=0)
MINE = {c.TYPE_IDENTIFIER: c for c in (VfEnemy, VfEnemyChild, VfMany, VfNone)}


def validate(ctx, data, start, m, lv):
    """Every structural claim of the property on one produced file."""
    f = refcodec.dec_level(data, start)
    ctx.count("files_decoded")
    end = f["end"]
    ctx.equal(f["size"], len(data) - start, "file size in the header")
    ctx.equal(end, len(data) - start, "end of the last region")
    ctx.equal(f["version"], 44, "level version")
    ctx.equal((f["mver"], f["moff"]), (4, 0), "metadata version and offset")
    ctx.equal(f["sshot"], m["sshot"], "thumbnail")
    ctx.equal(len(f["regions"]), f["nregions"], "region count")
    ctx.equal([r["off"] for r in f["regions"]], f["dir"], "region directory against actual region offsets")
    keys = [(r["x"] & 0xffff, r["y"] & 0xffff) for r in f["regions"]]
    ctx.equal(keys, sorted(set(keys)), "regions in ascending unsigned (x, y) order, each once")
    seen = {"tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}

    def put(kind, key, val):
        ctx.check(key not in seen[kind], "%s %r stored twice" % (kind, key))
        seen[kind][key] = val
        ctx.count("objects_placed")

    for r in f["regions"]:
        ctx.count("regions")
        ctx.equal(r["ver"], 14, "region version")
        ctx.equal(r["ulen"], r["actual_ulen"], "uncompressed length of region (%d, %d)" % (r["x"], r["y"]))
        ctx.equal(r["zunused"], 0, "bytes after the compressed stream of region (%d, %d)" % (r["x"], r["y"]))
        ctx.equal(r["consumed"], r["actual_ulen"], "segments fill region (%d, %d)" % (r["x"], r["y"]))
        segs = [(s["sx"], s["sy"]) for s in r["segments"] if not s["is_backdrop"]]
        ctx.equal(len(segs), len(set(segs)), "segment coordinates in a region are distinct", segs)
        for s in r["segments"]:
            ctx.count("segments")
            ctx.check(s["sx"] < 16 and s["sy"] < 16, "segment coordinates", s["sx"], s["sy"])
            ctx.check(s["body_end"] <= s["pos"] + 8 * s["size"], "segment length covers its content")
            ctx.equal((s["version"], s["width"]), (8, 16), "segment version and width")
            if "names_pos" in s:
                ctx.check(s["names_pos"] >= s["body_end"] and s["names_end"] <= s["pos"] + 8 * s["size"] - 32,
                          "extended names lie between the content and the end of the segment")
            b = s["is_backdrop"]
            n = 16 if b else 256
            ox, oy = r["x"] * n + s["sx"] * 16, r["y"] * n + s["sy"] * 16
            dust = enemy = block = 0
            rows = [(layer, y, x) for layer, x, y, _ in s["tiles"]]
            ctx.check(rows == sorted(rows), "tiles of a segment by layer, row and column", rows[:5])
            for layer, x, y, t in s["tiles"]:
                ctx.check(x < 16 and y < 16, "tile offset within its segment", x, y)
                put("btiles" if b else "tiles", (layer, ox + x, oy + y), t)
                if layer == 19:
                    dust += sum(1 for e in t["edges"] if e["fset"] and not e["spike"])
                    block += gen.DUSTBLOCK.get(t["set"]) == t["tile"]
            ctx.equal(len(s["dust"]), len(set(s["dust"])), "filth entries of a segment are distinct")
            px = 48 if not b else 768
            for p in s["props"]:
                ctx.check(p is not None, "no emptied prop slots")
                put("bprops" if b else "props", p["id"], p)
                x0, y0 = (r["x"] * 256 * 48, r["y"] * 256 * 48) if b else (ox * 48, oy * 48)
                w = 256 * 48 if b else 16 * 48
                ctx.check(x0 <= p["x"] < x0 + w and y0 <= p["y"] < y0 + w,
                          "%sprop %d at (%s, %s) is stored in the area [%d, %d) x [%d, %d)" % ("backdrop " if b else "", p["id"], p["x"], p["y"], x0, x0 + w, y0, y0 + w))
                if p["x"] < 0 or p["y"] < 0:
                    ctx.count("negative_places")
            for e in s["entities"]:
                ctx.check(e is not None, "no emptied entity slots")
                ctx.check(not b, "entities only in ordinary segments")
                put("entities", e["id"], e)
                ctx.check(ox * 48 <= e["x"] < (ox + 16) * 48 and oy * 48 <= e["y"] < (oy + 16) * 48,
                          "entity %d at (%s, %s) is stored in the segment at (%d, %d) px" % (e["id"], float(e["x"]), float(e["y"]), ox * 48, oy * 48))
                if e["x"] < 0 or e["y"] < 0:
                    ctx.count("negative_places")
                enemy += FILTH.get(e["type"], 0)
            if dust or enemy or block:
                ctx.count("filthy_segments")
            tot = s["totals"]
            ctx.equal((tot["dust"], tot["enemy"], tot["dustblock"]), (dust, enemy, block),
                      "filth totals (dust, enemy, dustblock) of segment (%d, %d) of region (%d, %d)" % (s["sx"], s["sy"], r["x"], r["y"]))
    for kind in seen:
        ctx.equal(sorted(seen[kind]), sorted(m[kind]), "%s stored" % kind)
    # the stored objects are the right ones
    lvl.cmp_tiles(ctx, seen["tiles"], m["tiles"], "stored")
    lvl.cmp_tiles(ctx, seen["btiles"], m["btiles"], "stored (backdrop)")
    lvl.cmp_props(ctx, seen["props"], m["props"], "stored", exact=False)
    lvl.cmp_props(ctx, seen["bprops"], m["bprops"], "stored (backdrop)", exact=False)
    lvl.cmp_entities(ctx, seen["entities"], m["entities"], "stored")
    lvl.cmp_vars(ctx, f["vars"], m["vars"], "stored level variables")
    ids = [*m["props"], *m["entities"], *m["bprops"]]
    ctx.check(f["nextid"] > max(ids, default=0), "recorded next id %d exceeds every id in use (%d)" % (f["nextid"], max(ids, default=0)))
    if f["regions"]:
        ctx.seen(data[start:])
    return f


def run(ctx, m):
    rng = ctx.rng
    bare = dm.drop_backdrop(ctx, m)
    lv = dm.to_level(m, rng)
    if bare:
        lv.backdrop = None
    pre = bytes(rng.choice([0, 0, 5]))
    data = dm.write_level_bytes(lv, pre)
    ctx.equal(data[:len(pre)], pre, "bytes before the level")
    if rng.random() < 0.2:
        for part in (lv, lv.backdrop):
            if part is not None:
                items = list(part.tiles.items())
                rng.shuffle(items)
                part.tiles = dict(items)
        ctx.equal(dm.write_level_bytes(lv, pre), data, "the same tiles put in place in another order")
        ctx.count("reordered")
    if rng.random() < 0.4:
        def write(buf):
            with DFWriter(buf, noclose=True) as w:
                w.write_level(lv)
        streams.over(ctx, pre, data[len(pre):], write, "a level")
    return validate(ctx, data, len(pre), m, lv)


def levels(ctx):
    m = gen.level(ctx.rng, frac=ctx.rng.choice([1, 4]))
    ctx.sample(gen.describe(m))
    run(ctx, m)


def border(rng, unit):
    """A pixel coordinate next to a border of the given unit."""
    k = rng.choice([0, 0, -1, 1, -2, 2, -16, 16, -17, rng.randrange(-300, 300)])
    d = rng.choice([0, 0.0, -1, 1, -0.5, 0.5, -1 / 128, 1 / 128, -47, 47, -48, -0.25, 0.75])
    return float(k * unit + d)


def borders(ctx):
    rng = ctx.rng
    m = gen.level(rng, size=0.2)
    up, ue = set(m["props"]) | set(m["bprops"]), set(m["entities"])
    unit = rng.choice([48, 768, 12288, 12288])
    for _ in range(12):
        m["props"][gen.ident(rng, up)] = gen.prop(rng, x=border(rng, unit), y=border(rng, unit))
        m["entities"][gen.ident(rng, ue)] = gen.entity(rng, x=border(rng, unit), y=border(rng, unit))
    for _ in range(3):
        m["bprops"][gen.ident(rng, up)] = gen.prop(rng, x=border(rng, unit), y=border(rng, unit))
        m["btiles"][(rng.randrange(21), rng.randrange(-40, 40), rng.choice([-17, -16, -1, 0, 15, 16]))] = gen.tile(rng, 0.0)
    ctx.sample([(e["x"], e["y"]) for e in m["entities"].values()][:4])
    run(ctx, m)


def filth(ctx):
    rng = ctx.rng
    m = gen.level(rng, size=0.5, spread=20)
    used = set(m["entities"])
    names = list(FILTH)
    for _ in range(15):
        m["tiles"][(rng.choice([19, 19, 19, 18, 20]), rng.randrange(-20, 20), rng.randrange(-20, 20))] = gen.tile(rng, 0.7)
    lv = dm.to_level(m)
    for _ in range(20):
        t = rng.choice(names)
        e = gen.entity(rng, 20, type_=t)
        i = gen.ident(rng, used)
        m["entities"][i] = e
        if t.startswith("vf_"):
            cls = MINE[t]
            lv.add_entity(e["x"], e["y"], cls(dm.to_map(e["vars"]), e["rot"], e["layer"], e["fx"], e["fy"], e["visible"]), i)
        else:
            lv.add_entity(e["x"], e["y"], dm.to_entity(e), i)
    validate(ctx, dm.write_level_bytes(lv), 0, m, lv)


def filth_enum(ctx):
    """One enemy (or dustblock) of each type alone in its segment."""
    rng = ctx.rng
    m = gen.level(rng, size=0)
    m["props"], m["entities"], m["btiles"], m["bprops"], m["tiles"] = {}, {}, {}, {}, {}
    for i, t in enumerate(gen.TYPES):
        m["entities"][200 + i] = gen.entity(rng, type_=t, x=768.0 * i - 9000, y=-3.0)
    for s in range(8):
        for j, v in enumerate([gen.DUSTBLOCK.get(s, 0), 0, 255, *gen.DUSTBLOCK.values()]):
            t = gen.tile(rng, 0.3)
            t["set"], t["tile"], t["palette"] = s, v, rng.randrange(16)
            m["tiles"][(19, s * 16, j * 16)] = t
            m["tiles"][(18, s * 16, j * 16)] = t
    run(ctx, m)


def ids(ctx):
    """Next id with automatic and explicit ids, removals and reloads."""
    rng = ctx.rng
    m = gen.level(rng, size=0.5)
    for kind in ("props", "entities", "bprops"):  # leave room for new ids below 2**31
        m[kind] = {i: o for i, o in m[kind].items() if i < 2**31 - 100}
    lv = dm.to_level(m, rng)
    for _ in range(rng.randrange(6)):
        p, e = gen.prop(rng), gen.entity(rng)
        r = rng.random()
        if r < 0.3:
            m["props"][lv.add_prop(p["layer"], p["x"], p["y"], dm.to_prop(p))] = p
        elif r < 0.6:
            m["entities"][lv.add_entity(e["x"], e["y"], dm.to_entity(e))] = e
        elif r < 0.8:
            m["bprops"][lv.backdrop.add_prop(p["layer"], p["x"], p["y"], dm.to_prop(p))] = p
        elif m["props"]:
            k = rng.choice(sorted(m["props"]))
            del m["props"][k], lv.props[k]
        if rng.random() < 0.2:
            lv = dm.read_level_bytes(dm.write_level_bytes(lv))
    if rng.random() < 0.3:
        p, e, r = gen.prop(rng), gen.entity(rng), rng.random()
        # put in place directly, past the adders
        top = max([100, *lv.props, *lv.entities, *lv.backdrop.props])
        i = top + rng.choice([1, 2, 1000]) if top < 2**31 - 2000 else rng.choice([7, 3000])
        if i not in {*lv.props, *lv.entities, *lv.backdrop.props}:
            if r < 0.4:
                lv.props[i] = (p["layer"], p["x"], p["y"], dm.to_prop(p))
            elif r < 0.8:
                lv.entities[i] = (e["x"], e["y"], dm.to_entity(e))
            else:
                lv.backdrop.props[i] = (p["layer"], p["x"], p["y"], dm.to_prop(p))
            ctx.count("placed_directly")
    # positions went through the format, compare with what is there now
    m2 = dm.from_level(lv)
    validate(ctx, dm.write_level_bytes(lv), 0, m2, lv)


def real(ctx):
    lv = read_level(streams.getbytes(os.path.join(REPO, "tests", "downhill")))
    rng = ctx.rng
    if ctx.index:
        lv.translate(48 * rng.randrange(-400, 400), 48 * rng.randrange(-400, 400))
        if rng.random() < 0.5:
            lv.flip_horizontal()
    validate(ctx, dm.write_level_bytes(lv), 0, dm.from_level(lv), lv)


def unfit(ctx):
    """Tile data that does not fit its field: an error, not a damaged neighbour."""
    rng = ctx.rng
    m = gen.level(rng, size=0.3)
    lv = dm.to_level(m)
    good = dm.write_level_bytes(lv)
    what = ["angles", "filth_angles", "sprite_tile", "sprite_palette"][ctx.index % 4]
    key = (19, rng.randrange(-20, 20), rng.randrange(-20, 20))
    old = lv.tiles.get(key)
    t = dm.to_tile(gen.tile(rng, 0.5))
    bad = rng.choice([128, 180, 255, 256, -129, -180, -256, 1000])
    if what == "sprite_tile":
        t.sprite_tile = rng.choice([256, 1000, -1])
    elif what == "sprite_palette":
        t.sprite_palette = rng.choice([16, 255, -1])
    else:
        side = rng.choice(list(TileSide))
        pair = [rng.choice([0, 45, -128, 127]), bad]
        rng.shuffle(pair)
        t.edge_data[side].filth_sprite_set = TileSpriteSet(rng.randrange(1, 7))
        setattr(t.edge_data[side], what, tuple(pair))
    lv.tiles[key] = t
    ctx.raises(Exception, lambda: dm.write_level_bytes(lv), "tile with an unfit %s" % what, bad)
    if old is None:
        del lv.tiles[key]
    else:
        lv.tiles[key] = old
    if old is None:
        ctx.equal(dm.write_level_bytes(lv), good, "level without the unfit tile")
    ctx.count("unfit_tiles")
    ctx.seen((what, key, bad))


PROP_FIELDS = {"layer_sub": 8, "rotation": 16, "prop_set": 8, "prop_group": 12, "prop_index": 12, "palette": 8}


def misfit(ctx):
    """Props, entities and places that do not fit: an error as well."""
    rng = ctx.rng
    m = gen.level(rng, size=0.3)
    lv = dm.to_level(m)
    what = ["prop field", "scale", "prop place", "entity place", "region", "entity field", "flags", "id", "backdrop"][ctx.index % 9]
    far = rng.choice([1, -1]) * rng.choice([2.0 ** 31, 2.0 ** 31 + 48, 2.0 ** 35, 1e15, 48.0 * 2 ** 23 + 1, 4.5e8, 2.0 ** 29, 2.0 ** 30])
    x, y = float(rng.randrange(-900, 900)), far
    if rng.random() < 0.5:
        x, y = y, x
    p = dm.to_prop(gen.prop(rng, 5))
    e = dm.to_entity(gen.entity(rng, 5))
    new = 2 ** 20 + rng.randrange(1000)
    place = (19, 1000 + rng.randrange(9), 1000)
    dm.write_level_bytes(lv)
    if what == "prop field":
        k = rng.choice(sorted(PROP_FIELDS))
        setattr(p, k, (1 << PROP_FIELDS[k]) * rng.choice([1, 2, 256]) + rng.choice([0, 1, 5]))
        lv.add_prop(rng.randrange(21), 5.0, 5.0, p, new)
        bad = (k, getattr(p, k))
    elif what == "scale":
        p.scale = bad = rng.choice([100.0, 1000.0, 55.0, 60.0, 1e9, 0.0049, 0.001, 1e-9, 0.0, -1.0])
        lv.add_prop(rng.randrange(21), 5.0, 5.0, p, new)
    elif what == "prop place":
        far = rng.choice([1, -1]) * rng.choice([2.0 ** 27, 2.0 ** 27 + 48, 2.0 ** 28, 2.0 ** 30, far])
        x, y = rng.choice([(far, 3.0), (3.0, far), (far, far)])
        lv.add_prop(5, x, y, p, new)
        bad = (x, y)
    elif what == "entity place":
        lv.add_entity(x, y, e, new)
        bad = (x, y)
    elif what == "region":
        bad = rng.choice([2 ** 23, 2 ** 23 + 1, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 30, -2 ** 23 - 1, -2 ** 23 - 257, -2 ** 24 - 257, -2 ** 30, rng.randrange(2 ** 23, 2 ** 25)])
        place = rng.choice([(19, bad, 3), (19, 3, bad)])
        lv.tiles[place] = dm.to_tile(gen.tile(rng, 0.2))
    elif what == "backdrop":
        bad = rng.choice([2 ** 19, 2 ** 19 + 1, 2 ** 20, 2 ** 25, -2 ** 19 - 1, -2 ** 20 - 16, -2 ** 25, rng.randrange(2 ** 19, 2 ** 21)])
        lv.backdrop.tiles[rng.choice([(12, bad, 3), (12, 3, bad)])] = dm.to_tile(gen.tile(rng, 0.2))
    elif what == "entity field":
        k, bits = rng.choice([("rotation", 16), ("layer", 8)])
        setattr(e, k, (1 << bits) * rng.choice([1, 2, 3]) + rng.choice([0, 1, 5]))
        lv.add_entity(5.0, 5.0, e, new)
        bad = (k, getattr(e, k))
    elif what == "flags":
        t = lv.tiles[place] = dm.to_tile(gen.tile(rng, 0.2))
        t.tile_flags = bad = rng.choice([8, 9, 16, 255, 1000])
    else:
        bad = rng.choice([2 ** 32, 2 ** 32 + 5, 2 ** 40])
        if rng.random() < 0.5:
            lv.add_prop(5, 5.0, 5.0, p, bad)
        else:
            lv.add_entity(5.0, 5.0, e, bad)
    ctx.raises(Exception, lambda: dm.write_level_bytes(lv), "level with an unfit %s" % what, bad)
    ctx.count("unfit_objects")
    ctx.seen((what, bad))


def crowd(ctx):
    """More objects in one segment than its counter can hold."""
    rng = ctx.rng
    lv = Level()
    n = [65535, 65536, rng.randrange(16384, 32768), rng.randrange(32768, 65535)][ctx.index // 2 % 4]
    kind = ctx.index % 2
    p = dm.to_prop(gen.prop(rng, 5))
    e = Entity()
    e.etype = "q"
    for i in range(n):
        if kind:
            lv.entities[100 + i] = (5.0, 5.0, e)
        else:
            lv.props[100 + i] = (5, 5.0, 5.0, p)
    if n > 65535:
        ctx.raises(Exception, lambda: dm.write_level_bytes(lv), "level with too many objects in one segment")
    else:
        d = refcodec.dec_level(dm.write_level_bytes(lv))
        segs = [s for r in d["regions"] for s in r["segments"]]
        ctx.equal([len(s["entities" if kind else "props"]) for s in segs], [n], "objects in one segment")
    ctx.count("crowded_segments")
    ctx.seen((n, kind))


def big(ctx):
    """Counts and sizes past the widths of bytes and fields."""
    ctx.count("big_levels")
    run(ctx, gen.big_level(ctx.rng, gen.BIG[ctx.index % len(gen.BIG)]))


WORKLOADS = [
    Workload("big", big, 64, 1600),
    Workload("crowd", crowd, 8, 24),
    Workload("unfit", unfit, 300, 4000),
    Workload("misfit", misfit, 900, 8000),
    Workload("levels", levels, 2500, 50000),
    Workload("borders", borders, 1500, 30000),
    Workload("filth", filth, 500, 8000),
    Workload("filth_enum", filth_enum, 8, 80),
    Workload("ids", ids, 800, 15000),
    Workload("real", real, 2, 24),
]
