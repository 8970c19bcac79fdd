"""C06: any level written and read back is the same level."""
import io
import os

from dustmaker import DFReader, DFWriter
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level

from ..core import REPO, Workload
from .. import dm, gen, lvl, streams
from ..refcodec import scale_of

PID = "C06"
RULE = ("random levels over all shapes, flags, sprites, edge data, filth, entity types (with and without class, 'z_' and reserved "
        "names), ids, coordinates around region/segment borders, negative and extreme, backdrops, thumbnails, variables; written "
        "at random offsets through DFWriter or the convenience functions; every field compared; non-trivial: the level has content; "
        "distinct by content")
REQUIRED = {"big_levels": 60, "levels": 1500, "tiles_compared": 15000, "props_compared": 3000, "entities_compared": 3000, "negative_places": 3000}
ASSUMPTIONS = ["tiles on layers 0..20, prop scales within the format's 56 steps, values within their declared widths",
               "thumbnail and raw variables given as bytes / Variable objects"]


def places(m):
    n = sum(1 for k in m["tiles"] if k[1] < 0 or k[2] < 0)
    for d in ("props", "entities", "bprops"):
        n += sum(1 for v in m[d].values() if v["x"] < 0 or v["y"] < 0)
    return n


def cycle(ctx, m, label="read back"):
    rng = ctx.rng
    bare = dm.drop_backdrop(ctx, m)
    lv = dm.to_level(m, rng)
    if bare:
        lv.backdrop = None
    before = dm.from_level(lv)
    mode = rng.choice(["stream", "func", "file"])
    if mode == "func":
        data = write_level(lv)
        got = read_level(data)
    elif mode == "stream":
        pre = rng.randbytes(rng.choice([0, 1, 7, 300]))
        buf = io.BytesIO(pre)
        buf.seek(len(pre))
        with DFWriter(buf, noclose=True) as w:
            w.write_level(lv)
            w.write_bytes(b"AFTER")
        data = buf.getvalue()
        ctx.equal(data[:len(pre)], pre, "bytes before the level")
        ctx.equal(data[-5:], b"AFTER", "bytes after the level")
        src = io.BytesIO(data)
        src.seek(len(pre))
        with DFReader(src) as r:
            got = r.read_level()
            ctx.equal(r.read_bytes(5), b"AFTER", "reader stops at the end of the level")
    else:
        with streams.Scratch() as tmp:
            path = os.path.join(tmp, "level")
            with DFWriter(open(path, "wb")) as w:
                w.write_level(lv)
            with DFReader(open(path, "rb")) as r:
                got = r.read_level()
    after = dm.from_level(lv)
    ctx.equal(after, before, "the level being written")
    g = dm.from_level(got)
    for k, t in rng.sample(sorted(got.tiles.items(), key=lambda kv: tuple(kv[0])), min(3, len(got.tiles))):
        dm.plain(ctx, t, "tile read at %r" % (tuple(k),))
    lvl.cmp_level(ctx, g, m, label)
    ctx.check(got.parent is None and got.backdrop is not None and got.backdrop.parent is got, "structure of the level read")
    ctx.equal(len(got.backdrop.entities), 0, "entities in the backdrop")
    ctx.count("levels")
    ctx.count("negative_places", places(m))
    if lvl.nontrivial(m):
        ctx.seen(repr(m))
    return got


def levels(ctx):
    rng = ctx.rng
    m = gen.level(rng, frac=rng.choice([1, 1, 4]))
    for p in m["props"].values():
        if rng.random() < 0.1 and 2 < p["k"] < 53:
            p["scale"] *= 50.0 ** (rng.uniform(-0.4, 0.4) / 24)
    for e in m["entities"].values():
        if rng.random() < 0.1:
            e["x"] += rng.random() / 300
    ctx.sample(gen.describe(m))
    cycle(ctx, m)


def dense(ctx):
    """Many objects in few segments: counts, ordering, one id for prop and entity."""
    rng = ctx.rng
    m = gen.level(rng, size=4, spread=8)
    ox, oy = rng.choice([-40, 0, -8]), rng.choice([-40, 0, -8])
    for _ in range(200):
        layer = rng.choice([19, 20, 0, 12])
        m["tiles"][(layer, ox + rng.randrange(48), oy + rng.randrange(48))] = gen.tile(rng)
    for i in range(100, 140):
        m["props"].setdefault(i, gen.prop(rng, 8))
        m["entities"].setdefault(i, gen.entity(rng, 8))
    cycle(ctx, m)


def big(ctx):
    """Counts and sizes past the widths of bytes and fields."""
    m = gen.big_level(ctx.rng, gen.BIG[ctx.index % len(gen.BIG)])
    ctx.count("big_levels")
    ctx.sample(gen.describe(m)[:300])
    cycle(ctx, m)


def tiles_enum(ctx):
    """Every shape x side x single edge field, alone in a level, around the origin."""
    rng = ctx.rng
    shape = ctx.index % 21
    m = {"vars": [], "sshot": b"", "tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}
    x = -17
    for side in range(4):
        for field, vals in (("solid", [True]), ("visible", [True]), ("caps", [(True, False), (False, True)]),
                            ("angles", [(45, 0), (0, -45), (-128, 127)]), ("fset", [1, 5, 7]), ("spike", [True]),
                            ("fcaps", [(True, False), (False, True)]), ("fangles", [(13, 0), (0, -13)])):
            for v in vals:
                t = gen.tile(rng, 0.0, shape)
                from ..refcodec import blank_edge
                t["edges"] = [blank_edge() for _ in range(4)]
                t["edges"][side][field] = v
                if field in ("spike", "fcaps", "fangles"):
                    t["edges"][side]["fset"] = 2
                m["tiles"][(19, x, -3 + side)] = t
                x += 1
    cycle(ctx, m)


def etypes(ctx):
    """Every known type, and names with special treatment, one by one."""
    rng = ctx.rng
    types = gen.TYPES + gen.UNKNOWN_TYPES + ["z_" + "a" * 61, "a" * 63, "z_z_z_", "Entity", "entity_", "entity_emitter2"]
    t = types[ctx.index % len(types)]
    m = gen.level(rng, size=0.3)
    m["entities"][7] = gen.entity(rng, type_=t)
    m["entities"][8] = gen.entity(rng, type_="entity")
    m["entities"][9] = gen.entity(rng, type_=t, x=m["entities"][7]["x"], y=m["entities"][7]["y"])
    got = cycle(ctx, m)
    e = got.entities[7][2]
    cls = dm.classes().get(t)
    if cls is not None:
        ctx.check(type(e) is cls, "class of an entity of type %s" % t, type(e))


def real(ctx):
    """The level shipped with the repository, cycled and edited."""
    rng = ctx.rng
    data = streams.getbytes(os.path.join(REPO, "tests", "downhill"))
    lv = read_level(data)
    m = dm.from_level(lv)
    if ctx.index:
        for k in rng.sample(sorted(m["tiles"]), 30):
            m["tiles"][k] = gen.tile(rng)
        m2 = gen.level(rng)
        m["entities"].update({i + 10**6: e for i, e in m2["entities"].items() if i < 2**31 - 10**6})
        m["sshot"] = m2["sshot"]
    cycle(ctx, m)


WORKLOADS = [
    Workload("levels", levels, 4000, 80000),
    Workload("dense", dense, 60, 1500),
    Workload("big", big, 64, 1600),
    Workload("tiles_enum", tiles_enum, 42, 210),
    Workload("etypes", etypes, 320, 2000),
    Workload("real", real, 2, 16),
]
