"""C08: legal level files from the game are decoded faithfully."""
import io
import os

from dustmaker import DFReader
from dustmaker.dfreader import read_level
from dustmaker.level import Level

from ..core import REPO, Workload
from .. import dm, gen, lvl, refcodec, streams

PID = "C08"
RULE = ("level files made by an independent encoder: level versions 43/44, segment versions 4..8 mixed, emptied slots, repeated ids, "
        "extended names, dust records with and without tile, regions and segments in any order, alternative encodings of negative "
        "numbers, filler, any compression level; read whole, at an offset, region by region, and metadata-only; every field compared "
        "with what was encoded; non-trivial: at least one object; distinct by file bytes")
REQUIRED = {"big_files": 38, "files_read": 1500, "tiles_compared": 8000, "props_compared": 3000, "entities_compared": 3000, "old_segments": 2000,
            "emptied_slots": 300, "repeated_ids": 200, "extended_names": 500, "refusals_observed": 200}
ASSUMPTIONS = ["backdrop prop coordinates of old segments in dustmod levels are left out (the format is ambiguous there)"]


def make(ctx, size=1.0, stray_spikes=True, few=False):
    """-> (file model for enc_level, opts, expected content)"""
    rng = ctx.rng
    version = rng.choice([43, 44, 44])
    lvars = gen.level_vars(rng, rng.choice([None, 0, 1, 2, 3, 4, 6, 6, 6]))
    dustmod = dict(lvars).get("level_type") == ("int", 6)
    lv = {"version": version, "nextid": gen.u32(rng), "propuid": gen.u32(rng), "saveuid": gen.u32(rng), "regionuid": gen.u32(rng),
          "mver": 4, "vars": lvars, "sshot": rng.choice([b"", gen.bstr(rng)]) if version > 43 else b"", "regions": []}
    want = {"vars": lvars, "sshot": lv["sshot"], "tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}
    regkeys = set()
    many = few and size < 5 and rng.random() < 0.5
    ctx.count("many_regions", many)
    for _ in range(rng.randrange(90, 400) if many else 1 if few else rng.choice([0, 1, 1, 2, 4])):
        regkeys.add((rng.choice([0, -1, 1, -2, 5, -32768, 32767, rng.randrange(-300, 300), gen.loglen(rng, 15), -gen.loglen(rng, 15)]),
                     rng.choice([0, -1, 1, -3, -32768, 32767, rng.randrange(-99, 99), gen.loglen(rng, 15), -gen.loglen(rng, 15)])))
    regkeys = sorted(regkeys)
    rng.shuffle(regkeys)
    pids, eids = [], []
    dup = rng.random() < 0.4
    long_names = few and rng.random() < 0.4

    def newid(pool):
        if dup and pool and rng.random() < 0.3:
            ctx.count("repeated_ids")
            return rng.choice(pool)
        used = set(pool)
        i = gen.ident(rng, used)
        pool.append(i)
        return i

    def segment(ver, ox, oy, backdrop, isdm):
        seg = {"tiles": [], "props": [], "entities": [], "totals": {"uid": gen.u32(rng), "dust": rng.randrange(65536), "enemy": rng.randrange(65536),
               "surface": rng.randrange(65536), "dustblock": rng.randrange(65536)}, "width": rng.choice([16, 16, 0, 255])}
        places = set()
        for _ in range(int(size * rng.choice([0, 1, 4, 12]))):
            k = (rng.choice([19, 19, rng.randrange(21)]), rng.randrange(16), rng.randrange(16))
            if k in places:
                continue
            places.add(k)
            t = gen.tile(rng, 0.0)
            t["palette"] = rng.randrange(16)
            if k[0] == 19 and not backdrop and rng.random() < 0.5:
                t = gen.tile(rng, 0.6)
                if rng.random() < 0.2:
                    t["forcedust"] = True
                if not stray_spikes and not any(e["fset"] for e in t["edges"]):
                    for e in t["edges"]:
                        e["spike"] = False
            seg["tiles"].append((*k, t))
        # group by layer as the format does, keep order inside
        (want["btiles"] if backdrop else want["tiles"]).update({(l, ox + x, oy + y): t for l, x, y, t in seg["tiles"]})
        old = not (ver > 6 or isdm)
        for _ in range(int(size * rng.choice([0, 0, 1, 3]))):
            if rng.random() < 0.12:
                seg["props"].append(None)
                ctx.count("emptied_slots")
                continue
            p = gen.prop(rng)
            p["id"] = newid(pids)
            if rng.random() < 0.15:
                p["x"], p["y"] = (float(rng.choice([2**27 - 1, gen.loglen(rng, 27)]) * rng.choice([1, -1])) for _ in "xy")
            if old:
                p["k"], p["scale"] = 32, 1.0
                p["x"] = rng.randrange(-2**20, 2**20) / 8 if rng.random() < 0.6 else rng.choice([0.0, -0.125, -0.5, 0.875, -1.0, -1.125, 1.0])
                p["y"] = rng.randrange(-2**20, 2**20) / 8
            seg["props"].append(p)
            d = want["bprops" if backdrop else "props"]
            d.pop(p["id"], None)
            d[p["id"]] = p
        if not backdrop:
            for _ in range(int(size * rng.choice([0, 0, 1, 3]))):
                if rng.random() < 0.12:
                    seg["entities"].append(None)
                    ctx.count("emptied_slots")
                    continue
                e = gen.entity(rng, type_="z_" + "".join(rng.choice(gen.ALPHA) for _ in range(rng.randrange(50, 62))) if long_names else None)
                if rng.random() < 0.1:
                    e["x"], e["y"] = (gen.loglen(rng, 35) / 128 * rng.choice([1, -1]) for _ in "xy")
                if long_names and rng.random() < 0.02:
                    e["vars"] = [("text", ("string", rng.randbytes(rng.choice([300, 40000, 70000]))))]
                e["id"] = newid(eids)
                if ver > 7:
                    e["ext"] = rng.random() < 0.2
                    if e["ext"] or e["type"].startswith("z_") or e["type"] == "entity":
                        ctx.count("extended_names")
                seg["entities"].append(e)
                want["entities"].pop(e["id"], None)
                want["entities"][e["id"]] = e
        if ver < 8:
            ctx.count("old_segments")
        return seg

    for rx, ry in regkeys:
        reg = {"x": rx, "y": ry, "ver": rng.choice([14, 14, 13]), "segments": []}
        segkeys = {(rng.randrange(16), rng.randrange(16)) for _ in range(rng.choice([0, 1, 2, 5]))}
        if few and not many and size < 40 and rng.random() < 0.4:
            segkeys = {(x, y) for x in range(16) for y in range(16)}
            ctx.count("full_regions")
        segkeys = sorted(segkeys)
        rng.shuffle(segkeys)
        for sx, sy in segkeys:
            ver = rng.choice([4, 5, 6, 7, 8, 8])
            reg["segments"].append((sx, sy, ver, segment(ver, rx * 256 + sx * 16, ry * 256 + sy * 16, False, dustmod)))
        if rng.random() < 0.3:
            ver = rng.choice([7, 8]) if dustmod else rng.choice([4, 5, 6, 7, 8, 8])
            reg["backdrop"] = (ver, segment(ver, rx * 16, ry * 16, True, False))
        lv["regions"].append(reg)
    opts = {"rng": rng, "emptysections": rng.random() < 0.3, "shuffle": rng.random() < 0.5, "junkscale": rng.random() < 0.5,
            "noexttail": rng.random() < 0.3, "junk": rng.random() < 0.3, "segpad": rng.random() < 0.3}
    # tiles repeat their dust rule: dust exists where filth does or where forced
    for t in want["tiles"].values():
        if t.get("forcedust"):
            t["keepdust"] = True
    return lv, opts, want


def expect_tiles(want):
    """What the encoder stored: edges without a dust record carry no filth."""
    for k, t in want["tiles"].items():
        if not (k[0] == 19 and (any(e["fset"] for e in t["edges"]) or t.get("forcedust"))):
            for e in t["edges"]:
                e.update(lvl.CLEAN)
    for t in list(want["tiles"].values()) + list(want["btiles"].values()):
        t.pop("forcedust", None)
        t.pop("keepdust", None)


def compare(ctx, level, want, label):
    g = dm.from_level(level)
    lvl.cmp_vars(ctx, g["vars"], want["vars"], label + ": level variables")
    ctx.equal([k for k, _ in g["vars"]], [k for k, _ in want["vars"]], label + ": order of level variables")
    ctx.equal(g["sshot"], want["sshot"], label + ": thumbnail")
    lvl.cmp_tiles(ctx, g["tiles"], want["tiles"], label, normal=False)
    lvl.cmp_tiles(ctx, g["btiles"], want["btiles"], label + " (backdrop)", normal=False)
    lvl.cmp_props(ctx, g["props"], want["props"], label)
    lvl.cmp_props(ctx, g["bprops"], want["bprops"], label + " (backdrop)")
    lvl.cmp_entities(ctx, g["entities"], want["entities"], label)
    ctx.count("files_read")


def files(ctx):
    rng = ctx.rng
    if ctx.workload == "big":
        lv, opts, want = make(ctx, rng.choice([2, 3, 30, 90, 200]), few=True)
        if lv["version"] > 43:
            lv["sshot"] = want["sshot"] = rng.randbytes(rng.choice([255, 256, 4096, 65535, 65536, 70000, 300000]))
        if ctx.index % 3 == 0:
            lt = [kv for kv in lv["vars"] if kv[0] == "level_type"]
            lv["vars"] = want["vars"] = gen.big_vars(rng) + lt
        ctx.count("big_files")
    else:
        lv, opts, want = make(ctx)
    data = refcodec.enc_level(lv, opts)
    expect_tiles(want)
    ctx.sample("version %d, %d regions, segment versions %r, %d bytes" % (
        lv["version"], len(lv["regions"]), [s[2] for r in lv["regions"] for s in r["segments"]], len(data)))
    if lvl.nontrivial(want):
        ctx.seen(data)
    compare(ctx, read_level(data), want, "read")
    # at an offset, followed by other data
    pre = rng.randbytes(rng.choice([1, 3, 64]))
    src = io.BytesIO(pre + data + b"AFTER")
    src.seek(len(pre))
    with DFReader(src, noclose=True) as r:
        compare(ctx, r.read_level(), want, "read at offset %d" % len(pre))
        ctx.equal(r.read_bytes(5), b"AFTER", "reader stops at the end of the level")
    # metadata only
    src.seek(len(pre))
    with DFReader(src, noclose=True) as r:
        m = r.read_level(metadata_only=True)
    g = dm.from_level(m)
    ctx.equal((norm(g["vars"]), g["sshot"]), (norm(want["vars"]), want["sshot"]), "metadata-only read")
    ctx.check(not (m.tiles or m.props or m.entities or m.backdrop.tiles or m.backdrop.props), "metadata-only read has no region data")
    # extended reading
    ref = refcodec.dec_level(data)
    src.seek(len(pre))
    with DFReader(src, noclose=True) as r:
        level, offs = r.read_level_ex()
        ctx.equal(list(offs), ref["dir"] + [len(ref["regbytes"])], "region offsets")
        base = r.bit_tell()
        ctx.equal(base, 8 * (len(pre) + ref["regstart"]), "position after the header")
        if rng.random() < 0.5:
            for _ in offs[:-1]:
                r.read_region(level)
            compare(ctx, level, want, "read region by region")
        else:
            ctx.equal(r.read_bytes(offs[-1]), ref["regbytes"], "raw region bytes")
    if not any_dup(lv) and lv["regions"]:
        # random access through the offsets
        order = list(range(len(offs) - 1))
        rng.shuffle(order)
        src.seek(len(pre))
        with DFReader(src, noclose=True) as r:
            level, offs = r.read_level_ex()
            for i in order:
                r.bit_seek(base + 8 * offs[i])
                r.read_region(level)
            compare(ctx, level, want, "read by region offsets")
        ctx.count("random_access")


def norm(v):
    return lvl.norm_vars(v)


def any_dup(lv):
    seen = set()
    for r in lv["regions"]:
        segs = [s[3] for s in r["segments"]] + ([r["backdrop"][1]] if r.get("backdrop") else [])
        for s in segs:
            for kind in ("props", "entities"):
                for o in s[kind]:
                    if o is not None:
                        if (kind, o["id"]) in seen:
                            return True
                        seen.add((kind, o["id"]))
    return False


def dustless(ctx):
    """Dust records for places without a tile are ignored; order of sections."""
    rng = ctx.rng
    tile = gen.tile(rng, 0.0)
    tile["forcedust"] = True
    tile["edges"][rng.randrange(4)]["fset"] = rng.randrange(1, 8)
    # hand-made segment: one tile, dust record elsewhere and for the tile
    w = refcodec.FastOut()
    w.u(8, 1)
    layer = rng.choice([19, 19, 20])
    w.u(8, layer)
    w.u(10, 1)
    x, y = rng.randrange(16), rng.randrange(16)
    w.u(5, x), w.u(5, y), w.u(5, tile["shape"]), w.u(3, tile["flags"])
    w.raw(refcodec.enc_tile(tile))
    recs = [(x, y), ((x + 1) % 16, y)]
    rng.shuffle(recs)
    w.u(10, 2)
    for rx, ry in recs:
        w.u(5, rx), w.u(5, ry)
        w.raw(refcodec.enc_dust(tile))
    w.align()
    body = w.bytes()
    h = refcodec.FastOut()
    h.u(32, 25 + len(body)), h.u(16, 8), h.u(8, 3), h.u(8, 4), h.u(8, 16), h.u(32, 0)
    h.u(16, 0), h.u(16, 0), h.u(16, 0), h.u(16, 0), h.u(32, 3)
    level = Level()
    with DFReader(io.BytesIO(h.bytes() + body)) as r:
        r.read_segment(level, -256, 512)
        ctx.equal(r.bit_tell(), 8 * (25 + len(body)), "position after a segment")
    want = dict(tile)
    want.pop("forcedust")
    if layer != 19:
        for e in want["edges"]:
            e.update(lvl.CLEAN)
    ctx.equal({k: dm.from_tile(t) for k, t in level.tiles.items()}, {(layer, -256 + 48 + x, 512 + 64 + y): want}, "tiles of a segment")


def refuse(ctx):
    rng = ctx.rng
    lv, opts, want = make(ctx, 0.3)
    lv["version"] = rng.choice([0, 1, 17, 41, 42])
    data = refcodec.enc_level(lv, opts)
    ctx.raises(Exception, lambda: read_level(data), "level version %d is refused" % lv["version"])
    ctx.raises(Exception, lambda: DFReader(io.BytesIO(data)).read_level(metadata_only=True), "level version %d is refused" % lv["version"])


def real(ctx):
    data = streams.getbytes(os.path.join(REPO, "tests", "downhill"))
    ref = refcodec.dec_level(data)
    want = refcodec.level_content(ref)
    want["vars"], want["sshot"] = ref["vars"], ref["sshot"]
    compare(ctx, read_level(data), want, "downhill")


WORKLOADS = [
    Workload("files", files, 5000, 60000),
    Workload("big", files, 40, 1200),
    Workload("dustless", dustless, 1000, 5000),
    Workload("refuse", refuse, 400, 2000),
    Workload("real", real, 1, 1),
]
