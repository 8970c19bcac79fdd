"""C19: computed edge visibility follows the documented rules."""
from dustmaker.level import Level
from dustmaker.tile import TileSide

from ..core import Workload
from ..refcodec import blank_edge
from .. import dm, gen, geom

PID = "C19"
RULE = ("dense random tile patches over several layers and negative places, few sprites differing in one component, all neighbouring pairs of "
        "the 21 shapes at all four sides (exhaustive over repeated cases), random previous flags, with and without callback; expected flags from "
        "an independent geometry; metamorphic re-runs in another order, with other previous flags and with other layers removed; non-trivial: "
        "two neighbouring tiles; distinct by patch")
REQUIRED = {"edges_judged": 50000, "slopes": 4000, "open_flush": 8000, "same_sprite": 2000, "other_sprite": 4000, "callback_calls": 1500,
            "pairs_covered": 1700, "reruns": 400}
ASSUMPTIONS = ["the callback is judged by its boolean return value; how often and in which order it is called is not"]

DIR = {geom.TOP: (0, -1), geom.BOTTOM: (0, 1), geom.LEFT: (-1, 0), geom.RIGHT: (1, 0)}
OPP = {geom.TOP: geom.BOTTOM, geom.BOTTOM: geom.TOP, geom.LEFT: geom.RIGHT, geom.RIGHT: geom.LEFT}


def sprite(t):
    return t["set"], t["tile"], t["palette"]


def expected(ctx, tiles, key, side, cb):
    """('blank',) or (solid, visible) for one side."""
    layer, x, y = key
    t = tiles[key]
    if not geom.exists(t["shape"], side):
        return None
    if not geom.flush(t["shape"], side):
        ctx.count("slopes")
        return True, True
    n = tiles.get((layer, x + DIR[side][0], y + DIR[side][1]))
    if n is None or not geom.flush(n["shape"], OPP[side]):
        ctx.count("open_flush")
        return True, True
    if sprite(t) == sprite(n):
        ctx.count("same_sprite")
        return False, False
    ctx.count("other_sprite")
    if cb is not None:
        return False, cb(layer, x, y, side, t, n)
    return False, side in (geom.BOTTOM, geom.RIGHT)


def compare(ctx, got, src, cb, label):
    ctx.equal(sorted(got), sorted(src), "%s: tile places" % label)
    for key, t in src.items():
        g = got[key]
        for k in ("shape", "flags", "set", "tile", "palette"):
            ctx.equal(g[k], t[k], "%s: %s of %r" % (label, k, key))
        for side in range(4):
            want = expected(ctx, src, key, side, cb)
            e = g["edges"][side]
            lab = "%s: side %d of shape %d at %r" % (label, side, t["shape"], key)
            if want is None:
                ctx.equal(e, blank_edge(), lab + " (does not exist)")
            else:
                w = dict(t["edges"][side])
                w["solid"], w["visible"] = want
                n = src.get((key[0], key[1] + DIR[side][0], key[2] + DIR[side][1]))
                ctx.equal(e, w, lab, "neighbour %r" % (n and (n["shape"], sprite(n), sprite(t)),))
            ctx.count("edges_judged")


def patch(rng, pair=None):
    tiles = {}
    base, near = gen.sprites(rng)
    ox, oy = rng.choice([0, 0, -3, 255, -256, -1]), rng.choice([0, 0, -3, 255, -256, -1])
    layers = rng.sample(range(21), rng.choice([1, 2, 3])) if rng.random() < 0.7 else [18, 19]
    full = rng.choice([0.1, 0.4, 0.8])
    size = rng.choice([2, 3, 5])
    for layer in layers:
        for x in range(size):
            for y in range(size):
                if rng.random() < 0.75:
                    t = gen.tile(rng, 0.3, 0 if rng.random() < full else rng.randrange(21))
                    t["set"], t["tile"], t["palette"] = rng.choice(near) if rng.random() < 0.6 else base
                    tiles[layer, ox + x, oy + y] = t
    if pair is not None:
        a, b, side = pair
        t, n = gen.tile(rng, 0.3, a), gen.tile(rng, 0.3, b)
        t["set"], t["tile"], t["palette"] = base
        n["set"], n["tile"], n["palette"] = rng.choice(near)
        tiles[layers[0], ox, oy] = t
        tiles[layers[0], ox + DIR[side][0], oy + DIR[side][1]] = n
    items = list(tiles.items())
    rng.shuffle(items)
    return dict(items)


def build(ctx, tiles, backdrop):
    lv = Level()
    tgt = lv.backdrop if backdrop else lv
    for k, t in tiles.items():
        tgt.tiles[k] = dm.to_tile(t)
    return tgt


def read(lv, ctx=None):
    if ctx is not None:
        return {tuple(k): dm.plain(ctx, t, "calculated") for k, t in lv.tiles.items()}
    return {tuple(k): dm.from_tile(t) for k, t in lv.tiles.items()}


def run(lv, cb, explicit):
    if cb is None:
        if explicit:
            lv.calculate_edge_visibility(visible_callback=None)
        else:
            lv.calculate_edge_visibility()
    else:
        lv.calculate_edge_visibility(visible_callback=cb)


PAIRS = [(a, b, s) for a in range(21) for b in range(21) for s in range(4)]


def patches(ctx):
    rng = ctx.rng
    tiles = patch(rng, PAIRS[ctx.index % len(PAIRS)])
    ctx.count("pairs_covered", ctx.index < len(PAIRS))
    lv = build(ctx, tiles, rng.random() < 0.15)
    other = dm.from_level(lv.parent) if lv.parent is not None else None
    salt = rng.randrange(1 << 30)
    calls = []
    kind = rng.choice(["none", "none", "hash", "true", "false", "truthy"])

    def rule(x, y, side):
        return {"true": True, "false": False}.get(kind, hash((x, y, int(side), salt)) & 1 == 1)

    cb = None
    if kind != "none":
        def cb(x, y, side, tile, ntile):
            calls.append((x, y, side, tile, ntile))
            if kind == "truthy":
                return 2 if rule(x, y, side) else 0
            return rule(x, y, side)
    run(lv, cb, rng.random() < 0.3)
    got = read(lv, ctx if kind != "truthy" else None)
    compare(ctx, got, tiles, None if cb is None else (lambda layer, x, y, side, t, n: rule(x, y, side)), "visibility (%s)" % kind)
    for x, y, side, tile, ntile in calls:
        ctx.count("callback_calls")
        ctx.check(isinstance(side, TileSide), "callback side is a TileSide", side)
        d = DIR[int(side)]
        ctx.check(any(lv.tiles.get((layer, x, y)) is tile and lv.tiles.get((layer, x + d[0], y + d[1])) is ntile for layer in {k[0] for k in tiles}),
                  "callback arguments are the tile and its neighbour on that side", (x, y, side))
    if other is not None:
        ctx.equal(dm.from_level(lv.parent)["tiles"], other["tiles"], "tiles of the level when its backdrop is calculated")
    ctx.sample((kind, sorted(tiles)[:4]))
    if len(tiles) > 1:
        ctx.seen([(k, t["shape"], sprite(t)) for k, t in sorted(tiles.items())])
    # repeated: nothing changes
    run(lv, cb, False)
    ctx.equal(read(lv), got, "calculated twice")
    if tiles and rng.random() < 0.4:
        # other order, other previous flags
        items = list(tiles.items())
        rng.shuffle(items)
        again = {}
        for k, t in items:
            t = {**t, "edges": [dict(e, solid=rng.random() < 0.5, visible=rng.random() < 0.5) for e in t["edges"]]}
            again[k] = t
        lv2 = build(ctx, again, False)
        run(lv2, cb, False)
        ctx.equal(read(lv2), got, "same tiles in another order with other flags")
        # one layer alone
        layer = rng.choice(sorted({k[0] for k in tiles}))
        lv3 = build(ctx, {k: t for k, t in items if k[0] == layer}, False)
        run(lv3, cb, False)
        ctx.equal(read(lv3), {k: t for k, t in got.items() if k[0] == layer}, "layer %d alone" % layer)
        ctx.count("reruns")


WORKLOADS = [Workload("patches", patches, 1764 * 2 * 4, 1764 * 40)]
