"""C20: computed edge caps follow the documented rules."""
import math

from dustmaker.level import Level

from ..core import Workload
from .. import dm, gen, geom
from ..refcodec import blank_edge

PID = "C20"
RULE = ("dense random tile patches (all shapes, several layers, few sprites, random visibility, dust and spikes), patches after automatic "
        "visibility, and all pairs of shapes at all 8 relative places (exhaustive over repeated cases); caps and angles recomputed by looking "
        "for every edge that starts where an edge ends; metamorphic re-runs (order, stale data, single layer); non-trivial: a visible edge "
        "with a joining edge; distinct by patch")
REQUIRED = {"ends_judged": 40000, "joined": 6000, "capped": 15000, "half_ends": 4000, "several_joiners": 100, "turning_joins": 2500,
            "filth_joined": 400, "filth_capped": 3000, "invisible": 20000, "pairs_covered": 3500, "reruns": 400}
ASSUMPTIONS = ["edges that the shape lacks are invisible (as automatic visibility leaves them)"]

DELTAS = [(dx, dy) for dx in (-1, 0, 1) for dy in (-1, 0, 1) if (dx, dy) != (0, 0)]


def sprite(t):
    return t["set"], t["tile"], t["palette"]


def heading(a, b):
    """Direction in degrees, growing clockwise on a y-down screen."""
    return math.degrees(math.atan2(b[1] - a[1], b[0] - a[0]))


def turn(h, g):
    """Signed turn from heading h to g, clockwise positive, in (-180, 180]."""
    d = (g - h) % 360
    return d - 360 if d > 180 + 1e-9 else d


def toward_zero(v):
    return int(math.copysign(math.floor(abs(v) + 1e-6), v)) if abs(v) > 1e-6 else 0


def expected(ctx, tiles, key, side):
    """(caps, angles, filth caps, filth angles) of a visible edge."""
    layer, x, y = key
    t = tiles[key]
    e = t["edges"][side]
    caps, angles, fcaps, fangles = [False] * 2, [0] * 2, [False] * 2, [0] * 2
    first, second = geom.side_ends(t["shape"], side)
    for end in range(2):
        # walk the edge towards this end
        a, b = (second, first) if end == 0 else (first, second)
        ctx.count("ends_judged")
        if b[0] % 2 or b[1] % 2:
            ctx.count("half_ends")
            continue
        joins = []
        for dx, dy in DELTAS:
            n = tiles.get((layer, x + dx, y + dy))
            if n is None or sprite(n) != sprite(t) or not n["edges"][side]["visible"]:
                continue
            p, q = ((v[0] + 2 * dx, v[1] + 2 * dy) for v in geom.side_ends(n["shape"], side))
            if end == 0:
                p, q = q, p
            if p == b and p != q:
                joins.append((turn(heading(a, b), heading(p, q)), n["edges"][side]))
        if not joins:
            caps[end] = True
            fcaps[end] = bool(e["fset"])
            ctx.count("capped")
            ctx.count("filth_capped", bool(e["fset"]))
            continue
        # away from the tile: walking clockwise the tile is on the right
        joins.sort(key=lambda j: j[0], reverse=end == 0)
        ctx.count("joined")
        ctx.count("several_joiners", len(joins) > 1)
        d, ne = joins[0]
        angles[end] = toward_zero(d / 2)
        ctx.count("turning_joins", angles[end] != 0)
        if e["fset"]:
            if (e["fset"], e["spike"]) == (ne["fset"], ne["spike"]):
                fangles[end] = angles[end]
                ctx.count("filth_joined")
            else:
                fcaps[end] = True
                ctx.count("filth_capped")
    return tuple(caps), tuple(angles), tuple(fcaps), tuple(fangles)


def compare(ctx, got, src, label):
    ctx.equal(sorted(got), sorted(src), "%s: tile places" % label)
    for key, t in src.items():
        g = got[key]
        for k in ("shape", "flags", "set", "tile", "palette"):
            ctx.equal(g[k], t[k], "%s: %s of %r" % (label, k, key))
        for side in range(4):
            e = g["edges"][side]
            s = t["edges"][side]
            w = dict(s)
            lab = "%s: side %d of shape %d at %r" % (label, side, t["shape"], key)
            if not s["visible"]:
                w.update(caps=(False, False), angles=(0, 0), fset=0, spike=False, fcaps=(False, False), fangles=(0, 0))
                ctx.count("invisible")
            else:
                w["caps"], w["angles"], w["fcaps"], w["fangles"] = expected(ctx, src, key, side)
            if e != w:
                around = {d: (src[key[0], key[1] + d[0], key[2] + d[1]]["shape"], src[key[0], key[1] + d[0], key[2] + d[1]]["edges"][side]["visible"])
                          for d in DELTAS if (key[0], key[1] + d[0], key[2] + d[1]) in src}
                ctx.equal(e, w, lab, "neighbours (shape, side visible): %r" % around)
            else:
                ctx.count("oracle_evaluations")


def tile(rng, shape, vis):
    t = gen.tile(rng, 0.0, shape)
    hi = rng.choice([3, 4, 5, 6, 7, 7])
    for d in range(4):
        e = t["edges"][d]
        e["visible"] = d in geom.SIDES[t["shape"]] and rng.random() < vis
        if rng.random() < 0.4 and d in geom.SIDES[t["shape"]]:
            e["fset"], e["spike"] = rng.choice([(1, False), (1, False), (1, True), (2, False), (0, True), (hi, False), (hi, True)])
            e["fcaps"], e["fangles"] = (True, rng.random() < 0.5), (7, -9)
    return t


PAIRS = [(a, b, d) for a in range(21) for b in range(21) for d in DELTAS]


def patch(rng, pair):
    tiles = {}
    base, near = gen.sprites(rng)
    same = rng.choice([0.5, 0.9, 1.0])
    ox, oy = rng.choice([0, 0, -3, 255, -256, -1]), rng.choice([0, 0, -3, 255, -256, -1])
    layers = rng.sample(range(21), rng.choice([1, 1, 2]))
    full = rng.choice([0.0, 0.1, 0.4])
    vis = rng.choice([0.5, 0.85, 1.0])
    size = rng.choice([2, 3, 4])
    for layer in layers:
        for x in range(size):
            for y in range(size):
                if rng.random() < 0.8:
                    t = tile(rng, 0 if rng.random() < full else rng.randrange(21), vis)
                    t["set"], t["tile"], t["palette"] = base if rng.random() < same else rng.choice(near)
                    tiles[layer, ox + x, oy + y] = t
    if pair is not None:
        a, b, d = pair
        for s, px, py in ((a, ox - 5, oy - 5), (b, ox - 5 + d[0], oy - 5 + d[1])):
            t = tile(rng, s, 1.0)
            t["set"], t["tile"], t["palette"] = base
            tiles[layers[0], px, py] = t
    items = list(tiles.items())
    rng.shuffle(items)
    return dict(items)


def build(tiles, backdrop=False):
    lv = Level()
    tgt = lv.backdrop if backdrop else lv
    for k, t in tiles.items():
        tgt.tiles[k] = dm.to_tile(t)
    return tgt


def read(lv, ctx=None):
    if ctx is not None:
        return {tuple(k): dm.plain(ctx, t, "calculated") for k, t in lv.tiles.items()}
    return {tuple(k): dm.from_tile(t) for k, t in lv.tiles.items()}


def judge(ctx, tiles, label):
    rng = ctx.rng
    lv = build(tiles, rng.random() < 0.1)
    before = ctx.counters.get("joined", 0)
    lv.calculate_edge_caps()
    got = read(lv, ctx)
    compare(ctx, got, tiles, label)
    if ctx.counters.get("joined", 0) > before:
        ctx.seen([(k, t["shape"], sprite(t), [(e["visible"], e["fset"], e["spike"]) for e in t["edges"]]) for k, t in sorted(tiles.items())])
    ctx.sample((label, sorted(tiles)[:3]))
    lv.calculate_edge_caps()
    ctx.equal(read(lv), got, "calculated twice")
    if tiles and rng.random() < 0.3:
        items = list(tiles.items())
        rng.shuffle(items)
        again = {}
        for k, t in items:
            t = {**t, "edges": [dict(e, caps=(rng.random() < 0.5, rng.random() < 0.5), angles=(rng.randrange(-80, 80), 5), fcaps=(True, False), fangles=(3, 4)) for e in t["edges"]]}
            again[k] = t
        lv2 = build(again)
        lv2.calculate_edge_caps()
        ctx.equal(read(lv2), got, "same tiles in another order with stale data")
        layer = rng.choice(sorted({k[0] for k in tiles}))
        lv3 = build({k: t for k, t in items if k[0] == layer})
        lv3.calculate_edge_caps()
        ctx.equal(read(lv3), {k: t for k, t in got.items() if k[0] == layer}, "layer %d alone" % layer)
        ctx.count("reruns")


def patches(ctx):
    ctx.count("pairs_covered", ctx.index < len(PAIRS))
    judge(ctx, patch(ctx.rng, PAIRS[ctx.index % len(PAIRS)]), "caps")


def automatic(ctx):
    """The documented use: visibility first, then caps."""
    tiles = patch(ctx.rng, None)
    lv = build(tiles)
    lv.calculate_edge_visibility()
    judge(ctx, read(lv), "caps after visibility")


WORKLOADS = [
    Workload("patches", patches, len(PAIRS) * 2 * 3, len(PAIRS) * 20),
    Workload("automatic", automatic, 4500, 30000),
]
