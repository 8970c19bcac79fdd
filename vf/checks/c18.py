"""C18: upscaling covers exactly the enlarged tiles."""
from dustmaker.transform import TxMatrix

from ..core import Workload
from ..refcodec import blank_edge
from .. import dm, gen, geom, motion
from .c16 import tile as any_tile

PID = "C18"
RULE = ("all 21 shapes x factors 1..9 with uniquely marked edges (exhaustive), random tiles with larger factors, and whole random levels with "
        "backdrops upscaled with every orientation; coverage by exact polygon area and containment, edges by exact corner coordinates; "
        "non-trivial: factor above 1 with an existing edge carrying data; distinct by tile or level and factor")
REQUIRED = {"blocks": 3000, "new_tiles": 30000, "edge_pieces": 15000, "edge_ends": 8000, "inner_edges": 20000, "levels": 400,
            "entities_moved": 500, "props_moved": 500, "starts_moved": 1000, "shape_factor_pairs": 189}
ASSUMPTIONS = ["sides shorter than a full tile do not exist and are blank on the tile being upscaled", "offsets of the extra matrix are whole cells"]


def area2(poly):
    """Twice the signed area, positive when clockwise on a y-down screen."""
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(poly, poly[1:] + poly[:1]))


def inside(p, poly):
    """p in the closed convex polygon (clockwise, y down)."""
    for a, b in zip(poly, poly[1:] + poly[:1]):
        if (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) < 0:
            return False
    return True


def on_segment(p, a, b):
    return ((b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0])
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def block(ctx, t, f, kids, label):
    """kids: {(dx, dy): tile model} replacing tile t enlarged f times."""
    poly = [(x * f, y * f) for x, y in geom.VERTS[t["shape"]]]
    total = 0
    big = {d: tuple((x * f, y * f) for x, y in geom.side_ends(t["shape"], d)) for d in geom.SIDES[t["shape"]]}
    covered = {d: 0 for d in big}
    for (dx, dy), k in kids.items():
        lab = "%s: tile (%d, %d)" % (label, dx, dy)
        ctx.check(0 <= dx < f and 0 <= dy < f, "%s outside its block" % lab, f)
        vs = [(x + 2 * dx, y + 2 * dy) for x, y in geom.VERTS[k["shape"]]]
        ctx.check(all(inside(v, poly) for v in vs), "%s sticks out" % lab, "shape %d in shape %d x%d" % (k["shape"], t["shape"], f))
        total += area2(vs)
        for key in ("flags", "set", "tile", "palette"):
            ctx.equal(k[key], t[key], "%s: %s" % (lab, key))
        ctx.count("new_tiles")
        for d in range(4):
            e = k["edges"][d]
            a, b = ((x + 2 * dx, y + 2 * dy) for x, y in geom.side_ends(k["shape"], d))
            home = None
            if d in geom.SIDES[k["shape"]]:
                for s, (p, q) in big.items():
                    if on_segment(a, p, q) and on_segment(b, p, q) and (b[0] - a[0]) * (q[0] - p[0]) + (b[1] - a[1]) * (q[1] - p[1]) > 0:
                        home = s
            if home is None:
                ctx.equal(e, blank_edge(), "%s: side %d is not on an enlarged edge" % (lab, d), "shape %d in shape %d x%d" % (k["shape"], t["shape"], f))
                ctx.count("inner_edges")
                continue
            p, q = big[home]
            ends = (a == p, b == q)
            want = dict(t["edges"][home])
            for key, zero in (("caps", False), ("angles", 0), ("fcaps", False), ("fangles", 0)):
                want[key] = tuple(v if keep else zero for v, keep in zip(want[key], ends))
            ctx.equal(e, want, "%s: side %d on the enlarged side %d" % (lab, d, home), "shape %d in shape %d x%d ends %r" % (k["shape"], t["shape"], f, ends))
            covered[home] += abs(b[0] - a[0]) + abs(b[1] - a[1])
            ctx.count("edge_pieces")
            ctx.count("edge_ends", sum(ends))
    ctx.equal(total, area2(poly), "%s: covered area" % label, sorted(kids))
    for s, (p, q) in big.items():
        ctx.equal(covered[s], abs(q[0] - p[0]) + abs(q[1] - p[1]), "%s: length of side %d" % (label, s))
    ctx.count("blocks")


def one_tile(ctx, t, f):
    obj = dm.to_tile(t)
    kids = {}
    for dx, dy, k in obj.upscale(f):
        ctx.check((dx, dy) not in kids, "two tiles at (%d, %d)" % (dx, dy), "shape %d x%d" % (t["shape"], f))
        ctx.check(isinstance(dx, int) and isinstance(dy, int), "integer tile offsets", (dx, dy))
        kids[dx, dy] = dm.plain(ctx, k, "upscaled")
    if f == 1:
        ctx.equal(kids, {(0, 0): t}, "factor one")
    block(ctx, t, f, kids, "shape %d x%d" % (t["shape"], f))
    ctx.equal(dm.from_tile(obj), t, "the tile that was upscaled")


def make(rng, shape, marked):
    t = any_tile(rng, shape, marked)
    for d in range(4):
        if d not in geom.SIDES[t["shape"]]:
            t["edges"][d] = blank_edge()
    return t


def tiles(ctx):
    rng = ctx.rng
    pairs = [(s, f) for s in range(21) for f in range(1, 10)]
    s, f = pairs[ctx.index % len(pairs)]
    if ctx.index >= 4 * len(pairs):
        f = rng.choice([f, f, rng.randrange(1, 25)]) if rng.random() < 0.97 else rng.randrange(25, 90)
    t = make(rng, s, ctx.index < len(pairs))
    ctx.count("shape_factor_pairs", ctx.index < len(pairs))
    one_tile(ctx, t, f)
    if f > 1:
        ctx.seen((t, f))
    ctx.sample((s, f))


def blocks(ctx, m, f, got, src, cell, label):
    left = dict(got)
    for (layer, x, y), t in src.items():
        cx, cy = motion.corner(m, cell, x, y)
        ctx.check(cx == int(cx) and cy == int(cy), "harness: block on the grid", (cx, cy))
        cx, cy = int(cx), int(cy)
        kids = {}
        for dx in range(f):
            for dy in range(f):
                k = left.pop((layer, cx + dx, cy + dy), None)
                if k is not None:
                    kids[dx, dy] = k
        block(ctx, geom.turn_tile(m[0], t, blank_edge), f, kids, "%s: tile %r" % (label, (layer, x, y)))
    ctx.check(not left, "%s: tiles outside every block" % label, sorted(left)[:5])


def levels(ctx):
    rng = ctx.rng
    model = motion.random_level(rng, size=0.35, blank_missing=1.0)
    bare = dm.drop_backdrop(ctx, model)
    lv = dm.to_level(model)
    if bare:
        lv.backdrop = None
    src = dm.from_level(lv)
    f = rng.choice([1, 2, 2, 3, 4, 5, rng.randrange(1, 9)])
    o = rng.choice(list(geom.ORIENT.values())) if rng.random() < 0.7 else geom.ORIENT["id"]
    ox, oy = (768 * rng.randrange(-3, 4), 768 * rng.randrange(-3, 4)) if rng.random() < 0.3 else (0, 0)
    if o == geom.ORIENT["id"] and not ox and not oy and rng.random() < 0.7:
        lv.upscale(f)
    else:
        lv.upscale(f, mat=TxMatrix(motion.matrix((o, 1, ox, oy))))
    m = (o, f, ox * f, oy * f)
    got = dm.from_level(lv)
    label = "x%d %r" % (f, (o, ox, oy))
    ctx.log(label)
    blocks(ctx, m, f, got["tiles"], src["tiles"], motion.CELL, label)
    blocks(ctx, m, f, got["btiles"], src["btiles"], motion.BCELL, label + " (backdrop)")
    motion.props(ctx, m, got["props"], src["props"], label)
    motion.props(ctx, m, got["bprops"], src["bprops"], label + " (backdrop)")
    motion.entities(ctx, m, got["entities"], src["entities"], label)
    motion.starts(ctx, m, got["vars"], src["vars"], label)
    ctx.equal(got["sshot"], src["sshot"], "%s: thumbnail" % label)
    if f == 1 and m == (geom.ORIENT["id"], 1, 0, 0):
        for k in ("tiles", "btiles", "props", "bprops"):
            ctx.equal(got[k], src[k], "factor one: %s" % k)
    ctx.count("levels")
    if f > 1 and (src["tiles"] or src["props"] or src["entities"]):
        ctx.seen((sorted(src["tiles"]), sorted(src["entities"]), label))


def dense(ctx):
    """A connected patch of tiles: neighbouring blocks stay apart, factors compose."""
    rng = ctx.rng
    m = {"vars": [], "sshot": b"", "tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}
    for x in range(-2, 3):
        for y in range(-2, 3):
            if rng.random() < 0.7:
                m["tiles"][rng.choice([19, 18]), x, y] = make(rng, None, False)
    lv, two = dm.to_level(m), dm.to_level(m)
    src = dm.from_level(lv)
    a, b = rng.choice([(2, 2), (2, 3), (3, 2)])
    lv.upscale(a * b)
    blocks(ctx, (geom.ORIENT["id"], a * b, 0, 0), a * b, dm.from_level(lv)["tiles"], src["tiles"], motion.CELL, "x%d" % (a * b))
    two.upscale(a)
    mid = dm.from_level(two)["tiles"]
    two.upscale(b)
    blocks(ctx, (geom.ORIENT["id"], b, 0, 0), b, dm.from_level(two)["tiles"], mid, motion.CELL, "x%d after x%d" % (b, a))
    ctx.equal(dm.from_level(two)["tiles"], dm.from_level(lv)["tiles"], "x%d then x%d against x%d" % (a, b, a * b))
    ctx.seen(sorted(src["tiles"]))


WORKLOADS = [
    Workload("tiles", tiles, 189 * 16 * 2, 189 * 300),
    Workload("levels", levels, 1800, 20000),
    Workload("dense", dense, 160, 2500),
]
