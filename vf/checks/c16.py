"""C16: tiles keep shape and edge data under turns and flips."""
import math

from dustmaker.transform import TxMatrix

from ..core import Workload
from ..refcodec import blank_edge
from .. import dm, gen, geom

PID = "C16"
RULE = ("all 21 shapes x all 8 orientations with uniquely marked edge data (exhaustive), then random tiles under random chains of turns and "
        "flips (named matrices, products, scaled, translated, float cos/sin entries); expected area and edge places computed from the corner "
        "coordinates; non-trivial: an existing edge with data; distinct by tile and chain")
REQUIRED = {"tiles_turned": 5000, "edges_followed": 15000, "mirrored": 2000, "shapes_x_orientations": 168, "restored": 2000, "filthy_edges": 3000}
ASSUMPTIONS = ["an edge shorter than a full tile does not exist; what such a side stores is not judged unless it was blank",
               "join angles in the documented range"]

NAMED = {"id": TxMatrix.IDENTITY, "h": TxMatrix.HFLIP, "v": TxMatrix.VFLIP, "cw": TxMatrix.ROTATE[1], "half": TxMatrix.ROTATE[2], "ccw": TxMatrix.ROTATE[3]}


def angle(rng):
    return rng.choice([0, 13, -13, 22, -22, 26, -31, 45, -45, 58, -58, 76, -76, rng.randrange(-89, 90)])


def tile(rng, shape=None, marked=False):
    t = gen.tile(rng, 0.6, shape)
    for d in range(4):
        e = t["edges"][d]
        e["angles"] = (angle(rng), angle(rng))
        e["fangles"] = (angle(rng), angle(rng))
        if marked:
            e.update(solid=bool(d & 1), visible=bool(d & 2), angles=(10 * d + 1, 10 * d + 2), fangles=(-10 * d - 3, -10 * d - 4), fset=d + 1)
        if d not in geom.SIDES[t["shape"]] and rng.random() < 0.7:
            t["edges"][d] = blank_edge()
    return t


def matrix(rng, name):
    """One of the ways to write the orientation as a matrix."""
    o = geom.ORIENT[name]
    r = rng.random()
    if r < 0.35 and name in NAMED:
        return NAMED[name]
    if r < 0.6:
        th = {"id": 0, "cw": 1, "half": 2, "ccw": 3, "h": 0, "v": 2, "anti": 1, "diag": 3}[name] * math.pi / 2 + 2 * math.pi * rng.randrange(-1, 2)
        c, s = math.cos(th), math.sin(th)
        m = (c, -s, s, c)
        if geom.mirrored(o):     # turn after a horizontal flip
            m = (-m[0], m[1], -m[2], m[3])
        if tuple(int(round(v)) for v in m) != o:
            raise AssertionError((name, m, o))
    else:
        m = o
    k = rng.choice([1, 1, 1, 2, 3, 0.5, 16])
    m = tuple(v * k for v in m)
    x, y = (rng.randrange(-999, 999), rng.uniform(-99, 99)) if rng.random() < 0.5 else (0, 0)
    return TxMatrix(((m[0], m[1], x), (m[2], m[3], y), (0, 0, 1)))


def compare(ctx, got, src, o, label):
    want = geom.turn_tile(o, src, blank_edge)
    ctx.equal(got["shape"], want["shape"], "%s: shape %d" % (label, src["shape"]), o)
    for k in ("flags", "set", "tile", "palette"):
        ctx.equal(got[k], want[k], "%s: %s" % (label, k))
    for d in geom.SIDES[want["shape"]]:
        ctx.equal(got["edges"][d], want["edges"][d], "%s: side %d of shape %d from shape %d" % (label, d, want["shape"], src["shape"]), o)
        ctx.count("edges_followed")
        ctx.count("filthy_edges", bool(want["edges"][d]["fset"]))
    if all(src["edges"][d] == blank_edge() for d in range(4) if d not in geom.SIDES[src["shape"]]):
        for d in range(4):
            if d not in geom.SIDES[want["shape"]]:
                ctx.equal(got["edges"][d], blank_edge(), "%s: missing side %d of shape %d" % (label, d, want["shape"]), o)
    ctx.count("tiles_turned")
    ctx.count("mirrored", geom.mirrored(o))


def systematic(ctx):
    rng = ctx.rng
    pairs = [(s, n) for s in range(21) for n in geom.ORIENT]
    s, n = pairs[ctx.index % len(pairs)]
    t = tile(rng, s, marked=ctx.index < 2 * len(pairs))
    obj = dm.to_tile(t)
    obj.transform(matrix(rng, n))
    compare(ctx, dm.plain(ctx, obj, "turned"), t, geom.ORIENT[n], n)
    ctx.count("shapes_x_orientations", ctx.index < len(pairs))
    ctx.seen((t, n))
    ctx.sample((s, n))


def chains(ctx):
    rng = ctx.rng
    t = tile(rng)
    obj = dm.to_tile(t)
    total = geom.ORIENT["id"]
    names = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        n = rng.choice(list(geom.ORIENT))
        names.append(n)
        obj.transform(matrix(rng, n))
        total = geom.compose(geom.ORIENT[n], total)
        compare(ctx, dm.plain(ctx, obj, "turned"), t, total, names)
    ctx.seen((t, names))
    inv = geom.inverse(total)
    obj.transform(TxMatrix(((inv[0], inv[1], 0), (inv[2], inv[3], 0), (0, 0, 1))))
    back = dm.from_tile(obj)
    ctx.equal(back["shape"], t["shape"], "shape restored")
    for d in geom.SIDES[t["shape"]]:
        ctx.equal(back["edges"][d], t["edges"][d], "side %d restored" % d, names)
    ctx.count("restored")
    # a product of two matrices acts like the two in turn
    a, b = rng.choice(list(geom.ORIENT)), rng.choice(list(geom.ORIENT))
    ma, mb = matrix(rng, a), matrix(rng, b)
    p, q = dm.to_tile(t), dm.to_tile(t)
    p.transform(mb)
    p.transform(ma)
    q.transform(ma * mb)
    ctx.equal(dm.from_tile(p), dm.from_tile(q), "product of %s and %s" % (a, b))


WORKLOADS = [
    Workload("systematic", systematic, 168 * 40, 168 * 150),
    Workload("chains", chains, 80000, 400000),
]
