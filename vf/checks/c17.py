"""C17: level transforms move everything as one rigid body."""
from dustmaker.transform import TxMatrix

from ..core import Workload
from .. import dm, gen, geom, motion

PID = "C17"
RULE = ("random levels with backdrops (all shapes and layers, props, every entity type with its positional variables, player starts) under "
        "random histories of flips, turns, translations and matrix transforms; after every step the whole level is compared with the motion "
        "computed from coordinates; opposite histories and combined matrices; non-trivial: a non-identity step on a level with objects; "
        "distinct by level and history")
REQUIRED = {"steps": 4000, "tiles_moved": 15000, "props_moved": 5000, "entities_moved": 5000, "positional_data": 2500, "starts_moved": 10000,
            "restored": 400, "combined": 400, "fractional_shifts": 600, "backdrop_tiles": 1500}
ASSUMPTIONS = ["positional entity variables absent or of their documented type; absent means the default",
               "at an exact half-cell shift either neighbouring cell is accepted, the same one for all tiles",
               "orientation convention: a horizontal flip toggles the vertical-flip flag and negates the rotation (a horizontal-flip flag counts as a vertical flip plus a half turn)"]


def step(rng, lv, grid):
    """Apply one random operation; returns the motion it stands for."""
    r = rng.random()
    unit = grid or 1
    if r < 0.15:
        lv.flip_horizontal()
        return (geom.ORIENT["h"], 1, 0, 0), "h"
    if r < 0.3:
        lv.flip_vertical()
        return (geom.ORIENT["v"], 1, 0, 0), "v"
    if r < 0.55:
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, -1, -2, -3, -7, 1001, rng.randrange(-40, 40), rng.randrange(-10**9, 10**9)])
        if n == 1 and rng.random() < 0.5:
            lv.rotate()
        else:
            lv.rotate(n)
        return (geom.ORIENT[["id", "cw", "half", "ccw"][n % 4]], 1, 0, 0), "rotate %d" % n
    if grid:
        x, y = grid * rng.randrange(-9, 10), grid * rng.randrange(-9, 10)
        if rng.random() < 0.3:
            x, y = float(x), float(y)
    else:
        x, y = (rng.choice([0, 1, -1, 24, -24, 72, 23, 25, 47, 48, -48, 384, -384, 768, 12, 0.5, -0.25, rng.randrange(-3000, 3000), rng.uniform(-200, 200), 48 * rng.choice((1, -1)) * gen.loglen(rng, 20), rng.choice((1, -1)) * gen.loglen(rng, 24) / 8]) for _ in range(2))
    if r < 0.8:
        lv.translate(x, y)
        return (geom.ORIENT["id"], 1, x, y), "translate %r %r" % (x, y)
    o = rng.choice(list(geom.ORIENT.values()))
    m = (o, 1, x, y)
    lv.transform(TxMatrix(motion.matrix(m)))
    return m, "transform %r" % (m,)


def histories(ctx):
    rng = ctx.rng
    model = motion.random_level(rng)
    bare = dm.drop_backdrop(ctx, model)
    lv = dm.to_level(model)
    if bare:
        lv.backdrop = None
    cur = dm.from_level(lv)
    hist = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        m, what = step(rng, lv, 0)
        hist.append(what)
        ctx.log(what)
        got = dm.from_level(lv)
        motion.level(ctx, m, got, cur, "after %s" % what)
        cur = got
        ctx.count("steps")
        ctx.count("fractional_shifts", bool(m[2] % 48 or m[3] % 48))
        ctx.count("backdrop_tiles", len(cur["btiles"]))
    ctx.sample(hist)
    if model["tiles"] or model["props"] or model["entities"]:
        ctx.seen((sorted(model["tiles"]), sorted(model["entities"]), sorted(model["props"]), hist))


def defaults(m):
    """Model with defaults filled in, for comparing whole levels."""
    m = dict(m)
    v = dict(m["vars"])
    for k in motion.START:
        v.setdefault(k, ("int", 0))
    m["vars"] = sorted(v.items())
    m["entities"] = {i: {**e, "vars": sorted(motion.full_vars(e).items())} for i, e in m["entities"].items()}
    for d in ("tiles", "btiles"):
        m[d] = {k: {**t, "edges": [t["edges"][s] if s in geom.SIDES[t["shape"]] else None for s in range(4)]} for k, t in m[d].items()}
    return m


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) < 1e-6
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def norm_orient(m):
    for d in ("props", "bprops", "entities"):
        for o in m[d].values():
            o["rot"], o["fy"] = motion.canon(o["rot"], o["fx"], o["fy"])
            o["fx"] = False
    return m


def same_level(ctx, a, b, label):
    a, b = norm_orient(defaults(a)), norm_orient(defaults(b))
    if not close(a, b):
        for k in a:
            ctx.check(close(a[k], b[k]), "%s: %s" % (label, k), [(i, a[k].get(i), b[k].get(i)) for i in set(a[k]) | set(b[k]) if not close(a[k].get(i), b[k].get(i))][:2]
                      if isinstance(a[k], dict) else (a[k], b[k]))


def opposite(ctx):
    """A history of grid-aligned operations, undone step by step, and redone as one matrix."""
    rng = ctx.rng
    model = motion.random_level(rng)
    lv, one = dm.to_level(model), dm.to_level(model)
    start = dm.from_level(lv)
    total = motion.IDENT
    mat = TxMatrix.IDENTITY
    hist = []
    ms = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        m, what = step(rng, lv, 768)
        hist.append(what)
        ms.append(m)
        total = motion.after(total, m)
        mat = TxMatrix(motion.matrix(m)) * mat
    got = dm.from_level(lv)
    motion.level(ctx, total, got, start, "after %r" % hist)
    one.transform(mat)
    same_level(ctx, dm.from_level(one), got, "combined transform of %r" % hist)
    ctx.count("combined")
    for o, k, ox, oy in reversed(ms):
        if rng.random() < 0.5:
            lv.translate(-ox, -oy)
            i = geom.inverse(o)
            lv.transform(TxMatrix(motion.matrix((i, 1, 0, 0))))
        else:
            i = geom.inverse(o)
            px, py = motion.point((i, 1, 0, 0), -ox, -oy)
            lv.transform(TxMatrix(motion.matrix((i, 1, px, py))))
    same_level(ctx, dm.from_level(lv), start, "undone %r" % hist)
    ctx.count("restored")
    if model["tiles"] or model["props"] or model["entities"]:
        ctx.seen((sorted(model["tiles"]), sorted(model["entities"]), sorted(model["props"]), hist))


def stored(ctx):
    """The moved level written to a file and read back is the moved level."""
    rng = ctx.rng
    model = motion.random_level(rng, spread=40)
    for e in model["entities"].values():
        e["x"], e["y"] = round(e["x"]), round(e["y"])
    model["props"] = {i: p for i, p in model["props"].items() if abs(p["x"]) < 2**20 and abs(p["y"]) < 2**20}
    # what stays inside the file's coordinates when moved
    model["entities"] = {i: e for i, e in model["entities"].items() if abs(e["x"]) < 2**27 and abs(e["y"]) < 2**27}
    for k, top in (("tiles", 2**22), ("btiles", 2**18)):
        model[k] = {p: t for p, t in model[k].items() if abs(p[1]) < top and abs(p[2]) < top}
    lv = dm.to_level(model)
    m, what = step(rng, lv, 768)
    mem = dm.from_level(lv)
    got = dm.from_level(dm.read_level_bytes(dm.write_level_bytes(lv)))
    if any(t["edges"][s] != dm.blank_edge() for d in ("tiles", "btiles") for t in model[d].values() for s in range(4) if s not in geom.SIDES[t["shape"]]):
        return
    ctx.equal(sorted(got["tiles"]), sorted(mem["tiles"]), "tiles read back after %s" % what)
    ctx.equal(sorted(got["btiles"]), sorted(mem["btiles"]), "backdrop tiles read back after %s" % what)
    ctx.equal({i: (e["x"], e["y"]) for i, e in got["entities"].items()}, {i: (e["x"], e["y"]) for i, e in mem["entities"].items()}, "entities read back after %s" % what)
    ctx.equal({i: (e["x"], e["y"]) for i, e in got["props"].items()}, {i: (e["x"], e["y"]) for i, e in mem["props"].items()}, "props read back after %s" % what)
    ctx.count("stored")


WORKLOADS = [
    Workload("histories", histories, 9000, 90000),
    Workload("opposite", opposite, 3000, 30000),
    Workload("stored", stored, 900, 6000),
]
