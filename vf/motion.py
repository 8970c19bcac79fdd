"""Expected effect of one rigid (or uniformly scaled) motion on a level model.

A motion is (o, k, ox, oy): p -> k * o(p) + (ox, oy), o one of geom.ORIENT.
Everything here works on the plain models of dm.from_level and computes the
result from coordinates; it shares no code with dustmaker.
"""
import math

from . import entprops, gen, geom
from .refcodec import blank_edge

IDENT = (geom.ORIENT["id"], 1, 0, 0)
CELL, BCELL = 48, 768          # pixels per tile, per backdrop tile
HITTABLE = [t for t in gen.TYPES if t.startswith(("enemy_", "dust_"))] + ["hittable_apple", "leaf_sprite", "trash_king", "slime_boss"]


def point(m, x, y, off=True):
    o, k, ox, oy = m
    px = k * (o[0] * x + o[1] * y)
    py = k * (o[2] * x + o[3] * y)
    return (px + ox, py + oy) if off else (px, py)


def after(m, n):
    """The motion m followed by n."""
    ox, oy = point(n, m[2], m[3])
    return (geom.compose(n[0], m[0]), m[1] * n[1], ox, oy)


def matrix(m):
    o, k, ox, oy = m
    return ((o[0] * k, o[1] * k, ox), (o[2] * k, o[3] * k, oy), (0, 0, 1))


def canon(rot, fx, fy):
    """Orientation with the redundant horizontal flip expressed by the other two."""
    if fx:
        return (rot + 0x8000) & 0xFFFF, not fy
    return rot & 0xFFFF, bool(fy)


QUARTERS = {"id": 0, "cw": 1, "half": 2, "ccw": 3}


def turn(o, rot, fy):
    """o is a horizontal flip (or nothing) applied after a number of quarter turns."""
    flip = geom.mirrored(o)
    r = geom.compose(geom.ORIENT["h"], o) if flip else o
    q = next(QUARTERS[n] for n in QUARTERS if geom.ORIENT[n] == r)
    rot = rot + 0x4000 * q
    if flip:
        return -rot & 0xFFFF, not fy
    return rot & 0xFFFF, fy


def orientation(ctx, o, got, src, label):
    want = turn(o, *canon(src["rot"], src["fx"], src["fy"]))
    ctx.check(0 <= got["rot"] <= 0xFFFF, "%s: rotation %r is a 16-bit number" % (label, got["rot"]), (o, src["rot"]))
    ctx.equal(canon(got["rot"], got["fx"], got["fy"]), want, "%s: orientation" % label, (o, (src["rot"], src["fx"], src["fy"])))


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def place(ctx, m, got, src, label, step=0):
    """step: what the position may lose to storage when not a multiple of it."""
    wx, wy = point(m, src["x"], src["y"])

    def ok(g, w):
        return near(g, w) or (step and w / step != int(w / step) and abs(g - w) < step)
    ctx.check(ok(got["x"], wx) and ok(got["y"], wy), "%s: position" % label,
              "from %r to %r, expected %r" % ((src["x"], src["y"]), (got["x"], got["y"]), (wx, wy)))


# ----------------------------------------------------- positional variables
DEFAULTS = {
    "check_point": [("trigger_area", ("array", ("vec2", [])))],
    "level_end_prox": [("trigger_area", ("array", ("vec2", [])))],
    "kill_box": [("width", ("int", 0)), ("height", ("int", 0))],
    "AI_controller": [("nodes", ("array", ("vec2", [])))],
    "camera_node": [("zoom_h", ("int", 1080)), ("width", ("int", 520))],
    "enemy_key": [("lastKnowX", ("float", 0.0)), ("lastKnowY", ("float", 0.0))],
}


def full_vars(e):
    d = dict(e["vars"])
    for k, v in DEFAULTS.get(e["type"], ()):
        d.setdefault(k, v)
    if e["type"] in HITTABLE:
        d.setdefault("dm_scale", ("float", 1.0))
    return d


def entity_vars(ctx, m, got, src, label):
    want, have = full_vars(src), full_vars(got)
    t = src["type"]
    ctx.equal(sorted(have), sorted(want), "%s: variables" % label)

    def points(key, off):
        w = [("vec2", point(m, *p[1], off=off)) for p in want[key][1][1]]
        h = have[key]
        ctx.check(h[0] == "array" and h[1][0] == "vec2" and len(h[1][1]) == len(w)
                  and all(near(a[1][0], b[1][0]) and near(a[1][1], b[1][1]) for a, b in zip(h[1][1], w)),
                  "%s: %s" % (label, key), "got %r, expected %r" % (h, w))
        ctx.count("positional_data")
        del want[key], have[key]

    if t in ("check_point", "level_end_prox"):
        points("trigger_area", False)
    elif t == "AI_controller":
        points("nodes", True)
    elif t == "kill_box":
        w, h = point(m, want["width"][1], want["height"][1], off=False)
        want["width"], want["height"] = ("int", int(abs(w))), ("int", int(abs(h)))
        ctx.count("positional_data")
    elif t == "camera_node":
        for k in ("zoom_h", "width"):
            want[k] = ("int", int(round(want[k][1] * m[1])))
    elif t == "enemy_key":
        w = point(m, want["lastKnowX"][1], want["lastKnowY"][1])
        h = have["lastKnowX"], have["lastKnowY"]
        ctx.check(h[0][0] == h[1][0] == "float" and near(h[0][1], w[0]) and near(h[1][1], w[1]), "%s: last known position" % label,
                  "got %r, expected %r" % (h, w))
        for k in ("lastKnowX", "lastKnowY"):
            del want[k], have[k]
        ctx.count("positional_data")
    if t in HITTABLE:
        w, h = want.pop("dm_scale"), have.pop("dm_scale")
        ctx.check(h[0] == "float" and near(h[1], w[1] * m[1]), "%s: scale" % label, "got %r, expected %r * %r" % (h, w[1], m[1]))
    ctx.equal(sorted(have.items()), sorted(want.items()), "%s: variables" % label)


# -------------------------------------------------------------- whole level
def props(ctx, m, got, src, label, step=0):
    ctx.equal(sorted(got), sorted(src), "%s: prop ids" % label)
    for i, s in src.items():
        g = got[i]
        lab = "%s: prop %d" % (label, i)
        place(ctx, m, g, s, lab, step)
        orientation(ctx, m[0], g, s, lab)
        for k in ("layer", "sub", "scale", "set", "group", "index", "palette"):
            ctx.equal(g[k], s[k], "%s: %s" % (lab, k))
        ctx.count("props_moved")


def entities(ctx, m, got, src, label, step=0):
    ctx.equal(sorted(got), sorted(src), "%s: entity ids" % label)
    for i, s in src.items():
        g = got[i]
        lab = "%s: entity %d (%s)" % (label, i, s["type"])
        place(ctx, m, g, s, lab, step)
        orientation(ctx, m[0], g, s, lab)
        for k in ("type", "layer", "visible"):
            ctx.equal(g[k], s[k], "%s: %s" % (lab, k))
        entity_vars(ctx, m, g, s, lab)
        ctx.count("entities_moved")


START = ["p%d_%s" % (p, c) for p in range(1, 5) for c in "xy"]


def starts(ctx, m, got, src, label):
    g, s = dict(got), dict(src)
    for p in range(1, 5):
        kx, ky = "p%d_x" % p, "p%d_y" % p
        w = point(m, s.get(kx, ("int", 0))[1], s.get(ky, ("int", 0))[1])
        for k, v in zip((kx, ky), w):
            h = g.get(k, ("int", 0))
            ctx.check(h[0] == "int" and abs(h[1] - v) <= 0.5 + 1e-6 and (v != int(v) or h[1] == v), "%s: start position %s" % (label, k),
                      "got %r, expected %r" % (h, v))
        ctx.count("starts_moved")
    ctx.equal(sorted((k, v) for k, v in g.items() if k not in START), sorted((k, v) for k, v in s.items() if k not in START),
              "%s: level variables" % label)


def corner(m, cell, x, y):
    """Minimum corner (in cells, exact) of the moved square of cell (x, y)."""
    ps = [point(m, (x + a) * cell, (y + b) * cell) for a in (0, 1) for b in (0, 1)]
    return min(p[0] for p in ps) / cell, min(p[1] for p in ps) / cell


def snaps(v):
    """Nearest integers (two of them at a tie)."""
    lo = math.floor(v)
    f = v - lo
    if abs(f - 0.5) < 1e-6:
        return [lo, lo + 1]
    return [lo if f < 0.5 else lo + 1]


def tiles(ctx, m, got, src, cell, label):
    """Unscaled motion: every tile square moves alike, snapped to the grid."""
    ctx.equal(len(got), len(src), "%s: number of tiles" % label)
    if not src:
        return
    l0, x0, y0 = next(iter(src))
    cx, cy = corner(m, cell, x0, y0)
    options = []
    for sx in snaps(cx):
        for sy in snaps(cy):
            w = {}
            for (layer, x, y), t in src.items():
                tx, ty = corner(m, cell, x, y)
                w[layer, round(sx + tx - cx), round(sy + ty - cy)] = t
            options.append(w)
    keys = set(got)
    fit = [w for w in options if set(w) == keys]
    ctx.check(bool(fit), "%s: tile places" % label, "got %r, expected %r" % (sorted(keys)[:6], [sorted(w)[:6] for w in options]))
    for k, t in fit[0].items():
        want = geom.turn_tile(m[0], t, blank_edge)
        g = got[k]
        for f in ("shape", "flags", "set", "tile", "palette"):
            ctx.equal(g[f], want[f], "%s: %s of tile %r" % (label, f, k))
        blank = all(t["edges"][d] == blank_edge() for d in range(4) if d not in geom.SIDES[t["shape"]])
        for d in range(4):
            if d in geom.SIDES[want["shape"]] or blank:
                ctx.equal(g["edges"][d], want["edges"][d], "%s: side %d of tile %r" % (label, d, k))
        ctx.count("tiles_moved")


def level(ctx, m, got, src, label):
    tiles(ctx, m, got["tiles"], src["tiles"], CELL, label)
    tiles(ctx, m, got["btiles"], src["btiles"], BCELL, label + " (backdrop)")
    props(ctx, m, got["props"], src["props"], label)
    props(ctx, m, got["bprops"], src["bprops"], label + " (backdrop)")
    entities(ctx, m, got["entities"], src["entities"], label)
    starts(ctx, m, got["vars"], src["vars"], label)
    ctx.equal(got["sshot"], src["sshot"], "%s: thumbnail" % label)


# ---------------------------------------------------------------- generator
def vec(rng, frac=8):
    x, y = (0.0 if rng.random() < 0.1 else (rng.randrange(-4000, 4000) if rng.random() < 0.8 else rng.choice((1, -1)) * gen.loglen(rng, 26)) / frac for _ in range(2))
    return (0.0, 0.0) if rng.random() < 0.08 else (x, y)


def typed_vars(rng, t):
    """Variables of the documented types for the positional data of a type."""
    out = [("vf{%d" % rng.randrange(9), ("int", rng.randrange(99)))] if rng.random() < 0.4 else []

    def pts(key):
        out.append((key, ("array", ("vec2", [("vec2", vec(rng)) for _ in range(rng.choice([0, 1, 2, 5, gen.loglen(rng, 5)]))]))))

    some = rng.random() < 0.85
    if t in ("check_point", "level_end_prox") and some:
        pts("trigger_area")
    elif t == "AI_controller" and some:
        pts("nodes")
        out.append(("puppet_id", ("uint", rng.randrange(500))))
    elif t == "kill_box" and some:
        out += [("width", ("int", rng.choice([0, 48, 100, 7, gen.loglen(rng, 24), rng.randrange(3000)]))), ("height", ("int", rng.choice([0, 96, 33, 1000, gen.loglen(rng, 24), rng.randrange(3000)])))]
    elif t == "camera_node" and some:
        out += [("zoom_h", ("int", rng.choice([1080, 600, 1, 0, gen.loglen(rng, 22)]))), ("width", ("int", rng.choice([520, 77, 0, gen.loglen(rng, 22)])))]
    elif t == "enemy_key" and some:
        x, y = vec(rng)
        out += [("lastKnowX", ("float", x)), ("lastKnowY", ("float", y))]
    if t in HITTABLE and rng.random() < 0.3:
        out.append(("dm_scale", ("float", rng.choice([0.5, 1.0, 2.0, 1.25, gen.loglen(rng, 14) / 64]))))
    out += entprops.documented(rng, t, MOVED | {k for k, _ in out})
    rng.shuffle(out)
    return out


# what a motion may change
MOVED = {"trigger_area", "nodes", "width", "height", "zoom_h", "lastKnowX", "lastKnowY", "dm_scale"}
POSITIONAL = ["check_point", "level_end_prox", "kill_box", "AI_controller", "camera_node", "enemy_key"]


def random_level(rng, size=0.5, blank_missing=0.7, spread=20):
    """A level model made for moving: typed entity variables, in-range angles."""
    m = gen.level(rng, size=size, far=0.0, spread=spread)
    m["vars"] = [(k, v) for k, v in m["vars"] if k not in START]
    for k in START:
        if rng.random() < 0.6:
            m["vars"].append((k, ("int", rng.choice([0, 48, -48, 23, -1, rng.randrange(-9999, 9999), gen.loglen(rng, 27), -gen.loglen(rng, 27)]))))
    for d in ("tiles", "btiles"):
        for t in m[d].values():
            for s in range(4):
                e = t["edges"][s]
                e["angles"] = tuple(max(-89, min(89, a)) for a in e["angles"])
                e["fangles"] = tuple(max(-89, min(89, a)) for a in e["fangles"])
                if s not in geom.SIDES[t["shape"]] and rng.random() < blank_missing:
                    t["edges"][s] = blank_edge()
    ids = sorted(m["entities"])
    for i in ids:
        e = m["entities"][i]
        if rng.random() < 0.5:
            e["type"] = rng.choice(POSITIONAL)
        e["vars"] = typed_vars(rng, e["type"])
    return m
