"""Level content models: normal form after storing, comparison, wire view."""
import copy
import math

from .dm import sort_struct
from .refcodec import scale_of

FILTHKEYS = ("fset", "spike", "fcaps", "fangles")
CLEAN = {"fset": 0, "spike": False, "fcaps": (False, False), "fangles": (0, 0)}


def norm_tile(layer, t):
    """What the format keeps of a tile: filth only on layer 19."""
    t = copy.deepcopy(t)
    t.pop("forcedust", None)
    if layer != 19 or not any(e["fset"] for e in t["edges"]):
        for e in t["edges"]:
            e.update(CLEAN)
    return t


def norm_vars(items):
    return sorted((k, sort_struct(v)) for k, v in items)


def prop_rest(p):
    return {k: p[k] for k in ("layer", "sub", "rot", "fx", "fy", "set", "group", "index", "palette")}


def ent_rest(e):
    d = {k: e[k] for k in ("type", "rot", "layer", "fx", "fy", "visible")}
    d["vars"] = norm_vars(e["vars"])
    return d


def cmp_vars(ctx, got, want, label):
    ctx.equal(norm_vars(got), norm_vars(want), label)


def cmp_tiles(ctx, got, want, label, normal=True):
    ctx.equal(sorted(got), sorted(want), "%s: tile positions" % label)
    for k, t in want.items():
        ctx.equal(got[k], norm_tile(k[0], t) if normal else t, "%s: tile at %r" % (label, k))
    ctx.count("tiles_compared", len(want))


def cmp_props(ctx, got, want, label, exact=True):
    ctx.equal(sorted(got), sorted(want), "%s: prop ids" % label)
    for i, p in want.items():
        g = got[i]
        ctx.equal(prop_rest(g), prop_rest(p), "%s: prop %d" % (label, i))
        for c in "xy":
            if exact or p[c] == int(p[c]):
                ctx.check(g[c] == p[c], "%s: prop %d at %s=%r read as %r" % (label, i, c, p[c], g[c]))
            else:
                ctx.check(abs(g[c] - p[c]) < 1, "%s: prop %d at %s=%r read as %r" % (label, i, c, p[c], g[c]))
        step = abs(math.log(g["scale"] / p["scale"])) / math.log(50) * 24
        ctx.check(step < 0.501, "%s: prop %d scale %r read as %r" % (label, i, p["scale"], g["scale"]))
        k = math.log(p["scale"]) / math.log(50) * 24
        if abs(k - round(k)) < 1e-6:
            ctx.check(abs(g["scale"] / p["scale"] - 1) < 1e-9, "%s: prop %d scale %r read as %r" % (label, i, p["scale"], g["scale"]))
    ctx.count("props_compared", len(want))


def cmp_entities(ctx, got, want, label):
    ctx.equal(sorted(got), sorted(want), "%s: entity ids" % label)
    for i, e in want.items():
        g = got[i]
        ctx.equal(ent_rest(g), ent_rest(e), "%s: entity %d" % (label, i))
        for c in "xy":
            if e[c] * 128 == int(e[c] * 128):
                ctx.check(g[c] == e[c], "%s: entity %d at %s=%r read as %r" % (label, i, c, e[c], float(g[c])))
            else:
                ctx.check(abs(g[c] - e[c]) < 1 / 128, "%s: entity %d at %s=%r read as %r" % (label, i, c, e[c], float(g[c])))
    ctx.count("entities_compared", len(want))


def cmp_level(ctx, got, want, label="read back", exact=False):
    cmp_vars(ctx, got["vars"], want["vars"], "%s: level variables" % label)
    ctx.equal(got["sshot"], want["sshot"], "%s: thumbnail" % label)
    cmp_tiles(ctx, got["tiles"], want["tiles"], label)
    cmp_props(ctx, got["props"], want["props"], label, exact)
    cmp_entities(ctx, got["entities"], want["entities"], label)
    cmp_tiles(ctx, got["btiles"], want["btiles"], label + " (backdrop)")
    cmp_props(ctx, got["bprops"], want["bprops"], label + " (backdrop)", exact)


def nontrivial(m):
    return bool(m["tiles"] or m["props"] or m["entities"] or m["btiles"] or m["bprops"])
