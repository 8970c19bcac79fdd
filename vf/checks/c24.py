"""C24: the transform tool upscales, turns, flips and shifts in that order."""
import os

from ..core import REPO, Violation, Workload
from .. import cli, dm, gen, geom, lvl, motion, refcodec, streams
from . import c18

PID = "C24"
RULE = ("level files with tiles of all shapes, props, entities with positional data, starts and backdrops, of every level type, through the "
        "real tool with every combination of upscale 1..4, any number of turns, flips and whole, half-cell and fractional shifts, to another "
        "file or in place; the output file is decoded independently and compared with the motion computed from coordinates; non-trivial: "
        "objects and a motion that is not the identity; distinct by input file and options")
REQUIRED = {"runs": 600, "upscaled": 250, "turned": 300, "flipped": 300, "shifted": 300, "upscaled_and_shifted": 120, "in_place": 80,
            "tiles_moved": 1000, "blocks": 800, "props_moved": 300, "entities_moved": 300, "starts_moved": 1500, "option_combinations": 300,
            "became_dustmod": 60, "kept_type": 60, "failed": 40, "unwritable": 10, "processes": 4}
ASSUMPTIONS = ["positions stored in the output file keep the file format's resolution (props whole pixels, entities 1/128)",
               "data of sides that the shape does not have, and spike flags without filth, are not content"]


def source(ctx):
    rng = ctx.rng
    m = motion.random_level(rng, size=0.35, blank_missing=1.0, spread=12)
    m["vars"] = [kv for kv in m["vars"] if kv[0] != "level_type"]
    lt = rng.choice([None, 0, 0, 1, 2, 3, 4, 5, 6, 6, gen.i32(rng)])
    if lt is not None:
        m["vars"].append(("level_type", ("int", lt)))
    for t in list(m["tiles"].values()) + list(m["btiles"].values()):
        for e in t["edges"]:
            if not e["fset"]:
                e.update(lvl.CLEAN)
    for d in ("props", "entities", "bprops"):
        m[d] = {i: o for i, o in m[d].items() if abs(o["x"]) < 1e6 and abs(o["y"]) < 1e6}
    return m, dm.write_level_bytes(dm.to_level(m, rng)), lt


def content(data):
    d = refcodec.dec_level(data)
    c = refcodec.level_content(d)
    c["vars"], c["sshot"] = d["vars"], d["sshot"]
    return c


def scaled_tiles(ctx, m, f, got, src, cell, label):
    """f-fold blocks, then one common shift snapped to the grid."""
    o, k, ox, oy = m
    opts = [(sx, sy) for sx in motion.snaps(ox / cell) for sy in motion.snaps(oy / cell)]
    for n, (sx, sy) in enumerate(opts):
        back = {(l, x - sx, y - sy): t for (l, x, y), t in got.items()}
        try:
            return c18.blocks(ctx, (o, f, 0, 0), f, back, src, cell, label)
        except Violation:
            if n == len(opts) - 1:
                raise


def options(rng):
    """-> (arguments, motion)"""
    args, o = [], geom.ORIENT["id"]
    f = rng.choice([None, None, 1, 2, 2, 3, 4, rng.randrange(1, 9)])
    if f is not None:
        args.append(("--upscale", f))
    r = rng.choice([None, None, 0, 1, 1, 2, 3, -1, -2, -3, 4, 5, 7, -6, 402, rng.choice([90, 180, 270, -90, 360, 45]), rng.randrange(-20, 20), rng.randrange(-10**6, 10**6)])
    if r is not None:
        args.append(("--rotate", r))
        o = geom.ORIENT[["id", "cw", "half", "ccw"][r % 4]]
    if rng.random() < 0.4:
        args.append(("--vflip",))
        o = geom.compose(geom.ORIENT["v"], o)
    if rng.random() < 0.4:
        args.append(("--hflip",))
        o = geom.compose(geom.ORIENT["h"], o)
    off = []
    for c in "xy":
        t = 0
        if rng.random() < 0.55:
            t = rng.choice([48, -48, 96, 768, -768, 24, -24, 1, -1, 100, 47, 12, 0, 0.5, -0.25, 1000.125, rng.choice((1, -1)) * gen.loglen(rng, 20), rng.choice((1, -1)) * gen.loglen(rng, 23) / 8, rng.randrange(-3000, 3000), 48 * rng.randrange(-50, 50)])
            args.append(("--translate-" + c, t) if rng.random() < 0.7 else ("--translate-%s=%r" % (c, t),))
        off.append(t)
    rng.shuffle(args)
    return [a for x in args for a in x], (o, f or 1, *off)


def verify(ctx, before, after, m, lt, label):
    src, got = content(before), content(after)
    f = m[1]
    if f > 1:
        scaled_tiles(ctx, m, f, got["tiles"], src["tiles"], motion.CELL, label)
        scaled_tiles(ctx, m, f, got["btiles"], src["btiles"], motion.BCELL, label + " (backdrop)")
    else:
        motion.tiles(ctx, m, got["tiles"], src["tiles"], motion.CELL, label)
        motion.tiles(ctx, m, got["btiles"], src["btiles"], motion.BCELL, label + " (backdrop)")
    motion.props(ctx, m, got["props"], src["props"], label, 1)
    motion.props(ctx, m, got["bprops"], src["bprops"], label + " (backdrop)", 1)
    motion.entities(ctx, m, got["entities"], src["entities"], label, 1 / 128)
    gv, sv = dict(got["vars"]), dict(src["vars"])
    gt, st = gv.pop("level_type", ("int", 0)), sv.pop("level_type", ("int", 0))
    ctx.equal(gt, ("int", 6) if f > 1 and st == ("int", 0) else st, "%s: level type" % label)
    if f > 1:
        ctx.count("became_dustmod" if st == ("int", 0) else "kept_type")
    motion.starts(ctx, m, sorted(gv.items()), sorted(sv.items()), label)
    ctx.equal(got["sshot"], src["sshot"], "%s: thumbnail" % label)


def runs(ctx):
    rng = ctx.rng
    model, data, lt = source(ctx)
    with streams.Scratch() as d:
        p = streams.putbytes(os.path.join(d, "in"), data)
        args, m = options(rng)
        inplace = rng.random() < 0.2
        q = p if inplace else os.path.join(d, "out")
        if not inplace and rng.random() < 0.5:
            streams.putbytes(q, rng.choice([b"", b"something else", data * 3]))
        paths = [p, q]
        cut = rng.randrange(3)
        r = cli.run("transform", *(paths[:cut] + args + paths[cut:] if cut != 1 else args + paths))
        label = "transform %s" % " ".join(map(str, args))
        ctx.log(label)
        ctx.equal(r.code, 0, "%s: exit code" % label, r)
        if not inplace:
            ctx.equal(streams.getbytes(p), data, "%s: input file" % label)
        verify(ctx, data, streams.getbytes(q), m, lt, label)
    o, f, ox, oy = m
    ctx.count("runs")
    ctx.count("in_place", inplace)
    ctx.count("upscaled", f > 1)
    ctx.count("turned", o != geom.ORIENT["id"])
    ctx.count("flipped", geom.mirrored(o))
    ctx.count("shifted", bool(ox or oy))
    ctx.count("upscaled_and_shifted", f > 1 and bool(ox or oy))
    ctx.count("option_combinations", len(args) > 2)
    ctx.sample(label)
    if m != motion.IDENT and lvl.nontrivial(model):
        ctx.seen(data + repr(m).encode())


def failing(ctx):
    rng = ctx.rng
    model, data, lt = source(ctx)
    with streams.Scratch() as d:
        p, q = os.path.join(d, "in"), streams.putbytes(os.path.join(d, "out"), b"keep me")
        bad = rng.choice([None, b"", b"DF_STA" + data[6:], data[:rng.randrange(1, 60)], b"junk" * 9])
        if bad is not None:
            streams.putbytes(p, bad)
        args, m = options(rng)
        r = cli.run("transform", p, q, *args)
        ctx.check(r.code != 0, "unreadable level is refused", r)
        ctx.equal(streams.getbytes(q), b"keep me", "existing output after a refused input")
        if bad is not None:
            ctx.equal(streams.getbytes(p), bad, "input after a refusal")
        streams.putbytes(p, data)
        r = cli.run("transform", p, q, rng.choice(["--upscale=x", "--rotate=1.5", "--translate-x=abc", "--nosuch"]))
        ctx.check(r.code != 0, "bad option is refused", r)
        ctx.equal((streams.getbytes(p), streams.getbytes(q)), (data, b"keep me"), "files after a bad option")
        ctx.count("failed", 2)
        # content that no longer fits the format once it is mirrored
        lv = dm.to_level(model, rng)
        for i, t in enumerate(lv.tiles.values()):
            if i % 2 == 0:
                for e in t.edge_data:
                    e.angles = (-128, -128)
        if lv.tiles:
            data = dm.write_level_bytes(lv)
            streams.putbytes(p, data)
            q2 = rng.choice([p, q])
            keep = streams.getbytes(q2)
            r = cli.run("transform", p, q2, rng.choice(["--hflip", "--vflip"]))
            if r.code != 0:
                ctx.equal(streams.getbytes(q2), keep, "existing output after a level that cannot be written")
                ctx.count("unwritable")
            if q2 != p:
                ctx.equal(streams.getbytes(p), data, "input after a level that cannot be written")


def process(ctx):
    """Through a real interpreter; the documented example on the shipped level."""
    with streams.Scratch() as d:
        if ctx.index == 0:
            data = streams.getbytes(os.path.join(REPO, "tests", "downhill"))
            m, args = (geom.ORIENT["cw"], 1, 96, 0), ["--rotate", 1, "--translate-x", 96]
        else:
            _, data, _ = source(ctx)
            args, m = options(ctx.rng)
        p = streams.putbytes(os.path.join(d, "in"), data)
        if ctx.index % 2:
            r = cli.spawn("transform", "in", "out", *args, cwd=d)
        else:
            r = cli.spawn("in", "out", *args, module="dustmaker.cmd.transform", cwd=d)
        ctx.equal(r.code, 0, "exit code", r)
        ctx.equal(streams.getbytes(p), data, "input file")
        if ctx.index:
            verify(ctx, data, streams.getbytes(os.path.join(d, "out")), m, None, "transform %r" % (args,))
        else:
            a, b = content(data), content(streams.getbytes(os.path.join(d, "out")))
            motion.entities(ctx, m, b["entities"], a["entities"], "downhill", 1 / 128)
            ctx.equal(len(b["tiles"]), len(a["tiles"]), "number of tiles")
        ctx.count("processes")


WORKLOADS = [
    Workload("runs", runs, 1000, 20000),
    Workload("failing", failing, 40, 1000),
    Workload("process", process, 6, 40),
]
