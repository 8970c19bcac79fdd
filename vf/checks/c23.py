"""C23: the thumbnail tool only touches the thumbnail."""
import os
import sys
import types

from ..core import REPO, Workload
from .. import cli, dm, gen, lvl, refcodec, streams
from . import c08

PID = "C23"
RULE = ("levels from an independent encoder (versions 43/44), from dustmaker, without regions, and the shipped one; extraction to new, "
        "existing, empty and missing paths with and without --force; updates with images of any bytes and size, repeated, failing, and "
        "through a stand-in for the imaging library; level and image bytes compared, levels decoded independently; non-trivial: level with "
        "regions or a thumbnail; distinct by level and image")
REQUIRED = {"extractions": 500, "refused_overwrites": 200, "forced": 150, "updates": 400, "failed_updates": 150, "with_regions": 300,
            "without_regions": 60, "empty_images": 30, "had_icon_taken": 60, "converted": 60, "processes": 6}
ASSUMPTIONS = ["the imaging library is not installed here: --auto-convert and --auto-scale run against a stand-in that records the calls"]


def level_bytes(ctx):
    rng = ctx.rng
    r = rng.random()
    extra = []
    if rng.random() < 0.3:
        extra = [("icon_taken", rng.choice([("bool", False), ("bool", True), ("int", 0), ("string", b"x")]))]
        ctx.count("had_icon_taken")
    if r < 0.15:
        m = {"vars": gen.level_vars(rng) + extra, "sshot": gen.bstr(rng), "tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}
        ctx.count("without_regions")
        return dm.write_level_bytes(dm.to_level(m))
    if r < 0.65:
        lv, opts, want = c08.make(ctx, 0.4)
        lv["vars"] = [kv for kv in lv["vars"] if kv[0] != "icon_taken"] + extra
        if lv["version"] > 43 and rng.random() < 0.2:
            lv["sshot"] = rng.randbytes(rng.choice([1, 1000, 70000]))
        data = refcodec.enc_level(lv, opts)
        ctx.count("with_regions" if lv["regions"] else "without_regions")
        return data
    m = gen.level(rng, size=0.4)
    m["vars"] = [kv for kv in m["vars"] if kv[0] != "icon_taken"] + extra
    data = dm.write_level_bytes(dm.to_level(m, rng))
    ctx.count("with_regions" if refcodec.dec_level(data)["nregions"] else "without_regions")
    return data


def image(rng):
    return rng.choice([b"", b"\x89PNG\r\n\x1a\n" + rng.randbytes(40), rng.randbytes(rng.randrange(1, 300)), rng.randbytes(5000), b"\0" * 7,
                       b"DF_MTD" * 3, rng.randbytes(80000)])


def extract(ctx):
    rng = ctx.rng
    data = level_bytes(ctx)
    want = refcodec.dec_level(data)["sshot"]
    with streams.Scratch() as d:
        p, q = streams.putbytes(os.path.join(d, "level"), data), os.path.join(d, "image")
        for _ in range(3):
            old = rng.choice([None, None, b"", rng.randbytes(20), want + b"more"])
            if os.path.exists(q):
                os.remove(q)
            if old is not None:
                streams.putbytes(q, old)
            force = rng.random() < 0.5
            args = ["thumbnail", p, q] + (["--force"] if force else [])
            if rng.random() < 0.3:
                args = [args[0]] + args[3:] + args[1:3]
            r = cli.run(*args)
            if old is not None and not force:
                ctx.check(r.code != 0, "an existing image is not overwritten", r)
                ctx.equal(streams.getbytes(q), old, "existing image after a refused extraction")
                ctx.count("refused_overwrites")
            else:
                ctx.equal(r.code, 0, "exit code of an extraction", r)
                ctx.equal(streams.getbytes(q), want, "extracted image")
                ctx.count("extractions")
                ctx.count("forced", old is not None)
            ctx.equal(streams.getbytes(p), data, "level after an extraction")
        ctx.equal(sorted(os.listdir(d)), ["image", "level"] if os.path.exists(q) else ["level"], "files left by an extraction")
    if want:
        ctx.seen(data)
    ctx.sample("%d-byte level, %d-byte thumbnail" % (len(data), len(want)))


def verify(ctx, before, after, img, label):
    b, a = refcodec.dec_level(before), refcodec.dec_level(after)
    ctx.equal(a["sshot"], img, "%s: thumbnail" % label)
    v = [kv for kv in b["vars"] if kv[0] != "icon_taken"]
    ctx.equal(dict(a["vars"]).get("icon_taken"), ("bool", True), "%s: icon_taken" % label)
    ctx.equal(lvl.norm_vars(kv for kv in a["vars"] if kv[0] != "icon_taken"), lvl.norm_vars(v), "%s: other variables" % label)
    for k in ("regbytes", "dir", "nregions"):
        ctx.equal(a[k], b[k], "%s: %s" % (label, k))
    ctx.equal(a["nextid"], max(b["nextid"], 101), "%s: next id" % label)
    ctx.equal((a["size"], a["end"]), (len(after), len(after)), "%s: size" % label)


def update(ctx):
    rng = ctx.rng
    data = level_bytes(ctx)
    with streams.Scratch() as d:
        p, q = streams.putbytes(os.path.join(d, "level"), data), os.path.join(d, "image")
        for _ in range(2):
            img = image(rng)
            ctx.count("empty_images", not img)
            streams.putbytes(q, img)
            before = streams.getbytes(p)
            r = cli.run("thumbnail", p, q, "--update", *(["--force"] if rng.random() < 0.3 else []))
            ctx.equal(r.code, 0, "exit code of an update", r)
            after = streams.getbytes(p)
            verify(ctx, before, after, img, "updated")
            ctx.equal(streams.getbytes(q), img, "image file after an update")
            ctx.count("updates")
        r = cli.run("thumbnail", p, q, "--update")
        ctx.equal(streams.getbytes(p), after, "the same update again")
        # and out again
        q2 = os.path.join(d, "out")
        r = cli.run("thumbnail", p, q2)
        ctx.equal((r.code, streams.getbytes(q2)), (0, img), "extracting what was stored")
    ctx.seen(data + img)


def failing(ctx):
    """Updates that cannot be done leave the level alone."""
    rng = ctx.rng
    data = level_bytes(ctx)
    with streams.Scratch() as d:
        p = streams.putbytes(os.path.join(d, "level"), data)
        q = os.path.join(d, "image")
        for args in (["--update"], ["--auto-convert"], ["--auto-scale"]):
            r = cli.run("thumbnail", p, q, *args)
            ctx.check(r.code != 0, "update from a missing image fails", r)
            ctx.equal(streams.getbytes(p), data, "level after a failed update")
            ctx.count("failed_updates")
        # not a level, or a damaged one
        streams.putbytes(q, b"new image")
        for bad in (b"", b"DF_STA" + rng.randbytes(30), data[:rng.randrange(1, 40)], b"DF_LVX" + data[6:]):
            streams.putbytes(p, bad)
            out = os.path.join(d, "out")
            r = cli.run("thumbnail", p, rng.choice([q, out]), *rng.choice([[], ["--update"], ["--force", "--update"]]))
            ctx.check(r.code != 0, "not a level is refused", r)
            ctx.equal(streams.getbytes(p), bad, "file that is no level after a refusal")
            ctx.equal(streams.getbytes(q), b"new image", "image after a refusal")
        # cut short somewhere, also inside the region data
        size = min(len(data), int.from_bytes(data[8:12], "little"))
        for cut in {rng.randrange(12, size), size - 1, size - rng.randrange(1, min(size - 12, 200))}:
            streams.putbytes(p, data[:cut])
            r = cli.run("thumbnail", p, q, "--update")
            ctx.check(r.code != 0, "updating a level that is cut short fails", cut, size, r)
            ctx.equal(streams.getbytes(p), data[:cut], "level that is cut short, after a failed update", cut, size)
            ctx.count("failed_updates")


class Gap(Exception):
    """The tool used a part of the library the stand-in does not have."""


def standin(img, calls):
    class Pic:
        def __init__(self, data):
            self.data = data

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def resize(self, size, *a, **k):
            calls.append(("resize", tuple(size)))
            return Pic(b"scaled " + self.data)

        def save(self, fp, *a, **k):
            fmt = k.get("format", a[0] if a else None)
            calls.append(("save", fmt))
            fp.write(b"as " + str(fmt).encode() + b" " + self.data)

        def __getattr__(self, name):
            raise Gap(name)

    def opener(fp, *a, **k):
        data = fp.read() if hasattr(fp, "read") else streams.getbytes(fp)
        calls.append(("open", data))
        return Pic(data)
    mod, sub = types.ModuleType("PIL"), types.ModuleType("PIL.Image")
    sub.open = opener
    mod.Image = sub
    return mod, sub


def convert(ctx):
    rng = ctx.rng
    data, img = level_bytes(ctx), image(rng)
    scale = rng.random() < 0.5
    args = (["--auto-scale"] if scale else ["--auto-convert"]) + rng.choice([[], ["--update"], ["--auto-convert"], ["--force"], ["--force", "--update"]])
    calls = []
    saved = {k: sys.modules.get(k) for k in ("PIL", "PIL.Image")}
    with streams.Scratch() as d:
        p, q = streams.putbytes(os.path.join(d, "level"), data), streams.putbytes(os.path.join(d, "image"), img)
        sys.modules["PIL"], sys.modules["PIL.Image"] = standin(img, calls)
        try:
            r = cli.run("thumbnail", p, q, *args)
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        if isinstance(r.exc, (Gap, AttributeError, ImportError)):
            ctx.count("standin_gap")
            ctx.equal(streams.getbytes(p), data, "level after a failed update")
            return
        ctx.equal(r.code, 0, "exit code of a converting update", r)
        verify(ctx, data, streams.getbytes(p), b"as PNG " + (b"scaled " if scale else b"") + img, "converted")
        ctx.equal([c for c in calls if c[0] == "resize"], [("resize", (382, 182))] if scale else [], "scaling")
        ctx.equal(streams.getbytes(q), img, "image file after an update")
        ctx.count("converted")


def process(ctx):
    with streams.Scratch() as d:
        data = streams.getbytes(os.path.join(REPO, "tests", "downhill")) if ctx.index < 2 else level_bytes(ctx)
        p, q = streams.putbytes(os.path.join(d, "level"), data), os.path.join(d, "image")

        def runner(*a):
            ctx.count("processes")
            if ctx.index % 2:
                return cli.spawn("thumbnail", *a, cwd=d)
            return cli.spawn(*a, module="dustmaker.cmd.thumbnail", cwd=d)
        r = runner("level", "image")
        ctx.equal((r.code, streams.getbytes(q)), (0, refcodec.dec_level(data)["sshot"]), "extracted")
        r = runner("level", "image")
        ctx.check(r.code != 0, "existing image is not overwritten", r)
        streams.putbytes(q, b"new")
        r = runner("level", "image", "--update")
        ctx.equal(r.code, 0, "exit code of an update", r)
        verify(ctx, data, streams.getbytes(p), b"new", "updated")


WORKLOADS = [
    Workload("extract", extract, 1000, 12000),
    Workload("update", update, 1000, 12000),
    Workload("failing", failing, 160, 2000),
    Workload("convert", convert, 200, 2000),
    Workload("process", process, 4, 40),
]
