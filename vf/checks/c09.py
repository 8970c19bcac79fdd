"""C09: metadata edits leave everything else untouched; rewriting is stable."""
import io
import os

from dustmaker import DFReader, DFWriter
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level

from ..core import REPO, Workload
from .. import dm, gen, lvl, refcodec, streams
from . import c08

PID = "C09"
RULE = ("level files from an independent encoder, from dustmaker, and the shipped level; metadata read, variables and thumbnail edited "
        "(grown, shrunk, retyped, emptied), written back with the raw region bytes in one piece or arbitrary chunks, at any offset; "
        "result decoded independently; read/write cycles and repeated writes compared byte by byte; non-trivial: the file has regions; "
        "distinct by file bytes")
REQUIRED = {"edits": 1000, "with_regions": 600, "changed_size": 500, "chunked": 300, "cycles": 400, "refusals_observed": 500}
ASSUMPTIONS = ["the format's lowest next id is 101: a smaller one in the input is raised to it",
               "a spike flag on a tile without any filth sprite is no content (it is not kept)"]


def source(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.6:
        lv, opts, want = c08.make(ctx, 0.7, stray_spikes=False)
        return shuffled(ctx, refcodec.enc_level(lv, opts))
    m = gen.level(rng, size=0.6) if rng.random() < 0.97 else gen.big_level(rng, rng.choice(gen.BIG))
    return shuffled(ctx, dm.write_level_bytes(dm.to_level(m, rng)))


def shuffled(ctx, data):
    """Sometimes list the regions in another order than they are stored."""
    if ctx.rng.random() > 0.2:
        return data
    ref = refcodec.dec_level(data)
    if ref["nregions"] < 2:
        return data
    order = list(ref["dir"])
    ctx.rng.shuffle(order)
    n = int.from_bytes(data, "little")
    for k, off in enumerate(order):
        at = ref["dirpos"] + 32 * k
        n = n & ~(0xFFFFFFFF << at) | off << at
    ctx.count("shuffled_directories")
    return n.to_bytes(len(data), "little")


def edit(rng, level, want):
    """Random edits through the public API; want follows."""
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        r = rng.random()
        # level_type decides how old segments decode, so it stays
        keys = [k for k in want["vars"] if k != "level_type"]
        if r < 0.3:
            k, v = gen.name(rng), gen.var(rng, 1)
            level.variables[k] = dm.to_var(v)
            want["vars"][k] = v
        elif r < 0.5 and keys:
            k = rng.choice(keys)
            del level.variables[k], want["vars"][k]
        elif r < 0.65:
            n = rng.choice([b"", b"x", gen.bstr(rng)])
            level.name = n
            want["vars"]["level_name"] = ("string", n)
        elif r < 0.75:
            x = gen.i32(rng)
            level.start_position(2).x = x
            want["vars"]["p2_x"] = ("int", x)
        else:
            level.sshot = want["sshot"] = rng.choice([b"", b"a", gen.bstr(rng), rng.randbytes(300), rng.randbytes(rng.choice([256, 4096, 65535, 65536, 70001]))])


def chunks(rng, b):
    out, i = [], 0
    sizes = [0, 1, 2, 7, 64, 1000, len(b)]
    if rng.random() < 0.3:
        sizes = [max(1, len(b) // rng.choice([100, 300, 1000, 5000]))]     # many pieces
    while i < len(b):
        n = rng.choice(sizes)
        out.append(b[i:i + n])
        i += n
    if rng.random() < 0.3:
        out.append(b"")
    return out


def edits(ctx):
    rng = ctx.rng
    if ctx.workload == "real":
        data = streams.getbytes(os.path.join(REPO, "tests", "downhill"))
    else:
        data = source(ctx)
    ref = refcodec.dec_level(data)
    lead = rng.randbytes(rng.choice([0, 0, 1, 5, 300]))
    src = io.BytesIO(lead + data + rng.choice([b"", b"more"]))
    src.seek(len(lead))
    with DFReader(src, noclose=True) as r:
        level, offs = r.read_level_ex()
        region = r.read_bytes(offs[-1])
    ctx.equal(region, ref["regbytes"], "raw region bytes read")
    want = {"vars": dict(ref["vars"]), "sshot": ref["sshot"]}
    edit(rng, level, want)
    payload = region
    mode = rng.choice(["bytes", "list", "gen"])
    if mode != "bytes":
        cs = chunks(rng, region)
        payload = cs if mode == "list" else (c for c in cs)
        ctx.count("chunked")
    pre = rng.randbytes(rng.choice([0, 0, 3, 50]))
    buf = io.BytesIO(pre)
    buf.seek(len(pre))
    with DFWriter(buf, noclose=True) as w:
        w.write_level_ex(level, list(offs), payload)
        w.write_bytes(b"AFTER")
    out = buf.getvalue()
    ctx.equal(out[:len(pre)], pre, "bytes before the level")
    ctx.equal(out[-5:], b"AFTER", "bytes after the level")
    out = out[len(pre):-5]
    if rng.random() < 0.3:
        def write(buf):
            with DFWriter(buf, noclose=True) as w:
                w.write_level_ex(level, list(offs), region)
        streams.over(ctx, pre, out, write, "an edited level")
    got = refcodec.dec_level(out)
    ctx.count("edits")
    ctx.equal(got["regbytes"], ref["regbytes"], "region bytes")
    ctx.equal(got["dir"], ref["dir"], "region directory")
    ctx.equal(got["nregions"], ref["nregions"], "region count")
    ctx.equal(got["nextid"], max(ref["nextid"], 101), "next id")
    ctx.equal(got["sshot"], want["sshot"], "thumbnail")
    ctx.equal(got["vars"], list(want["vars"].items()), "variables")
    ctx.equal((got["size"], got["end"]), (len(out), len(out)), "file size in the header")
    if ref["nregions"]:
        ctx.count("with_regions")
        ctx.seen(data + out)
    if len(out) != len(data):
        ctx.count("changed_size")
    # the edited file reads as the old content with the new metadata
    a, b = dm.from_level(read_level(data)), dm.from_level(read_level(out))
    for k in ("tiles", "props", "entities", "btiles", "bprops"):
        ctx.equal(b[k], a[k], "%s after a metadata edit" % k)
    # wrong payload sizes
    bad = rng.choice([region + b"\0", region + region if region else b"x", region[:-1] if region else b"zz", b"" if region else b"q"])
    arg = bad if rng.random() < 0.5 else chunks(rng, bad)
    ctx.raises(Exception, lambda: DFWriter(io.BytesIO()).write_level_ex(level, list(offs), arg),
               "region payload of %d instead of %d bytes is refused" % (len(bad), len(region)))


def cycles(ctx):
    """read -> write -> read -> write: same bytes from the first write on."""
    rng = ctx.rng
    if ctx.index == 0:
        data = streams.getbytes(os.path.join(REPO, "tests", "downhill"))
    else:
        data = source(ctx)
    lv = read_level(data)
    w1 = write_level(lv)
    ctx.equal(write_level(lv), w1, "second write of the same level object")
    buf = io.BytesIO(b"12345")
    buf.seek(5)
    with DFWriter(buf, noclose=True) as w:
        w.write_level(lv)
        w.write_level(lv)
    ctx.equal(buf.getvalue(), b"12345" + w1 + w1, "writes of the same level object at other offsets")
    prev = w1
    for i in range(rng.choice([1, 2, 3])):
        nxt = write_level(read_level(prev))
        ctx.equal(nxt, w1, "bytes of write %d of a file's level" % (i + 2))
        prev = nxt
    ctx.count("cycles")
    if refcodec.dec_level(w1)["nregions"]:
        ctx.seen(w1)
    ctx.sample("%d bytes from a %d-byte file" % (len(w1), len(data)))


def nothing(ctx):
    """Levels without regions, and dropping all regions by offsets [0]."""
    rng = ctx.rng
    lv = read_level(source(ctx))
    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_level_ex(lv, [0], rng.choice([b"", [], [b""]]))
    got = refcodec.dec_level(buf.getvalue())
    ctx.equal((got["nregions"], got["regbytes"], got["end"]), (0, b"", len(buf.getvalue())), "level written without regions")
    lvl.cmp_vars(ctx, got["vars"], dm.from_map(lv.variables), "variables")
    got = read_level(buf.getvalue())
    ctx.check(not (got.tiles or got.props or got.entities), "level written without regions is empty")


WORKLOADS = [
    Workload("edits", edits, 1500, 40000),
    Workload("cycles", cycles, 800, 20000),
    Workload("nothing", nothing, 100, 2000),
    Workload("real", edits, 4, 60),
]
