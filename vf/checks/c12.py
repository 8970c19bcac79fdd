"""C12: damaged files end in an error, never a hang or a silent loss."""
import io
import os
import struct
import zlib

from dustmaker import DFReader, DFWriter
from dustmaker.dfreader import read_level

from ..core import StepMonitor, StepsExceeded, Workload
from .. import dm, gen, rep, refcodec, streams
from . import c08

PID = "C12"
LEVEL = "fault_enumeration"
LIMITS = (120, 1 << 60)      # the reads are bounded one by one below
RULE = ("small level, variable and replay files (dustmaker's own and an independent encoder's); every truncation point of each file, "
        "every magic byte, and random byte, field and region-content corruptions; each read under a monitor that counts executed "
        "dustmaker lines against a budget linear in the input; non-trivial: a damaged file was read; distinct by damaged bytes")
REQUIRED = {"truncations": 20000, "magic_faults": 1000, "corruptions": 3000, "refusals_observed": 20000, "accepted_corruptions": 50}
ASSUMPTIONS = ["files do not exceed a few kB, so that every truncation point is tried", "bounded work: at most 100000 + 3000 executed lines per byte of (decompressed) input"]


def level_file(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        lv, opts, _ = c08.make(ctx, 0.3)
        return refcodec.enc_level(lv, opts)
    return dm.write_level_bytes(dm.to_level(gen.level(rng, size=0.25), rng))


def var_file(ctx):
    rng = ctx.rng
    items = gen.struct(rng, 2, rng.randrange(0, 7))
    for i in range(rng.randrange(8)):
        items.append(("pad%d" % i, ("bool", True)))
    o = io.BytesIO()
    with DFWriter(o, noclose=True) as w:
        w.write_var_file(b"DF_STA", dm.to_map(items))
    return o.getvalue()


def replay_file(ctx):
    rng = ctx.rng
    m = rep.model(rng, small=True)
    if rng.random() < 0.5:
        return refcodec.enc_replay(m, rng)
    o = io.BytesIO()
    with DFWriter(o, noclose=True) as w:
        w.write_replay(rep.to_replay(m))
    return o.getvalue()


def read_var(b):
    with DFReader(io.BytesIO(b)) as r:
        return r.read_var_file(b"DF_STA")


def read_rep(b):
    with DFReader(io.BytesIO(b)) as r:
        return r.read_replay()


def read_rep_known(b):
    with DFReader(io.BytesIO(b)) as r:
        return r.read_replay(known_length=len(b))


READERS = {"level": (level_file, [read_level]), "var": (var_file, [read_var]), "replay": (replay_file, [read_rep, read_rep_known])}


def stepped(fn):
    """One step monitor per case; each read gets its own budget."""
    def case(ctx):
        with StepMonitor(1 << 60, tool=2) as ctx.sm:
            fn(ctx)
    return case


def monitored(ctx, fn, data, what, extra=0):
    """-> exception or None; violation when the work is not bounded."""
    budget = 100_000 + 3000 * (len(data) + extra)
    sm = ctx.sm
    sm.steps, sm.budget = 0, budget
    try:
        try:
            fn(data)
            res = None
        except MemoryError as e:
            ctx.fail("%s: ran out of memory: %r" % (what, e))
        except Exception as e:  # any ordinary error
            res = e
    except StepsExceeded:
        sm.budget = 1 << 60
        ctx.fail("%s: no end after %d executed lines for %d bytes" % (what, budget, len(data)))
    sm.budget = 1 << 60
    ctx.count("lines_executed", sm.steps)
    return res


def short(data):
    return "%d bytes: %s" % (len(data), data[:400].hex())


@stepped
def truncate(ctx):
    kind = ctx.workload[6:]
    make, readers = READERS[kind]
    data = make(ctx)
    ctx.sample("%s of %d bytes, every prefix" % (kind, len(data)))
    for fn in readers:
        fn(data)
    step = max(1, len(data) // (150 if ctx.tier == "quick" else 1000))
    points = set(range(0, len(data), step)) | set(range(max(0, len(data) - 40), len(data))) | set(range(min(60, len(data))))
    for n in sorted(points):
        for fn in readers:
            e = monitored(ctx, fn, data[:n], "%s cut to %d of %d bytes" % (kind, n, len(data)))
            ctx.count("truncations")
            ctx.check(e is not None, "%s cut to %d of %d bytes was read as if complete (%s)" % (kind, n, len(data), fn.__name__), short(data[:n]))
            ctx.count("refusals_observed")
    ctx.seen(data)


@stepped
def expect(ctx):
    """The magic itself, alone, cut short or changed."""
    rng = ctx.rng
    want = rng.choice([b"DF_LVL", b"DF_MTD", b"DF_RPL", b"DF_STA", b"DF_CFG", rng.randbytes(rng.randrange(1, 12))])
    lead = rng.randrange(9)
    bits = io.BytesIO()
    with DFWriter(bits, noclose=True) as w:
        w.write(lead, 0)
        w.write_bytes(want + b"rest")
    bad = [want[:n] for n in range(len(want))]
    i = rng.randrange(len(want))
    bad += [want[:i] + bytes([want[i] ^ 1 << rng.randrange(8)]) + want[i + 1:] + b"rest", want[1:] + b"restrest"]
    for have in [want + b"rest", want] + bad:
        o = io.BytesIO()
        with DFWriter(o, noclose=True) as w:
            w.write(lead, 0)
            w.write_bytes(have)

        def read(b):
            r = DFReader(io.BytesIO(b), noclose=True)
            r.read(lead)
            r.read_expect(want)
        e = monitored(ctx, read, o.getvalue(), "expecting %r" % want)
        if have.startswith(want):
            ctx.check(e is None, "%r expected and present, but refused: %r" % (want, e))
        else:
            ctx.check(e is not None, "%r accepted where %r is expected" % (have, want))
            ctx.count("magic_faults")
            ctx.count("refusals_observed")


@stepped
def magic(ctx):
    rng = ctx.rng
    kind = rng.choice(list(READERS))
    make, readers = READERS[kind]
    data = make(ctx)
    spots = list(range(6))
    if kind == "level":
        spots += range(16, 22)
    if kind == "replay" and data[6:7] == b"2":
        i = 9 + struct.unpack("<H", data[7:9])[0]
        spots += range(i, i + 6)
    for i in spots:
        for v in {data[i] ^ (1 << rng.randrange(8)), rng.randrange(256), data[i] ^ 0x20}:
            if v == data[i]:
                continue
            bad = data[:i] + bytes([v]) + data[i + 1:]
            for fn in readers:
                e = monitored(ctx, fn, bad, "%s with magic byte %d changed" % (kind, i))
                ctx.check(e is not None, "%s with magic byte %d changed to %d was read" % (kind, i, v), short(bad))
                ctx.count("refusals_observed")
                ctx.count("magic_faults")


@stepped
def corrupt(ctx):
    rng = ctx.rng
    kind = rng.choice(list(READERS))
    make, readers = READERS[kind]
    data = bytearray(make(ctx))
    for _ in range(6):
        b = bytearray(data)
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            r = rng.random()
            i = rng.randrange(len(b)) if rng.random() < 0.6 else rng.randrange(min(len(b), 60))
            if r < 0.4:
                b[i] ^= 1 << rng.randrange(8)
            elif r < 0.7:
                b[i] = rng.choice([0, 255, 127, 128, rng.randrange(256)])
            elif r < 0.8:
                w = rng.choice([b"\xff\xff\xff\xff", b"\0\0\0\0", b"\xff\xff\xff\x7f", b"\xff\xff"])
                b[i:i + len(w)] = w[:max(0, len(b) - i)]
            elif r < 0.9:
                del b[i:i + rng.randrange(1, 5)]
            else:
                b[i:i] = rng.randbytes(rng.randrange(1, 5))
            if not b:
                b = bytearray(b"\0")
        b = bytes(b)
        for fn in readers:
            e = monitored(ctx, fn, b, "corrupted %s" % kind, extra=len(data))
            ctx.count("corruptions")
            ctx.count("oracle_evaluations")
            if e is None:
                ctx.count("accepted_corruptions")
        ctx.seen(b)


@stepped
def inner(ctx):
    """Damage inside the compressed parts, which checksums do not stop."""
    rng = ctx.rng
    if rng.random() < 0.5:
        data = level_file(ctx)
        f = refcodec.dec_level(data)
        if not f["regions"]:
            return
        reg = rng.choice(f["regions"])
        p = f["regstart"] + reg["off"]
        un = bytearray(zlib.decompress(data[p + 17:p + reg["len"]]))
        hurt(rng, un)
        comp = zlib.compress(bytes(un))
        bad = data[:p] + struct.pack("<I", 17 + len(comp)) + data[p + 4:p + 17] + comp + data[p + reg["len"]:]
        fns = [read_level]
    else:
        m = rep.model(rng, small=True)
        m["username"] = None
        data = refcodec.enc_replay(m, rng)
        off = 7 + 2 + 4 + 4 + len(m["chars"]) + 1 + len(m["level"])
        un = bytearray(zlib.decompress(data[off:]))
        hurt(rng, un)
        bad = data[:off] + zlib.compress(bytes(un))
        fns = [read_rep, read_rep_known]
    for fn in fns:
        e = monitored(ctx, fn, bad, "file with damaged compressed content", extra=len(un))
        ctx.count("corruptions")
        ctx.count("oracle_evaluations")
        if e is None:
            ctx.count("accepted_corruptions")
    ctx.seen(bad)


def hurt(rng, un):
    for _ in range(rng.choice([1, 1, 2])):
        if not un:
            return
        i = rng.randrange(len(un)) if rng.random() < 0.6 else rng.randrange(min(len(un), 40))
        r = rng.random()
        if r < 0.5:
            un[i] ^= 1 << rng.randrange(8)
        elif r < 0.75:
            w = rng.choice([b"\xff\xff\xff\xff", b"\xff\xff", b"\0\0\0\0", b"\xff\xff\xff\x7f"])
            un[i:i + len(w)] = w[:len(un) - i]
        elif r < 0.9:
            del un[i:]
        else:
            un[i] = rng.randrange(256)


@stepped
def garbage(ctx):
    """Plausible starts followed by noise."""
    rng = ctx.rng
    n = rng.choice([0, 10, 60, 300])
    body = rng.choice([rng.randbytes(n), b"\0" * n, b"\xff" * n])
    for head, fn in ((b"DF_LVL" + struct.pack("<HII", 44, 1000, rng.choice([0, 1, 2**32 - 1])) + b"DF_MTD", read_level),
                     (b"DF_LVL" + struct.pack("<HII", 43, 1000, rng.choice([0, 1, 65535])) + b"DF_MTD" + struct.pack("<HIIIII", 4, 0, 0, 0, 0, 0), read_level),
                     (b"DF_STA" + struct.pack("<HI", 1, 99), read_var), (b"DF_RPL1", read_rep), (b"DF_RPL4" + struct.pack("<H", rng.choice([1, 65535])), read_rep),
                     (b"DF_RPL2" + struct.pack("<H", 3) + b"abcDF_RPL4", read_rep), (b"", read_level), (b"", read_var), (b"", read_rep)):
        e = monitored(ctx, fn, head + body, "noise after a header")
        ctx.count("corruptions")
        ctx.count("oracle_evaluations")
        ctx.seen(head + body)


WORKLOADS = [
    Workload("trunc_level", truncate, 40, 1500),
    Workload("trunc_var", truncate, 120, 3000),
    Workload("trunc_replay", truncate, 40, 1500),
    Workload("magic", magic, 60, 800),
    Workload("expect", expect, 400, 10000),
    Workload("corrupt", corrupt, 700, 20000),
    Workload("inner", inner, 600, 20000),
    Workload("garbage", garbage, 100, 2000),
]
