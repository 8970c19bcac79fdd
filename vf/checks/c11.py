"""C11: replay bytes follow the Dustforce replay format."""
import io
import os

from dustmaker import DFReader, DFWriter

from ..core import REPO, Workload
from .. import dm, gen, rep, refcodec, streams
from .c10 import read, write

PID = "C11"
RULE = ("bytes produced for random replays decoded by an independent codec (all length fields, streams, entity frames compared); files "
        "encoded by it with arbitrary legal run splits, padding inside the declared stream lengths and compression read by dustmaker with and without a known length, at "
        "any offset, concatenated; replays with more than 65536 coded stream bytes, entities or entity frames; positions after reading compared; non-trivial: has inputs or entities; distinct by file bytes")
REQUIRED = {"huge": 4, "files_decoded": 1200, "files_read": 2500, "positions": 2500, "streams_compared": 15000, "concatenations": 200, "padded_streams": 300, "unknown_versions": 500}
ASSUMPTIONS = ["values within the documented range of their stream"]


def strip(vals, default):
    vals = list(vals)
    while vals and vals[-1] == default:
        vals.pop()
    return vals


def validate(ctx, data, m, forced=False):
    f = refcodec.dec_replay(data)
    ctx.count("files_decoded")
    v = m["version"]
    ctx.equal(f["version"], v, "version")
    user = m["username"] if m["username"] else (b"" if forced else None)
    ctx.equal(f["username"], user, "username header")
    ctx.equal((f["frames"], f["chars"], f["level"]), (m["frames"], m["chars"], m["level"]), "frames, characters, level")
    ctx.equal(f["nplayers_field"], len(m["players"]), "player count")
    ctx.equal(f["ulen"], f["actual_ulen"], "uncompressed length")
    ctx.equal(f["end"], len(data), "end of the replay")
    ctx.equal(f["inputs_len"], f["inputs_actual"], "length of the input section")
    ctx.equal(f["slack"], 0, "bits after the entity data")
    ctx.check(all(0 <= s < 8 for s in f["stream_slack"]), "stream lengths match the streams", f["stream_slack"])
    for p, st in zip(f["players"], m["players"]):
        for name, bits, since, default in refcodec.INTENTS:
            if v < since:
                ctx.check(name not in p, "no %s stream in version %d" % (name, v))
                continue
            ctx.equal(strip(p[name], default), strip(st.get(name, []), default), "stored %s stream" % name)
            ctx.count("streams_compared")
    ctx.equal([(u, fr) for u, _, fr in f["entities"]], [(u, fr) for u, _, fr in m["entities"]], "stored entity frames")
    ctx.equal(len({r for _, r, _ in f["entities"]}), len(f["entities"]), "entity numbers in the file are distinct")


def produced(ctx):
    rng = ctx.rng
    m = rep.model(rng, big=True)
    forced = rng.random() < 0.3
    pre = rng.randbytes(rng.choice([0, 0, 9]))
    buf = io.BytesIO(pre)
    buf.seek(len(pre))
    with DFWriter(buf, noclose=True) as w:
        if forced or rng.random() < 0.5:
            w.write_replay(rep.to_replay(m), force_username=forced)
        else:
            w.write_replay(rep.to_replay(m))
        ctx.check(w.aligned(), "writer aligned after a replay")
        w.write_bytes(b"AFTER")
    out = buf.getvalue()
    ctx.equal((out[:len(pre)], out[-5:]), (pre, b"AFTER"), "bytes around the replay")
    validate(ctx, out[len(pre):-5], m, forced)
    if rep.nontrivial(m):
        ctx.seen(out)
    ctx.sample("version %d, %d players, %d bytes" % (m["version"], len(m["players"]), len(out)))


def huge(ctx):
    """Streams, entities and frames past the 16-bit marks."""
    rng = ctx.rng
    m = rep.model(rng, version=4, small=True)
    kind = ctx.index % 4
    n = rng.randrange(65536, 75000)
    if kind == 0:
        m["players"] = [{"MOUSE_X": [rng.randrange(32768) for _ in range(rng.randrange(22000, 40000))]}]
    elif kind == 1:
        m["players"] = [{"X": [rng.randrange(3) for _ in range(rng.randrange(60000, 120000))], "JUMP": [i % 3 for i in range(n)]}]
    elif kind == 2:
        m["entities"] = [(u, i, []) for i, u in enumerate(rng.sample(range(1 << 32), n))]
    else:
        m["entities"] = [(5, 0, [(i, gen.i32(rng), gen.i32(rng), 0, 7) for i in range(n)])]
    m["chars"] = [rng.randrange(rep.CHARS) for _ in m["players"]]
    data = write(rep.to_replay(m))
    validate(ctx, data, m)
    rep.compare(ctx, read(data, known_length=len(data)), m, "huge replay")
    ctx.count("huge")
    ctx.seen(data)


def legal(ctx):
    rng = ctx.rng
    m = rep.model(rng, loose=True, big=True)
    if m["version"] == 1 and rng.random() < 0.5:
        m["nplayers_field"] = rng.choice([0, 1, 7, 65535])
    if rng.random() < 0.15 and m["entities"]:
        m["entities"].append((m["entities"][0][0], 77, m["entities"][-1][2]))
    m["pad"] = rng.random() < 0.3
    data = refcodec.enc_replay(m, rng)
    ctx.count("padded_streams", m["pad"])
    pre = rng.randbytes(rng.choice([0, 1, 40]))
    post = rng.choice([b"", b"AFTER", b"\0" * 30, rng.randbytes(20)])
    for known in (None, len(data)):
        src = io.BytesIO(pre + data + post)
        src.seek(len(pre))
        with DFReader(src, noclose=True) as r:
            got = r.read_replay(known_length=known) if known else r.read_replay()
            ctx.equal(r.bit_tell(), 8 * (len(pre) + len(data)), "position after reading (known length %r)" % known)
            ctx.check(r.aligned(), "reader aligned after a replay")
            ctx.equal(r.read_bytes(len(post)), post, "bytes after the replay (known length %r)" % known)
            ctx.count("positions")
        rep.compare(ctx, got, m, "known length %r" % known)
        ctx.count("files_read")
    if rep.nontrivial(m):
        ctx.seen(data)


def chain(ctx):
    """Several replays after each other in one stream."""
    rng = ctx.rng
    ms = [rep.model(rng, small=True) for _ in range(rng.randrange(2, 5))]
    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        for m in ms:
            if rng.random() < 0.5:
                w.write_replay(rep.to_replay(m))
            else:
                w.write_bytes(refcodec.enc_replay(m, rng))
    buf.seek(0)
    with DFReader(buf, noclose=True) as r:
        for i, m in enumerate(ms):
            rep.compare(ctx, r.read_replay(), m, "replay %d of %d in one stream" % (i + 1, len(ms)))
            ctx.count("positions")
        ctx.equal(r.bit_tell(), 8 * len(buf.getvalue()), "position after the last replay")
    ctx.count("concatenations")


def unknown(ctx):
    """Versions that do not exist, in both directions."""
    rng = ctx.rng
    m = rep.model(rng, small=True)
    v = rng.choice([0, 2, 5, 6, 7, 8, 9, -1, 100])
    r = rep.to_replay(m)
    r.version = v
    ctx.raises(Exception, lambda: write(r), "writing a replay of version %d" % v)
    if m["version"] >= 3 and len(m["players"]) != 1:
        r.version = 1
        ctx.raises(Exception, lambda: write(r), "writing a replay of version 1 with %d players" % len(m["players"]))
    data = bytearray(refcodec.enc_replay(m, rng))
    at = 6 if m["username"] is None else 15 + len(m["username"])
    ctx.equal(data[at], 48 + m["version"], "place of the version")
    data[at] = rng.choice([0, 47, 53, 54, 57, 255, 49 + 128] + ([50] if at > 6 else []))
    for known in (None, len(data)):
        ctx.raises(Exception, lambda: read(bytes(data), known_length=known), "reading a replay with version byte %d" % data[at])
    ctx.count("unknown_versions")
    ctx.seen((v, bytes(data)))


def real(ctx):
    data = streams.getbytes(os.path.join(REPO, "tests", "downhill.dfreplay"))
    f = refcodec.dec_replay(data)
    f["players"] = [{n: v for n, v in p.items()} for p in f["players"]]
    for known in (None, len(data)):
        rep.compare(ctx, read(data, known_length=known), f, "shipped replay")
        ctx.count("files_read")
    f["username"] = f["username"] or None
    validate(ctx, write(read(data)), f)


WORKLOADS = [
    Workload("produced", produced, 3000, 40000),
    Workload("legal", legal, 3000, 40000),
    Workload("huge", huge, 8, 80),
    Workload("chain", chain, 600, 6000),
    Workload("unknown", unknown, 600, 4000),
    Workload("real", real, 1, 1),
]
