"""C10: replays round-trip with the same effective inputs."""
import copy
import io
import os

from dustmaker import DFReader, DFWriter
from dustmaker import replay as RP

from ..core import REPO, Workload
from .. import dm, gen, rep, streams
from ..refcodec import INTENTS

PID = "C10"
RULE = ("replays of versions 1, 3, 4 with 0..4 players, any subset of streams, run lengths around multiples of 254..256, leading and "
        "trailing neutral runs, values off the stored grid, entity frames, usernames; written and read back, effective values compared "
        "frame by frame; refusals; rewriting compared byte by byte; non-trivial: has inputs or entities; distinct by content")
REQUIRED = {"streams_compared": 20000, "frames_compared": 1000000, "entity_frames": 5000, "rewrites": 500, "refusals_observed": 300, "unfit_replays": 150}
ASSUMPTIONS = ["values within the documented range of their stream; names and level names within the format's length fields"]


def write(r, **kw):
    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_replay(r, **kw)
    return buf.getvalue()


def read(b, **kw):
    with DFReader(io.BytesIO(b)) as r:
        return r.read_replay(**kw)


def cycle(ctx):
    rng = ctx.rng
    m = rep.model(rng, big=True)
    r = rep.to_replay(m)
    before = copy.deepcopy(r)
    data = write(r, force_username=rng.random() < 0.3)
    ctx.check(r == before, "the replay being written is unchanged")
    got = read(data, **({"known_length": len(data)} if rng.random() < 0.5 else {}))
    rep.compare(ctx, got, m, "read back")
    if rep.nontrivial(m):
        ctx.seen(repr(m))
    ctx.sample({k: m[k] for k in ("version", "username", "frames", "chars", "level")})


def resolution(ctx):
    """Values between grid points come back within the stated resolution."""
    rng = ctx.rng
    r = RP.Replay(version=4, frames=50, players=[RP.PlayerData(), RP.PlayerData()])
    want = []
    for p in r.players:
        for s in (RP.IntentStream.MOUSE_X, RP.IntentStream.MOUSE_Y):
            p.intents[s] = [rng.choice([0.0, 1.0, rng.random(), rng.random() * 1e-4, 0.5]) for _ in range(rng.randrange(40))]
        p.intents[RP.IntentStream.MOUSE_STATE] = [RP.MouseState(rng.randrange(32)) for _ in range(rng.randrange(9))]
    frames = []
    t = 0
    for _ in range(rng.randrange(20)):
        t += rng.randrange(1, 99)
        frames.append(RP.EntityFrame(t, rng.uniform(-2e8, 2e8) if rng.random() < 0.3 else rng.uniform(-3000, 3000), rng.uniform(-1, 1), rng.uniform(-9999, 9999), rng.uniform(-2, 2)))
    r.entities[rng.randrange(99)] = RP.EntityData(list(frames))
    got = read(write(r))
    for p, g in zip(r.players, got.players):
        for s in (RP.IntentStream.MOUSE_X, RP.IntentStream.MOUSE_Y):
            n = max(len(p.intents[s]), len(g.intents.get(s, []))) + 1
            for f in range(n):
                a, b = p.get_intent_value(s, f), g.get_intent_value(s, f)
                ctx.check(abs(a - b) <= 0.5000001 / 32767, "mouse position %r read back as %r" % (a, b))
            ctx.count("frames_compared", n)
            ctx.count("streams_compared")
        s = RP.IntentStream.MOUSE_STATE
        for f in range(12):
            ctx.equal(g.get_intent_value(s, f), p.get_intent_value(s, f), "mouse state")
    gf = list(got.entities.values())[0].frames
    ctx.equal([f.frame for f in gf], [f.frame for f in frames], "entity frame numbers")
    for a, b in zip(frames, gf):
        ctx.check(abs(a.x_pos - b.x_pos) <= 0.0501 and abs(a.y_pos - b.y_pos) <= 0.0501, "entity position", a, b)
        ctx.check(abs(a.x_speed - b.x_speed) <= 0.00501 and abs(a.y_speed - b.y_speed) <= 0.00501, "entity speed", a, b)
        ctx.count("entity_frames")
    ctx.seen(repr(r))


def runs_enum(ctx):
    """Every run length in one stream, alone, between others, at both ends."""
    rng = ctx.rng
    name, bits, since, default = INTENTS[ctx.index % len(INTENTS)]
    for n in range(ctx.index // len(INTENTS) * 64, ctx.index // len(INTENTS) * 64 + 64):
        other = next(v for v in (2, 1, 0) if v != default)
        third = 0 if default else 1
        for vals in ([other] * n, [default] * n + [other], [other] + [default] * n, [other] + [third] * n + [other], [default] * n):
            m = {"version": 4, "username": None, "frames": n, "chars": [0], "level": b"l", "players": [{name: vals}], "entities": []}
            rep.compare(ctx, read(write(rep.to_replay(m))), m, "%d-frame run of %s" % (n, name))
        ctx.seen("%s %d" % (name, n))


def rewrite(ctx):
    """Files from the independent encoder: rewriting is byte-stable."""
    from ..refcodec import enc_replay
    rng = ctx.rng
    m = rep.model(rng, loose=True, big=True)
    data = enc_replay(m, rng) if ctx.index else streams.getbytes(os.path.join(REPO, "tests", "downhill.dfreplay"))
    r = read(data)
    w1 = write(r, force_username=m["username"] is not None and ctx.index > 0)
    ctx.equal(write(r, force_username=m["username"] is not None and ctx.index > 0), w1, "second write of a replay")
    prev = w1
    for _ in range(2):
        r2 = read(prev)
        ctx.equal([p.intents for p in r2.players], [p.intents for p in read(w1).players], "inputs")
        nxt = write(r2, force_username=m["username"] is not None and ctx.index > 0)
        ctx.equal(nxt, w1, "bytes of a rewritten replay")
        prev = nxt
    if ctx.index == 0:
        ctx.equal(read(w1), r, "shipped replay after rewriting")
    else:
        rep.compare(ctx, read(w1), m, "rewritten replay")
        ctx.seen(data)
    ctx.count("rewrites")


def refuse(ctx):
    from ..refcodec import enc_replay
    rng = ctx.rng
    m = rep.model(rng, small=True)
    bad = rng.choice([0, 2, 5, 6, 9])
    r = rep.to_replay(m)
    r.version = bad
    ctx.raises(Exception, lambda: write(r), "replay version %d is refused on writing" % bad)
    if not m["username"]:
        data = bytearray(write(rep.to_replay(m)))
        b = rng.choice([0, 5, 6, 9])
        data[6] = 48 + b
        ctx.raises(Exception, lambda: read(bytes(data)), "replay version %d is refused on reading" % b)
    else:
        data = bytearray(write(rep.to_replay(m)))
        i = data.index(b"DF_RPL", 7)
        data[i + 6] = 48 + rng.choice([0, 2, 5, 9])
        ctx.raises(Exception, lambda: read(bytes(data)), "inner replay version is refused on reading")
    # what does not fit its field
    r = rep.to_replay(rep.model(rng, 4, small=True))
    what = rng.choice(["level", "username", "intent", "intent", "frames", "uid"])
    if what == "level":
        r.level = bytes(rng.choice([256, 257, 300, 511, 512, 1000]))
    elif what == "username":
        r.username = bytes(rng.choice([65536, 65537, 70000, 131072]))
    elif what == "intent":
        if not r.players:
            r.players = [RP.PlayerData()]
        k = rng.choice(list(RP.IntentStream))
        if k in (RP.IntentStream.X, RP.IntentStream.Y):
            v = rng.choice([3, 4, 7, -6, -10])
        elif k in (RP.IntentStream.MOUSE_X, RP.IntentStream.MOUSE_Y):
            v = rng.choice([2.1, 3.0, 10.0, -4.0])
        elif k == RP.IntentStream.MOUSE_STATE:
            v = RP.MouseState(256) if rng.random() < 0.5 else 300
        else:
            v = 16 + rng.randrange(16)
        r.players[0].intents[k] = [v] * rng.choice([1, 3, 300])
        what = (k, v)
    elif what == "frames":
        r.frames = 2 ** 32 + rng.choice([0, 1, 9])
    else:
        r.entities[2 ** 32 + rng.choice([0, 1, 9])] = RP.EntityData()
    ctx.raises(Exception, lambda: write(r), "replay with an unfit %s is refused" % (what,))
    ctx.count("unfit_replays")
    r = rep.to_replay(rep.model(rng, 1, small=True))
    r.players = r.players * rng.choice([0, 2, 3])
    ctx.raises(Exception, lambda: write(r), "version 1 with %d players is refused" % len(r.players))


WORKLOADS = [
    Workload("cycle", cycle, 1500, 40000),
    Workload("resolution", resolution, 400, 10000),
    Workload("runs_enum", runs_enum, 11 * 9, 11 * 17),
    Workload("rewrite", rewrite, 800, 20000),
    Workload("refuse", refuse, 200, 3000),
]
