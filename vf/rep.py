"""Replay models: generator, building and comparing dustmaker replays."""
from dustmaker import replay as RP

from . import dm, gen
from .refcodec import INTENTS

NAMES = [n for n, _, _, _ in INTENTS]
CHARS = 8


def raw_value(rng, name, bits, loose=False):
    if name in ("X", "Y"):
        return rng.randrange(3)
    if name in ("LIGHT", "HEAVY"):
        return rng.choice([0, 10, 11, rng.randrange(16)])
    if name.startswith("MOUSE_S"):
        return rng.choice([0, 4, 8, 20, rng.randrange(32)])
    if bits == 16:
        return rng.choice([0, 0, 1, 16384, 32767, rng.randrange(32768)] + ([32768, 65535] if loose else []))
    return rng.randrange(1 << bits)


def runs(rng, name, bits, default, loose=False, big=False):
    """Raw values with run lengths around the interesting sizes."""
    out = []
    if big and rng.random() < 0.02:     # many short runs: the coded stream itself gets long
        n = rng.choice([255, 256, 1000, 5000])
        return [raw_value(rng, name, bits, loose) for _ in range(n)]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])):
        n = rng.choice([1, 1, 2, 3, 253, 254, 255, 256, 257, 509, 510, 511, 512, 764, 765, 766, rng.randrange(1, 40), gen.loglen(rng, 10) + 1] if not big or rng.random() < 0.99 else [4095, 16320, 65535, 65536, 65537, 70000, gen.loglen(rng, 17) + 1])
        v = default if rng.random() < 0.35 else raw_value(rng, name, bits, loose)
        out += [v] * n
    return out


def model(rng, version=None, small=False, loose=False, big=False):
    v = version or rng.choice([1, 3, 4, 4])
    n = 1 if v < 3 else rng.choice([1, 1, 2, 3, 4, 0])
    if n > 1 and not small and rng.random() < 0.03:
        n = rng.choice([5, 8, 17, gen.loglen(rng, 7), gen.loglen(rng, 9)])
    players = []
    for _ in range(n):
        st = {}
        for name, bits, since, default in INTENTS:
            if rng.random() < (0.3 if small else 0.75 if n < 5 else 0.1):
                st[name] = runs(rng, name, bits, default, loose, big)
        players.append(st)
    ents = []
    used = set()
    for _ in range(rng.choice([0, 0, 1, 2, 5, gen.loglen(rng, 5)] if not big or rng.random() < 0.99 else [255, 256, 257, 300, gen.loglen(rng, 10)])):
        uid = rng.choice([2, 3, 4, 5, 100, gen.u32(rng), rng.randrange(1000)])
        while uid in used:
            uid = gen.u32(rng) if rng.random() < 0.5 else rng.randrange(1 << 20)
        used.add(uid)
        ents.append((uid, len(ents), [(gen.u32(rng), gen.i32(rng), gen.i32(rng), gen.i32(rng), gen.i32(rng))
                                      for _ in range(rng.choice([0, 1, 3, 12, gen.loglen(rng, 6)] if not big or rng.random() < 0.97 else [255, 256, 257, 1000, gen.loglen(rng, 12)]))]))
    return {"version": v, "username": rng.choice([None, None, b"u", rng.randbytes(rng.choice([1, 5, 255, 256, 300, 65535, gen.loglen(rng, 15), gen.loglen(rng, 8)]))]),
            "frames": gen.u32(rng), "chars": [rng.randrange(CHARS) for _ in range(n)],
            "level": rng.choice([b"downhill", b"", rng.randbytes(rng.choice([1, 20, 255, gen.loglen(rng, 8), gen.loglen(rng, 8)]))]),
            "players": players, "entities": ents}


def to_replay(m, rng=None):
    r = RP.Replay(version=m["version"], username=m["username"] or b"", level=m["level"], frames=m["frames"])
    for c, st in zip(m["chars"], m["players"]):
        p = RP.PlayerData(character=RP.Character(c))
        for name, vals in st.items():
            p.intents[RP.IntentStream[name]] = [dm.raw_to_repr(name, v) for v in vals]
        r.players.append(p)
    for uid, _, frames in m["entities"]:
        r.entities[uid] = RP.EntityData([RP.EntityFrame(f, x / 10.0, y / 10.0, sx / 100.0, sy / 100.0) for f, x, y, sx, sy in frames])
    return r


def compare(ctx, r, m, label):
    """Replay object r holds the content of the raw model m."""
    v = m["version"]
    ctx.equal((r.version, bytes(r.username), bytes(r.level), r.frames), (v, m["username"] or b"", m["level"], m["frames"]),
              "%s: version, username, level, frames" % label)
    ctx.equal([int(p.character) for p in r.players], list(m["chars"]), "%s: characters" % label)
    for i, (p, st) in enumerate(zip(r.players, m["players"])):
        for name, bits, since, default in INTENTS:
            s = RP.IntentStream[name]
            raw = st.get(name, []) if v >= since else []
            want = [dm.raw_to_repr(name, x) for x in raw]
            neutral = dm.repr_default(name)
            have = p.intents.get(s, [])
            if v < since:
                ctx.check(not have, "%s: stream %s does not exist in version %d" % (label, name, v))
            n = max(len(want), len(have)) + 2
            got = [p.get_intent_value(s, f) for f in range(n)]
            want += [neutral] * (n - len(want))
            ctx.equal(got, want, "%s: player %d, %s per frame" % (label, i, name))
            ctx.check(p.get_intent_value(s, -1) == neutral and p.get_intent_value(s, 10**9) == neutral,
                      "%s: %s outside the replay is neutral" % (label, name))
            if name == "MOUSE_STATE":
                ctx.check(all(isinstance(x, RP.MouseState) for x in have), "%s: mouse state type" % label)
            ctx.count("frames_compared", n)
            ctx.count("streams_compared")
    ents = {}
    for uid, _, frames in m["entities"]:
        ents.setdefault(uid, []).extend(frames)
    ctx.equal(list(r.entities), list(ents), "%s: entity ids" % label)
    for uid, frames in ents.items():
        got = r.entities[uid].frames
        ctx.equal(len(got), len(frames), "%s: frames of entity %d" % (label, uid))
        for g, f in zip(got, frames):
            ctx.check(g.frame == f[0] and g.x_pos == f[1] / 10.0 and g.y_pos == f[2] / 10.0 and g.x_speed == f[3] / 100.0 and g.y_speed == f[4] / 100.0,
                      "%s: entity %d frame" % (label, uid), g, f)
        ctx.count("entity_frames", len(frames))
    for pl in (1, 2, 3, 4):
        ctx.check(r.get_player_entity_data(pl) is r.entities.get(2 * pl) and r.get_camera_entity_data(pl) is r.entities.get(2 * pl + 1),
                  "%s: player and camera entity data" % label)


def nontrivial(m):
    return any(any(st.values()) for st in m["players"]) or bool(m["entities"])
