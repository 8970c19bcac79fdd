"""Workload generators over the plain data models (seeded by the caller)."""
from .refcodec import ALPHA, blank_edge, scale_of

# Types with classes, with 'z_' names, the reserved word, and unknown ones.
TYPES = ["entity_emitter", "check_point", "level_end_prox", "base_trigger", "fog_trigger", "ambience_trigger",
         "music_trigger", "special_trigger", "text_trigger", "kill_box", "AI_controller", "camera_node", "level_end",
         "score_book", "level_door", "giga_gate", "enemy_tutorial_square", "enemy_tutorial_hexagon",
         "enemy_slime_beast", "enemy_slime_barrel", "enemy_spring_ball", "enemy_slime_ball", "enemy_trash_tire",
         "enemy_trash_beast", "enemy_trash_can", "enemy_trash_ball", "enemy_bear", "enemy_stoneboss", "enemy_stonebro",
         "enemy_porcupine", "enemy_wolf", "enemy_critter", "enemy_flag", "enemy_scrolls", "enemy_treasure",
         "enemy_chest_treasure", "enemy_chest_scrolls", "enemy_butler", "enemy_maid", "enemy_knight",
         "enemy_gargoyle_big", "enemy_gargoyle_small", "enemy_book", "enemy_hawk", "enemy_key", "enemy_door",
         "hittable_apple", "dust_man", "dust_girl", "dust_kid", "dust_worth", "dust_wraith", "leaf_sprite",
         "trash_king", "slime_boss", "custom_score_book", "z_string_list"]
# filth by type, from the game rules documented in the entity classes
FILTH = {"enemy_tutorial_square": 1, "enemy_tutorial_hexagon": 1, "enemy_slime_beast": 9, "enemy_slime_barrel": 3,
         "enemy_spring_ball": 5, "enemy_slime_ball": 3, "enemy_trash_tire": 3, "enemy_trash_beast": 9,
         "enemy_trash_can": 9, "enemy_trash_ball": 3, "enemy_bear": 9, "enemy_stoneboss": 12, "enemy_stonebro": 3,
         "enemy_porcupine": 1, "enemy_wolf": 5, "enemy_critter": 3, "enemy_flag": 5, "enemy_scrolls": 1,
         "enemy_treasure": 1, "enemy_chest_treasure": 9, "enemy_chest_scrolls": 9, "enemy_butler": 1,
         "enemy_maid": 1, "enemy_knight": 9, "enemy_gargoyle_big": 5, "enemy_gargoyle_small": 3, "enemy_book": 3,
         "enemy_hawk": 3, "enemy_key": 1, "enemy_door": 0}
DUSTBLOCK = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}
I32 = [0, 1, -1, 2, -2, 127, -128, 255, 256, 32767, -32768, 65535, 2**31 - 1, -2**31, 2**30, -2**30, 480, 5]
U32 = [0, 1, 2, 255, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 100, 0x111118]


def loglen(rng, hi):
    """A size below 2**hi with every bit length equally likely."""
    return rng.getrandbits(rng.randrange(1, hi + 1))


def name(rng, lo=1, hi=63):
    r = rng.random()
    if r < 0.06:
        n = rng.choice([lo, hi, hi, 62 if hi >= 62 else hi, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)])
    else:
        n = rng.randrange(lo, min(hi, 14) + 1)
    return "".join(rng.choice(ALPHA) for _ in range(n))


def grid_float(rng):
    """A number exactly on the 32.32 fixed-point grid and in range."""
    r = rng.random()
    if r < 0.35:
        return float(rng.choice([0, 1, -1, 2, -2, 0.5, -0.5, 1.5, -1.5, 0.25, -0.75, 100, -100.5, 1000.125,
                                 2.0**31 - 1, -(2.0**31) + 1, 2.0**-31, -(2.0**-31), -1 + 2.0**-31, 1 - 2.0**-31,
                                 -(2.0**20) - 2.0**-10, 65535.5, -65536.0]))
    if r < 0.7:
        return rng.randrange(-2**28, 2**28) / 2.0**rng.randrange(0, 25)
    if r < 0.85:
        return float(rng.randrange(-2**31 + 1, 2**31 - 1))
    return rng.randrange(-2**52, 2**52) / 2.0**31


def any_float(rng):
    if rng.random() < 0.6:
        return grid_float(rng)
    return rng.uniform(-1, 1) * 10 ** rng.randrange(-12, 10) * (0.2 if True else 1)


def i32(rng):
    r = rng.random()
    if r < 0.25:
        v = loglen(rng, 31)
        return v if r < 0.13 else -v
    return rng.choice(I32) if r < 0.6 else rng.randrange(-2**31, 2**31)


def u32(rng):
    r = rng.random()
    if r < 0.25:
        return loglen(rng, 32)
    return rng.choice(U32) if r < 0.6 else rng.randrange(2**32)


def bstr(rng, big=False):
    r = rng.random()
    if r < 0.15:
        return b""
    if big and r < 0.5:
        n = rng.choice([65533, 65534, 65535, 65536, 65537, 131069, 131070, 131071, 196605])
        base = bytes(rng.randrange(256) for _ in range(97))
        return (base * (n // 97 + 1))[:n]
    if 0.5 < r < 0.53:
        return rng.randbytes(loglen(rng, 12 if r < 0.527 else 15))
    n = rng.randrange(1, 24)
    return bytes(rng.choice((0, 255, 10, 34, 92, rng.randrange(256))) for _ in range(n))


SCALARS = ["bool", "int", "uint", "float", "string", "vec2"]


def var(rng, depth=2, kind=None, big=False, fl=grid_float):
    k = kind or rng.choice(SCALARS + (["struct", "array", "struct", "array"] if depth > 0 else []))
    if k == "bool":
        return (k, rng.random() < 0.5)
    if k == "int":
        return (k, i32(rng))
    if k == "uint":
        return (k, u32(rng))
    if k == "float":
        return (k, fl(rng))
    if k == "string":
        return (k, bstr(rng, big))
    if k == "vec2":
        return (k, (fl(rng), fl(rng)))
    if k == "struct":
        return (k, struct(rng, depth - 1, rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.98 else loglen(rng, 8 if depth < 2 else 6), big, fl))
    ek = rng.choice(SCALARS + (["struct", "array"] if depth > 0 else []))
    n = rng.choice([0, 1, 2, 3, 5]) if depth > 0 else rng.choice([0, 1, 2, 4])
    if rng.random() < 0.02:
        n = loglen(rng, 10 if ek not in ("struct", "array") else 6)
    return (k, (ek, [var(rng, depth - 1, ek, big, fl) for _ in range(n)]))


def struct(rng, depth=2, n=None, big=False, fl=grid_float):
    if n is None:
        n = rng.randrange(0, 6)
    out, used = [], set()
    for _ in range(n):
        key = name(rng)
        if rng.random() < 0.03:
            key = ""
        if key in used:
            continue
        used.add(key)
        out.append((key, var(rng, depth, None, big, fl)))
    return out


# ------------------------------------------------------------------ tiles
ANGLES = [0, 0, 45, -45, 13, -13, 26, -26, 58, -58, 89, -89, 127, -128, 1, -1]


def edge(rng, filth=0.4):
    e = blank_edge()
    e["solid"] = rng.random() < 0.5
    e["visible"] = rng.random() < 0.6
    e["caps"] = (rng.random() < 0.5, rng.random() < 0.5)
    e["angles"] = (rng.choice(ANGLES), rng.choice(ANGLES))
    if rng.random() < filth:
        e["fset"] = rng.randrange(0, 8)
        e["spike"] = rng.random() < 0.4
        e["fcaps"] = (rng.random() < 0.5, rng.random() < 0.5)
        e["fangles"] = (rng.choice(ANGLES), rng.choice(ANGLES))
    return e


def sprite(rng):
    s = rng.randrange(0, 8)
    if s in DUSTBLOCK and rng.random() < 0.3:
        return s, DUSTBLOCK[s], rng.choice([0, 1, 2])
    return s, rng.choice([0, 1, 2, 6, 9, 13, 21, 255, rng.randrange(256)]), rng.choice([0, 1, 2, 15, rng.randrange(16)])


def tile(rng, filth=0.4, shape=None):
    s, t, p = sprite(rng)
    return {"shape": rng.randrange(21) if shape is None else shape, "flags": rng.choice([4, 4, 4, 0, 7, 3, 1]),
            "set": s, "tile": t, "palette": p, "edges": [edge(rng, filth) for _ in range(4)]}


# --------------------------------------------------- coordinates, objects
def tcoord(rng, spread):
    """Tile coordinate with a taste for segment/region borders and negatives."""
    r = rng.random()
    if r < 0.35:
        return rng.choice([0, -1, 1, 15, 16, 17, -15, -16, -17, 255, 256, 257, -255, -256, -257, 511, 512, -512, -513])
    if r < 0.85:
        return rng.randrange(-spread, spread + 1)
    if r < 0.88:
        return rng.choice((1, -1)) * loglen(rng, 16)
    return rng.randrange(-40, 40)


def far_tcoord(rng):
    """Extreme regions: region coordinates are signed 16-bit."""
    return rng.choice([-32768 * 256, -32768 * 256 + 15, 32767 * 256 + 255, 32767 * 256, -32767 * 256 - 1, 100000, -100000])


def pxcoord(rng, spread, frac):
    """Pixel coordinate near grid lines; fractions of 1/frac."""
    base = 48 * tcoord(rng, spread)
    r = rng.random()
    if r < 0.3:
        d = 0
    elif r < 0.5:
        d = rng.choice([1, -1, 47, 24, -24])
    else:
        d = rng.randrange(0, 48)
    v = base + d
    if frac > 1 and rng.random() < 0.6:
        v = v + rng.randrange(-frac, frac) / frac
    return float(v)


def prop(rng, spread=300, x=None, y=None, frac=1):
    k = rng.choice([rng.randrange(0, 57), rng.choice([0, 1, 54, 55, 56])]) if rng.random() < 0.7 else 32
    return {"layer": rng.choice([0, 5, 12, 19, 20, rng.randrange(21), 255, rng.randrange(256)]), "sub": rng.choice([0, 1, 18, 24, 255, rng.randrange(256), rng.randrange(32)]),
            "x": pxcoord(rng, spread, frac) if x is None else x, "y": pxcoord(rng, spread, frac) if y is None else y,
            "k": k, "scale": scale_of(k), "rot": rng.choice([0, 0x4000, 0x8000, 0xC000, 65535, 1, rng.randrange(65536)]),
            "fx": rng.random() < 0.5, "fy": rng.random() < 0.5, "set": rng.randrange(256) if rng.random() < 0.2 else rng.randrange(8),
            "group": rng.randrange(4096), "index": rng.randrange(4096), "palette": rng.randrange(256)}


UNKNOWN_TYPES = ["mystery", "z_button", "z_wind_trigger", "entity", "Z_x", "z", "z_", "_z_a", "filth_switch", "0", "entityx", "{{"]


def etype(rng):
    r = rng.random()
    if r < 0.68:
        return rng.choice(TYPES)
    if r < 0.9:
        return rng.choice(UNKNOWN_TYPES)
    if r < 0.95:
        return name(rng, 1, 63)
    return "z_" + name(rng, 0, 61)


def entity(rng, spread=300, x=None, y=None, vars_=None, type_=None):
    return {"type": etype(rng) if type_ is None else type_,
            "x": pxcoord(rng, spread, 128) if x is None else x, "y": pxcoord(rng, spread, 128) if y is None else y,
            "rot": rng.choice([0, 0x4000, 0x8000, 0xC000, 65535, rng.randrange(65536)]),
            "layer": rng.choice([18, 0, 20, 255, rng.randrange(256)]), "fx": rng.random() < 0.5, "fy": rng.random() < 0.5,
            "visible": rng.random() < 0.7, "vars": struct(rng, 1, rng.choice([0, 0, 1, 2, 3])) if vars_ is None else vars_}


def ident(rng, used):
    while True:
        r = rng.random()
        if r < 0.7:
            i = rng.randrange(100, 700)
        elif r < 0.85:
            i = rng.choice([0, 1, 2, 99, 100, 101, 65535, 65536, 2**31 - 1, 2**31 - 2, 2**24])
        else:
            i = rng.randrange(0, 2**31)
        if i not in used:
            used.add(i)
            return i


def level_vars(rng, level_type=None, depth=2):
    out = struct(rng, depth, rng.choice([0, 1, 2, 3, 5]))
    keys = {k for k, _ in out}
    for k, v in (("level_name", ("string", bstr(rng))), ("p1_x", ("int", i32(rng))), ("p1_y", ("int", i32(rng))),
                 ("vector_character", ("bool", rng.random() < 0.5)), ("dustmod_version", ("string", b"dustmaker"))):
        if rng.random() < 0.4 and k not in keys:
            out.append((k, v))
    if level_type is not None:
        out = [kv for kv in out if kv[0] != "level_type"] + [("level_type", ("int", level_type))]
    rng.shuffle(out)
    # aim the end of the variable section at every bit phase
    n = rng.randrange(0, 8)
    out = [kv for kv in out if not kv[0].startswith("pad{")]
    for i in range(n):
        out.append(("pad{%d" % i, ("bool", rng.random() < 0.5)))
    return out


def level(rng, size=1.0, far=0.1, frac=1, spread=300, level_type=None, filth_all_layers=True):
    """Random content model."""
    m = {"vars": level_vars(rng, rng.choice([None, 0, 6, 1, 2, 3, 4]) if level_type is None else level_type),
         "sshot": rng.choice([b"", bstr(rng), b"\x89PNG" + bytes(rng.randrange(256) for _ in range(rng.randrange(60)))]),
         "tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}
    kind = rng.random()
    n = int(size * rng.choice([0, 1, 3, 10, 25, loglen(rng, 7)]))
    spread = rng.choice([4, 20, spread, spread])
    for _ in range(n):
        layer = rng.choice([19, 19, rng.randrange(21)])
        x, y = tcoord(rng, spread), tcoord(rng, spread)
        if rng.random() < far * 0.3:
            x = far_tcoord(rng)
        if rng.random() < far * 0.3:
            y = far_tcoord(rng)
        t = tile(rng, 0.4 if layer == 19 else (0.15 if filth_all_layers else 0.0))
        m["tiles"][(layer, x, y)] = t
    used_p, used_e = set(), set()
    for _ in range(int(size * rng.choice([0, 1, 2, 8, loglen(rng, 6)]))):
        m["props"][ident(rng, used_p)] = prop(rng, spread, frac=frac)
    for _ in range(int(size * rng.choice([0, 1, 2, 8, loglen(rng, 6)]))):
        m["entities"][ident(rng, used_e)] = entity(rng, spread)
    if rng.random() < 0.5:
        for _ in range(rng.choice([0, 1, 3, 6])):
            m["btiles"][(rng.randrange(21), rng.randrange(-40, 40), rng.randrange(-40, 40))] = tile(rng, 0.0)
        for _ in range(rng.choice([0, 1, 3])):
            m["bprops"][ident(rng, used_p)] = prop(rng, spread, frac=frac)
    if kind < 0.04:
        # a full segment layer: 256 tiles, 10-bit count
        ox, oy = 16 * rng.randrange(-3, 3), 16 * rng.randrange(-3, 3)
        layer = rng.choice([19, 3, 20])
        t = tile(rng, 0.5)
        for dx in range(16):
            for dy in range(16):
                m["tiles"][(layer, ox + dx, oy + dy)] = t if rng.random() < 0.9 else tile(rng, 0.5)
    elif kind < 0.07:
        x, y = rng.randrange(-20, 20), rng.randrange(-20, 20)
        for layer in range(21):
            m["tiles"][(layer, x, y)] = tile(rng, 0.2)
    if rng.random() < 0.1:
        # object in extreme but legal places
        m["props"][ident(rng, used_p)] = prop(rng, x=float(rng.choice([-(2**27) + 1, 2**27 - 1, -(2**27) + 48, loglen(rng, 27)])), y=float(rng.choice([0, -(2**27) + 1, 2**27 - 1, loglen(rng, 27), -loglen(rng, 27)])))
        m["entities"][ident(rng, used_e)] = entity(rng, x=float(rng.choice([-32768 * 256 * 48, 32768 * 256 * 48 - 1, loglen(rng, 28)])), y=rng.choice([-0.5, -32768 * 256 * 48.0, 32768 * 256 * 48 - 1.0, loglen(rng, 35) / 128, -loglen(rng, 35) / 128]))
    return m


def sprites(rng):
    """A sprite and sprites differing from it in one component, by little or by one bit."""
    if rng.random() < 0.5:
        a, b, c = rng.randrange(1, 7), rng.randrange(0, 6), rng.randrange(0, 4)
        return (a, b, c), [(a, b, c), (a % 6 + 1, b, c), (a, b + 1, c), (a, b, c + 1)]
    a, b, c = rng.randrange(8), rng.choice([rng.randrange(32), rng.randrange(256)]), rng.randrange(16)
    return (a, b, c), [(a, b, c), (a ^ 1 << rng.randrange(3), b, c), (a, b ^ 1 << rng.randrange(8), c), (a, b, c ^ 1 << rng.randrange(4))]


BIG = ["props", "entities", "regions", "segments", "sshot", "vars", "full", "backdrop"]
COUNTS = [255, 256, 257, 300, 511, 513, 1023, 1024, 1025, 1300]


def count(rng):
    return rng.choice(COUNTS) if rng.random() < 0.6 else loglen(rng, 11) + 1



def big_vars(rng):
    out = [("v%d" % i, var(rng, 0)) for i in range(rng.choice([3, 255, 256, 300, loglen(rng, 10)]))]
    p = ("int", 7)
    for d in range(rng.choice([6, 17, 40])):
        p = ("struct", [("d%d" % d, p)]) if rng.random() < 0.5 else ("array", (p[0], [p]))
    out.append(("deep", p))
    k = rng.choice(["bool", "int", "string", "vec2"])
    out.append(("wide", ("array", (k, [var(rng, 0, k) for _ in range(rng.choice(COUNTS + [4096, 5000, 8191, 16384, 20000] + [loglen(rng, 15)] * 5))]))))
    out.append(("text", ("string", rng.randbytes(rng.choice([4095, 4096, 65534, 65535, 65536, 70000, 131070, 200001] + [loglen(rng, 18)] * 5)))))
    rng.shuffle(out)
    return out


def big_level(rng, kind):
    """Counts and sizes past the byte, 10-bit and 16-bit marks."""
    m = level(rng, size=0.3, far=0)
    ox, oy = 16 * rng.randrange(-40, 40), 16 * rng.randrange(-40, 40)
    n = count(rng)

    def inside(span):
        return 48.0 * ox + rng.randrange(span), 48.0 * oy + rng.randrange(span)
    if kind == "props":
        for i in range(n):
            x, y = inside(768)
            m["props"][5000 + i] = prop(rng, x=x, y=y)
    elif kind == "entities":
        z = rng.random() < 0.7
        n = max(n, rng.choice([1, 500]))
        for i in range(n):
            x, y = inside(768)
            m["entities"][5000 + i] = entity(rng, x=x, y=y, type_="z_" + "".join(rng.choice(ALPHA) for _ in range(rng.randrange(30, 62))) if z and i % 3 else None,
                                             vars_=None if i % 10 else [("text", ("string", rng.randbytes(rng.choice([9, 300]))))])
        if rng.random() < 0.3:
            m["entities"][4000] = entity(rng, vars_=[("text", ("string", rng.randbytes(rng.choice([65535, 70000]))))])
    elif kind == "regions":
        for i in range(rng.choice([255, 256, 257, 300, loglen(rng, 9), loglen(rng, 8)])):
            x, y = 256 * rng.randrange(-30, 30) + rng.randrange(256), 256 * rng.randrange(-30, 30) + rng.randrange(256)
            if rng.random() < 0.7:
                m["tiles"][19, x, y] = tile(rng)
            else:
                m["entities"][9000 + i] = entity(rng, x=48.0 * x, y=48.0 * y)
    elif kind == "segments":
        rx, ry = 256 * rng.randrange(-3, 3), 256 * rng.randrange(-3, 3)
        share = rng.choice([1, 1, 0.5, 0.2])
        for sx in range(16):
            for sy in range(16):
                if rng.random() >= share:
                    continue
                m["tiles"][rng.choice([19, 20, 0]), rx + 16 * sx + rng.randrange(16), ry + 16 * sy + rng.randrange(16)] = tile(rng)
    elif kind == "sshot":
        m["sshot"] = rng.randbytes(rng.choice([255, 256, 4096, 8191, 32768, 65535, 65536, 65537, 70000, 200000, (1 << 20) + 3] + [loglen(rng, 19)] * 5))
    elif kind == "vars":
        m["vars"] = big_vars(rng)
    elif kind == "full":
        t = [tile(rng, 0.6) for _ in range(7)]
        if rng.random() < 0.3:     # the most a segment can hold
            for e in [e for x in t for e in x["edges"]]:
                e["solid"] = e["visible"] = True
                e["fset"], e["spike"] = rng.randrange(1, 8), False
        if rng.random() < 0.3:     # nothing but dustblocks
            for x in t:
                x["set"], x["tile"] = rng.choice([(1, 21), (2, 13), (3, 6), (4, 9), (5, 2)])
        for layer in rng.sample(range(21), rng.choice([2, 5, 21])):
            for dx in range(16):
                for dy in range(16):
                    m["tiles"][layer, ox + dx, oy + dy] = t[(dx * 5 + dy * 3 + layer) % 7]
        for dx in range(16):
            for dy in range(16):
                m["tiles"][19, ox + dx, oy + dy] = t[(dx * 3 + dy * 5) % 7]
    elif kind == "backdrop":
        for i in range(n):
            x, y = inside(768 * 16)
            m["bprops"][5000 + i] = prop(rng, x=x, y=y)
        for i in range(256):
            m["btiles"][rng.choice([19, 5]), i % 16 - 16, i // 16] = tile(rng, 0.0)
    return m


def describe(m):
    return "tiles=%d props=%d entities=%d btiles=%d bprops=%d vars=%d sshot=%d e.g. %r %r" % (
        len(m["tiles"]), len(m["props"]), len(m["entities"]), len(m["btiles"]), len(m["bprops"]), len(m["vars"]),
        len(m["sshot"]), next(iter(m["tiles"]), None), next(iter(m["entities"].values()), None))
