"""C26: separate objects never share mutable state; tile equality and hash."""
import copy
import dataclasses
import inspect
import io

from dustmaker import DFReader, DFWriter
from dustmaker import entity as E
from dustmaker import replay as RP
from dustmaker import variable as V
from dustmaker.dfreader import read_level
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.transform import TxMatrix

from ..core import Workload
from .. import dm, gen, motion, rep

PID = "C26"
RULE = ("pools of levels made by constructors, readers, deep copies, merges and upscales under random histories of edits and operations, all "
        "untouched levels compared with their last snapshot after every step; pairs of tiles, entities, variables, replays built from the "
        "same arguments or the same bytes, one of them rewritten completely; tiles differing in exactly one field; defaults of every entity "
        "class; non-trivial: a rewritten object had state; distinct by content")
REQUIRED = {"steps": 2000, "bystanders_compared": 3000, "pairs": 1500, "vandalised_values": 30000, "tile_fields": 3000, "equal_tiles": 500,
            "class_defaults": 60, "upscaled_tiles": 1000, "siblings": 1000}
ASSUMPTIONS = ["objects the caller itself stores in two places (add_entity, array elements, struct values) are shared by the caller's doing"]


# ------------------------------------------------------------ vandalism
def spoil_var(ctx, v, depth=0):
    """Change everything reachable in a variable, in place."""
    k = dm.kind_of(v)
    ctx.count("vandalised_values")
    if k == "struct":
        for s in list(v.value.values()):
            spoil_var(ctx, s)
        v.value["vf{spoilt"] = V.VariableInt(7)
    elif k == "array":
        et, items = v.value
        for s in list(items):
            spoil_var(ctx, s)
        items.append(dm.to_var({"bool": ("bool", True), "int": ("int", 5), "uint": ("uint", 5), "float": ("float", 0.5), "string": ("string", b"q"),
                                "vec2": ("vec2", (1.0, 2.0)), "struct": ("struct", [("q", ("int", 1))]),
                                "array": ("array", ("int", [("int", 1)]))}[next(n for n, c in dm.CLS.items() if c is et)]))
    else:
        v.value = {"bool": lambda x: not x, "int": lambda x: x ^ 1, "uint": lambda x: x ^ 1, "float": lambda x: 0.25 if x != 0.25 else 0.75,
                   "string": lambda x: x + b"!", "vec2": lambda x: (x[0] + 1 if abs(x[0]) < 1e6 else 0.0, 3.0)}[k](v.value)


def spoil_map(ctx, d):
    for v in list(d.values()):
        spoil_var(ctx, v)
    d["vf{spoilt"] = V.VariableInt(7)


def spoil_tile(ctx, t):
    for e in t.edge_data:
        e.solid, e.visible, e.filth_spike = not e.solid, not e.visible, not e.filth_spike
        e.caps, e.filth_caps = (not e.caps[0], e.caps[1]), (e.filth_caps[0], not e.filth_caps[1])
        e.angles, e.filth_angles = (e.angles[0] ^ 1, e.angles[1] ^ 1), (e.filth_angles[0] ^ 1, e.filth_angles[1])
        e.filth_sprite_set = TileSpriteSet((e.filth_sprite_set + 1) % 8)
        ctx.count("vandalised_values", 8)
    t.edge_data[0], t.edge_data[3] = t.edge_data[3], t.edge_data[0]
    t.shape = TileShape((t.shape + 1) % 21)
    t.sprite_tile, t.sprite_palette = t.sprite_tile ^ 1, t.sprite_palette ^ 1
    t.sprite_set = TileSpriteSet((t.sprite_set + 1) % 8)
    t.tile_flags ^= 1


def spoil_entity(ctx, e):
    spoil_map(ctx, e.variables)
    e.rotation ^= 1
    e.layer ^= 1
    e.flip_x, e.flip_y, e.visible = not e.flip_x, not e.flip_y, not e.visible
    ctx.count("vandalised_values", 5)


def spoil_prop(ctx, p):
    for k in ("rotation", "layer_sub", "prop_set", "prop_group", "prop_index", "palette"):
        setattr(p, k, getattr(p, k) ^ 1)
    p.flip_x, p.flip_y, p.scale = not p.flip_x, not p.flip_y, p.scale * 2
    ctx.count("vandalised_values", 9)


def spoil_level(ctx, lv):
    for x in (lv, lv.backdrop):
        for t in x.tiles.values():
            spoil_tile(ctx, t)
        for _, _, _, p in x.props.values():
            spoil_prop(ctx, p)
        x.tiles[3, 777, 777] = Tile()
        x.props[999999] = (3, 1.0, 1.0, dm.to_prop(gen.prop(ctx.rng)))
    for _, _, e in lv.entities.values():
        spoil_entity(ctx, e)
    lv.entities[999999] = (0.0, 0.0, E.CameraNode())
    spoil_map(ctx, lv.variables)
    lv.sshot += b"spoilt"


def soft_edit(ctx, lv):
    """Edits that keep the level writable."""
    rng = ctx.rng
    for x in (lv, lv.backdrop):
        for t in list(x.tiles.values()):
            if rng.random() < 0.5:
                t.sprite_tile ^= 1
                e = t.edge_data[rng.randrange(4)]
                e.solid, e.caps = not e.solid, (True, not e.caps[1])
        for _, _, _, p in x.props.values():
            p.rotation = (p.rotation + 1) & 0xFFFF
    for _, _, e in lv.entities.values():
        e.flip_x = not e.flip_x
        for v in e.variables.values():
            if dm.kind_of(v) == "int":
                v.value ^= 1
        e.variables["vfedit"] = V.VariableInt(rng.randrange(99))
    lv.variables["vfedit"] = V.VariableInt(rng.randrange(99))
    lv.start_position(rng.randrange(1, 5)).x = rng.randrange(99)


# ------------------------------------------------------------- histories
def histories(ctx):
    rng = ctx.rng
    pool, snaps = [], []

    def add(lv):
        pool.append(lv)
        snaps.append(dm.from_level(lv))

    src = motion.random_level(rng, size=0.25, spread=8)
    for d in ("props", "entities", "bprops"):
        src[d] = {i: o for i, o in src[d].items() if abs(o["x"]) < 1e6 and abs(o["y"]) < 1e6 and i < 2**31 - 10**6}  # room for ids
    add(dm.to_level(src))
    grown = set()
    for _ in range(rng.choice([3, 5, 8])):
        i = rng.randrange(len(pool))
        lv = pool[i]
        r = rng.random()
        if r < 0.2 and len(pool) < 5:
            what = "read twice"
            data = dm.write_level_bytes(lv)
            a, b = read_level(data), read_level(data)
            add(a), add(b)
            if i in grown:
                grown |= {len(pool) - 2, len(pool) - 1}
            i = None
        elif r < 0.35 and len(pool) < 5:
            what = "deep copy"
            add(copy.deepcopy(lv))
            if i in grown:
                grown.add(len(pool) - 1)
            i = None
        elif r < 0.45 and len(pool) < 5:
            what, i = "new level", None
            add(Level())
        elif r < 0.6 and len(pool) > 1:
            what = "merge"
            j = rng.choice([k for k in range(len(pool)) if k != i])
            try:
                lv.merge(pool[j])
            except Exception as exc:  # a clash of ids is refused elsewhere
                ctx.log("merge refused", repr(exc))
            if j in grown:
                grown.add(i)
        elif r < 0.7 and i not in grown:
            what = "upscale"
            lv.upscale(2)
            grown.add(i)
        elif r < 0.8:
            what = "transform"
            lv.transform(rng.choice([TxMatrix.ROTATE[1], TxMatrix.HFLIP, TxMatrix.IDENTITY.translate(48, -48)]))
        else:
            what = "edit"
            soft_edit(ctx, lv)
        ctx.log(what, i)
        for k, (x, s) in enumerate(zip(pool, snaps)):
            now = dm.from_level(x)
            if k == i:
                snaps[k] = now
            else:
                ctx.equal(now, s, "level %d after %s of level %r" % (k, what, i))
                ctx.count("bystanders_compared")
        ctx.count("steps")
    # finally ruin one completely
    i = rng.randrange(len(pool))
    spoil_level(ctx, pool[i])
    for k, (x, s) in enumerate(zip(pool, snaps)):
        if k != i:
            ctx.equal(dm.from_level(x), s, "level %d after level %d was rewritten" % (k, i))
            ctx.count("bystanders_compared")
    fresh = dm.from_level(Level())
    ctx.equal(fresh, {"vars": [("dustmod_version", ("string", b"dustmaker"))], "sshot": b"", "tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}},
              "a new level")
    ctx.seen(repr(src)[:3000] + repr(ctx.trace))
    ctx.sample([t[0] for t in ctx.trace])


# ----------------------------------------------------------------- pairs
def pair(ctx, a, b, snap, spoil, label):
    before = snap(b)
    spoil(ctx, a)
    ctx.check(snap(a) != before, "harness: the first object was changed", label)
    ctx.equal(snap(b), before, "%s: the other object" % label)
    ctx.count("pairs")


def entities(ctx):
    rng = ctx.rng
    m = gen.entity(rng, vars_=gen.struct(rng, 2))
    cls = dm.classes().get(m["type"], E.Entity)
    args = dm.to_map(m["vars"])
    snap = lambda e: dm.from_entity(0, 0, e)  # noqa
    a, b = cls(args), cls(args)
    src = dm.from_map(args)
    pair(ctx, a, b, snap, spoil_entity, "entities from one dict")
    ctx.equal(dm.from_map(args), src, "the dict both entities were made from")
    c = cls(b.variables)
    pair(ctx, c, b, snap, spoil_entity, "entity made from another's variables")
    spoil_map(ctx, args)
    ctx.equal(dm.from_map(b.variables), src, "entity after its construction dict was rewritten")
    pair(ctx, cls(), cls(), snap, spoil_entity, "default entities")
    ctx.equal(dm.from_map(cls().variables), [], "variables of a new entity")
    ctx.seen(repr(m))


def variables(ctx):
    rng = ctx.rng
    p = gen.var(rng, 3, rng.choice(["struct", "array"]))
    snap = dm.from_var
    pair(ctx, copy.deepcopy(dm.to_var(p)), dm.to_var(p), snap, spoil_var, "equal variables")
    v = dm.to_var(p)
    pair(ctx, copy.deepcopy(v), v, snap, spoil_var, "deep copies")
    # read twice from the same bytes
    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_var_file(b"DF_STA", {"k": v})
    pair(ctx, *[DFReader(io.BytesIO(buf.getvalue())).read_var_file(b"DF_STA")["k"] for _ in range(2)], snap, spoil_var, "variables read twice")
    # containers given to the constructors are copied
    d = {k: dm.to_var(s) for k, s in gen.struct(rng, 0)}
    x, y = V.VariableStruct(d), V.VariableStruct(d)
    x.value["vf{new"] = V.VariableInt(1)
    ctx.check("vf{new" not in y.value and "vf{new" not in d, "structs made from one dict")
    items = [dm.to_var(("int", 1)), dm.to_var(("int", 2))]
    x, y = V.VariableArray(V.VariableInt, items), V.VariableArray(V.VariableInt, items)
    x.append(3)
    ctx.equal((len(y), len(items)), (2, 2), "arrays made from one list")
    for make in (lambda: V.VariableStruct(), lambda: V.VariableArray(V.VariableInt)):
        x, y = make(), make()
        spoil_var(ctx, x)
        ctx.equal(dm.from_var(y)[1], [] if dm.kind_of(y) == "struct" else ("int", []), "default value")
        ctx.equal(dm.from_var(make())[1], [] if dm.kind_of(y) == "struct" else ("int", []), "default value")
    ctx.seen(repr(p))


def spoil_replay(ctx, r):
    for p in r.players:
        for s in list(p.intents.values()):
            s.append(1)
            s[0] = 9
        p.intents[RP.IntentStream.JUMP] = [1, 1, 1, 7]
        p.character = RP.Character(7 - p.character)
    for d in r.entities.values():
        for f in d.frames:
            f.frame += 1
            f.x_pos += 1
        d.frames.append(RP.EntityFrame(99999))
    r.players.append(RP.PlayerData(RP.Character.DUSTWRAITH))
    r.entities[98765] = RP.EntityData()
    r.frames += 1
    r.level += b"!"


def replays(ctx):
    rng = ctx.rng
    m = rep.model(rng, small=True)
    data = io.BytesIO()
    with DFWriter(data, noclose=True) as w:
        w.write_replay(rep.to_replay(m))
    read = lambda: DFReader(io.BytesIO(data.getvalue())).read_replay()  # noqa
    pair(ctx, read(), read(), repr, spoil_replay, "replays read twice")
    r = read()
    pair(ctx, copy.deepcopy(r), r, repr, spoil_replay, "deep copies of a replay")
    if len(r.players) > 1:
        before = repr(r.players[1:])
        for s in r.players[0].intents.values():
            s.append(5)
        r.players[0].intents[RP.IntentStream.X] = [1]
        ctx.equal(repr(r.players[1:]), before, "other players after one was edited")
    for cls in (RP.Replay, RP.PlayerData, RP.EntityData, RP.EntityFrame):
        a, b = cls(), cls()
        for f in dataclasses.fields(cls):
            v = getattr(a, f.name)
            if isinstance(v, list):
                v.append(1)
            elif isinstance(v, dict):
                v[1] = 2
        ctx.equal((repr(b), repr(cls())), (repr(b), repr(b)), "default %s" % cls.__name__)
        ctx.check(all(not getattr(b, f.name) for f in dataclasses.fields(cls) if isinstance(getattr(b, f.name), (list, dict))), "containers of a new %s" % cls.__name__)
    ctx.seen(repr(m))


def within(ctx):
    """Objects of one level that was read or upscaled are separate."""
    rng = ctx.rng
    src = gen.level(rng, size=0.4)
    # identical neighbours invite sharing
    t = gen.tile(rng, 0.5)
    for i in range(4):
        src["tiles"][19, i, 0] = t
    e = gen.entity(rng)
    ids = set(src["entities"])
    for i in range(2):
        src["entities"][gen.ident(rng, ids)] = e
    data = dm.write_level_bytes(dm.to_level(src))
    lv = read_level(data)
    for kind, spoil, snap in (("tiles", spoil_tile, dm.from_tile), ("entities", spoil_entity, lambda x: dm.from_entity(0, 0, x)), ("props", spoil_prop, lambda p: dm.from_prop(0, 0, 0, p))):
        for box in (lv, lv.backdrop):
            d = getattr(box, kind)
            if len(d) < 2:
                continue
            get = (lambda o: o) if kind == "tiles" else (lambda o: o[-1])
            for k in rng.sample(sorted(d), min(3, len(d))):
                before = {q: snap(get(o)) for q, o in d.items() if q != k}
                spoil(ctx, get(d[k]))
                ctx.equal({q: snap(get(o)) for q, o in d.items() if q != k}, before, "other %s after %r was rewritten" % (kind, k))
                ctx.count("siblings", len(before))
    t = dm.to_tile(gen.tile(rng, 0.5))
    f = rng.choice([1, 2, 3, 4, rng.randrange(5, 14)])
    kids = [k for _, _, k in t.upscale(f)]
    snaps = [dm.from_tile(k) for k in kids]
    own = dm.from_tile(t)
    for i in rng.sample(range(len(kids)), min(3, len(kids))):
        spoil_tile(ctx, kids[i])
        ctx.equal(dm.from_tile(t), own, "tile after one of its upscaled tiles was rewritten")
        ctx.equal([dm.from_tile(k) for n, k in enumerate(kids) if n != i], [s for n, s in enumerate(snaps) if n != i], "other upscaled tiles")
        snaps[i] = dm.from_tile(kids[i])
    spoil_tile(ctx, t)
    ctx.equal([dm.from_tile(k) for k in kids], snaps, "upscaled tiles after their source was rewritten")
    ctx.count("upscaled_tiles", len(kids))
    ctx.seen(data)


def class_list():
    out, todo = [], [E.Entity]
    while todo:
        c = todo.pop()
        todo += c.__subclasses__()
        out.append(c)
    return sorted((c for c in out if c.__module__ == E.__name__), key=lambda c: c.__name__)


def class_defaults(ctx):
    """Values handed out as defaults are never altered by editing them."""
    for c in class_list():
        a, b = c(), c()
        for name, prop in inspect.getmembers(c, lambda p: isinstance(p, property)):
            v = getattr(a, name)
            if isinstance(v, V.VariableArray):
                n = len(v)
                spoil_var(ctx, v)
                ctx.equal(len(getattr(a, name)), n + 1, "%s.%s keeps what is added" % (c.__name__, name))
                ctx.equal((len(getattr(b, name)), len(getattr(c(), name))), (n, n), "%s.%s of other entities" % (c.__name__, name))
            elif isinstance(v, (list, dict)):
                n = copy.deepcopy(v)
                v.append(1) if isinstance(v, list) else v.update({"q": 1})
                ctx.equal((getattr(b, name), getattr(c(), name)), (n, n), "%s.%s of other entities" % (c.__name__, name))
        ctx.count("class_defaults")
    before = [[list(r) for r in m] for m in (TxMatrix.IDENTITY, TxMatrix.HFLIP, TxMatrix.VFLIP, *TxMatrix.ROTATE)]
    m = TxMatrix.IDENTITY
    for o in (TxMatrix.HFLIP, TxMatrix.VFLIP, *TxMatrix.ROTATE):
        m = (m * o).translate(3, 4) * 2
        o * 3, o.translate(1, 1)
    ctx.equal([[list(r) for r in x] for x in (TxMatrix.IDENTITY, TxMatrix.HFLIP, TxMatrix.VFLIP, *TxMatrix.ROTATE)], before, "predefined matrices")


# ---------------------------------------------------------- tile equality
def fields(t):
    """(label, function changing exactly that datum of a tile)"""
    out = [("shape", lambda t: setattr(t, "shape", TileShape((t.shape + 1) % 21))),
           ("flags", lambda t: setattr(t, "tile_flags", t.tile_flags ^ 2)),
           ("sprite_set", lambda t: setattr(t, "sprite_set", TileSpriteSet((t.sprite_set + 3) % 8))),
           ("sprite_tile", lambda t: setattr(t, "sprite_tile", t.sprite_tile ^ 1)),
           ("sprite_palette", lambda t: setattr(t, "sprite_palette", t.sprite_palette ^ 1))]
    for i in range(4):
        for f in ("solid", "visible", "filth_spike"):
            out.append(("edge %d %s" % (i, f), lambda t, i=i, f=f: setattr(t.edge_data[i], f, not getattr(t.edge_data[i], f))))
        out.append(("edge %d filth" % i, lambda t, i=i: setattr(t.edge_data[i], "filth_sprite_set", TileSpriteSet((t.edge_data[i].filth_sprite_set + 1) % 8))))
        for f in ("caps", "filth_caps", "angles", "filth_angles"):
            for j in (0, 1):
                def ch(t, i=i, f=f, j=j):
                    v = list(getattr(t.edge_data[i], f))
                    v[j] = not v[j] if "caps" in f else v[j] ^ 1
                    setattr(t.edge_data[i], f, tuple(v))
                out.append(("edge %d %s[%d]" % (i, f, j), ch))
    return out


def equality(ctx):
    rng = ctx.rng
    p = gen.tile(rng, 0.6)
    a, b = dm.to_tile(p), dm.to_tile(copy.deepcopy(p))
    ctx.check(a == b and not a != b and b == a, "tiles with the same data are equal", p)
    ctx.equal(hash(a), hash(b), "hashes of equal tiles")
    ctx.check(a in {b} and len({a, b}) == 1 and {a: 1}[b] == 1, "equal tiles are one set member")
    ctx.count("equal_tiles")
    for other in (None, 3, "tile", p, b.edge_data[0]):
        ctx.check(a != other and not a == other, "a tile is not a %s" % type(other).__name__)
    for name, change in fields(a):
        if ctx.index >= 60 and rng.random() < 0.7:
            continue
        c = copy.deepcopy(b)
        change(c)
        ctx.check(a != c and c != a and not a == c, "tiles differing in %s are unequal" % name, p)
        ctx.check(c not in {a} and c not in [b], "tiles differing in %s are two set members" % name)
        change_back = dm.to_tile(dm.from_tile(c))
        ctx.check(change_back == c and hash(change_back) == hash(c), "equal data, equal hash", name)
        ctx.count("tile_fields")
    c = copy.deepcopy(b)
    c.edge_data[0], c.edge_data[1] = c.edge_data[1], c.edge_data[0]
    ctx.equal(a == c, p["edges"][0] == p["edges"][1], "tiles with two edges exchanged")
    # tiles read back from a file equal the ones written
    q = copy.deepcopy(p)
    q["palette"] %= 16
    if not any(e["fset"] for e in q["edges"]):
        for e in q["edges"]:
            e.update(spike=False, fcaps=(False, False), fangles=(0, 0))
    lv = Level()
    lv.tiles[19, 0, 0] = dm.to_tile(q)
    got = read_level(dm.write_level_bytes(lv)).tiles[19, 0, 0]
    ctx.check(got == dm.to_tile(q) and hash(got) == hash(dm.to_tile(q)), "a tile read back equals the one written", q)
    ctx.seen(repr(p))


WORKLOADS = [
    Workload("histories", histories, 2800, 15000),
    Workload("entities", entities, 1600, 10000),
    Workload("variables", variables, 1600, 10000),
    Workload("replays", replays, 800, 4000),
    Workload("within", within, 1200, 8000),
    Workload("class_defaults", class_defaults, 1, 3),
    Workload("equality", equality, 2800, 20000),
]
