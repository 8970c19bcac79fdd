"""C27: constants, tables and tile helpers agree with the game's data."""
import copy

from dustmaker import replay as RP
from dustmaker import tile as T
from dustmaker.entity import CameraNodeType, Entity
from dustmaker.level import Level, LevelType
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSide, TileSpriteSet
from dustmaker.variable import VariableType

from ..core import Workload
from .. import dm, gen, geom

PID = "C27"
RULE = ("every documented enumeration member and table entry (exhaustive); tiles with random sprites, shapes and edge data under histories of "
        "sprite copying, dustblock making and filth edits, each helper compared with the plain data after every step; new objects of every kind; "
        "non-trivial: a helper changed or judged a tile; distinct by tile and history")
REQUIRED = {"enum_members": 80, "table_entries": 100, "sprite_sets": 4000, "dustblocks_made": 1500, "dustblocks_refused": 800, "filth_judged": 8000,
            "dustblock_judged_true": 1000, "paths": 4000, "new_objects": 300}
ASSUMPTIONS = []

ENUMS = [
    (TileSpriteSet, dict(NONE_0=0, MANSION=1, FOREST=2, CITY=3, LABORATORY=4, TUTORIAL=5, NEXUS=6, NONE_7=7)),
    (TileSide, dict(TOP=0, BOTTOM=1, LEFT=2, RIGHT=3)),
    (TileShape, dict(FULL=0, BIG_1=1, SMALL_1=2, BIG_2=3, SMALL_2=4, BIG_3=5, SMALL_3=6, BIG_4=7, SMALL_4=8, BIG_5=9, SMALL_5=10, BIG_6=11,
                     SMALL_6=12, BIG_7=13, SMALL_7=14, BIG_8=15, SMALL_8=16, HALF_A=17, HALF_B=18, HALF_C=19, HALF_D=20)),
    (LevelType, dict(NORMAL=0, NEXUS=1, NEXUS_MP=2, KOTH=3, SURVIVAL=4, DUSTMOD=6)),
    (VariableType, dict(NULL=0, BOOL=1, INT=2, UINT=3, FLOAT=4, STRING=5, VEC2=10, STRUCT=14, ARRAY=15)),
    (RP.IntentStream, dict(X=0, Y=1, JUMP=2, DASH=3, FALL=4, LIGHT=5, HEAVY=6, TAUNT=7, MOUSE_X=8, MOUSE_Y=9, MOUSE_STATE=10)),
    (RP.MouseState, dict(WHEEL_UP=1, WHEEL_DOWN=2, LEFT_CLICK=4, RIGHT_CLICK=8, MIDDLE_CLICK=16)),
    (RP.Character, dict(DUSTMAN=0, DUSTGIRL=1, DUSTKID=2, DUSTWORTH=3, SLIMEBOSS=4, TRASHKING=5, LEAFSPRITE=6, DUSTWRAITH=7)),
    (CameraNodeType, dict(NORMAL=1, DETACH=2, CONNECT=3, INTEREST=4, FORCE_CONNECT=5)),
]
MEMBERS = [(e, n, v) for e, d in ENUMS for n, v in d.items()]


def enums(ctx):
    e, n, v = MEMBERS[ctx.index % len(MEMBERS)]
    m = getattr(e, n)
    ctx.equal(int(m), v, "%s.%s" % (e.__name__, n))
    ctx.check(isinstance(m, e) and e(v) is m or e(v) == m, "%s(%d)" % (e.__name__, v))
    ctx.equal(m.name, n, "name of %s(%d)" % (e.__name__, v))
    ctx.count("enum_members")
    ctx.seen((e.__name__, n))


def ordered_sides(shape):
    """The documented order of the sides of a shape."""
    cw = [d for d in geom.CW if geom.exists(shape, d)]
    if shape == 0:
        return tuple(cw)
    diag = next(d for d in cw if not geom.flush(shape, d))
    i = cw.index(diag)
    rest = cw[i + 1:] + cw[:i]
    if len(cw) == 3 and shape < 17:     # big slant: diagonal, opposite side, remaining side
        opp = {0: 1, 1: 0, 2: 3, 3: 2}[diag]
        return (diag, opp, next(d for d in rest if d != opp))
    return (diag, *rest)


def tables(ctx):
    shape = ctx.index % 21
    verts = geom.VERTS[shape]
    ctx.equal(tuple(tuple(p) for p in T.SHAPE_VERTEXES[TileShape(shape)]), verts, "corners of shape %d" % shape)
    ctx.equal(tuple(int(d) for d in T.SHAPE_ORDERED_SIDES[TileShape(shape)]), ordered_sides(shape), "sides of shape %d" % shape)
    for side in TileSide:
        i = T.SIDE_CLOCKWISE_INDEX[side]
        ctx.equal(i, geom.CW.index(int(side)), "clockwise index of %s" % side.name)
        ctx.equal((tuple(T.SHAPE_VERTEXES[shape][i]), tuple(T.SHAPE_VERTEXES[shape][(i + 1) % 4])), geom.side_ends(shape, int(side)), "side ends")
        ctx.count("table_entries")
    for s in TileSpriteSet:
        ctx.equal(T.SPRITE_SET_DUSTBLOCK_TILE[s], gen.DUSTBLOCK.get(int(s), -1), "dustblock tile of %s" % s.name)
    ctx.count("table_entries", 2)
    ctx.seen(shape)


SETNAME = ["none_0", "mansion", "forest", "city", "laboratory", "tutorial", "nexus", "none_7"]


def sprites(ctx):
    rng = ctx.rng
    m = gen.tile(rng, rng.choice([0.0, 0.1, 0.5]))
    tile = dm.to_tile(m)
    ctx.equal(dm.from_tile(tile), m, "tile built from its data")
    for _ in range(rng.choice([2, 5, 10])):
        op = rng.choice(["set", "copy", "dustblock", "attr", "filth", "unfilth"])
        ctx.log(op, (m["set"], m["tile"], m["palette"]))
        if op == "set":
            s, t, p = gen.sprite(rng)
            tile.set_sprite_tuple((TileSpriteSet(s), t, p))
            m.update(set=s, tile=t, palette=p)
            ctx.count("sprite_sets")
        elif op == "copy":
            other = dm.to_tile(gen.tile(rng))
            o = dm.from_tile(other)
            tile.set_sprite_tuple(other.get_sprite_tuple())
            m.update(set=o["set"], tile=o["tile"], palette=o["palette"])
            ctx.equal(dm.from_tile(other), o, "tile whose sprite was copied")
            ctx.count("sprite_sets")
        elif op == "attr":
            s, t, p = gen.sprite(rng)
            tile.sprite_set, tile.sprite_tile, tile.sprite_palette = TileSpriteSet(s), t, p
            m.update(set=s, tile=t, palette=p)
        elif op == "dustblock":
            if m["set"] in gen.DUSTBLOCK:
                tile.set_dustblock()
                m.update(tile=gen.DUSTBLOCK[m["set"]], palette=1)
                ctx.check(tile.is_dustblock(), "a tile made a dustblock is one")
                ctx.count("dustblocks_made")
            else:
                ctx.raises(ValueError, tile.set_dustblock, "dustblock of the sprite set %d" % m["set"])
                ctx.count("dustblocks_refused")
        else:
            d = rng.randrange(4)
            fset = rng.randrange(1, 8) if op == "filth" else 0
            tile.edge_data[d].filth_sprite_set = TileSpriteSet(fset)
            m["edges"][d]["fset"] = fset
        ctx.equal(dm.from_tile(tile), m, "tile after %s" % op)
        ctx.equal(tuple(tile.get_sprite_tuple()), (m["set"], m["tile"], m["palette"]), "sprite tuple")
        ctx.check(isinstance(tile.get_sprite_tuple()[0], TileSpriteSet), "sprite set type")
        ctx.equal(tile.sprite_path, "area/%s/tiles/tile%d_%d_0001.png" % (SETNAME[m["set"]], m["tile"], m["palette"] + 1), "sprite path")
        ctx.count("paths")
        filthy = any(e["fset"] for e in m["edges"])
        ctx.check(bool(tile.has_filth()) == filthy, "has_filth", filthy)
        ctx.count("filth_judged")
        block = gen.DUSTBLOCK.get(m["set"]) == m["tile"]
        ctx.check(bool(tile.is_dustblock()) == block, "is_dustblock", (m["set"], m["tile"]), block)
        if block:
            ctx.count("dustblock_judged_true")
    ctx.seen((m["set"], m["tile"], m["palette"], repr(ctx.trace)))
    ctx.sample((m["set"], m["tile"], m["palette"], ctx.trace[:6]))


BLANK = {"solid": False, "visible": False, "caps": (False, False), "angles": (0, 0), "fset": 0, "spike": False, "fcaps": (False, False), "fangles": (0, 0)}


def new_objects(ctx):
    """New objects have the documented state, whatever was done to earlier ones."""
    rng = ctx.rng
    ctx.equal(dm.from_edge(TileEdgeData()), BLANK, "new edge data")
    shape = TileShape(rng.randrange(21))
    for t, s in ((Tile(), 0), (Tile(shape), int(shape)), (Tile(shape=shape), int(shape))):
        ctx.equal(dm.from_tile(t), {"shape": s, "flags": 4, "set": 5, "tile": 1, "palette": 0, "edges": [BLANK] * 4}, "new tile")
        for e in t.edge_data:
            e.solid, e.caps, e.filth_spike = True, (True, True), True
        t.sprite_palette = 7
    s, k, p = gen.sprite(rng)
    ctx.equal(dm.from_tile(Tile(shape, tile_flags=3, sprite_set=TileSpriteSet(s), sprite_tile=k, sprite_palette=p)),
              {"shape": int(shape), "flags": 3, "set": s, "tile": k, "palette": p, "edges": [BLANK] * 4}, "new tile with arguments")
    lv = Level()
    ctx.equal((len(lv.tiles), len(lv.props), len(lv.entities), bytes(lv.sshot)), (0, 0, 0, b""), "new level")
    ctx.equal((len(lv.backdrop.tiles), len(lv.backdrop.props)), (0, 0), "new level's backdrop")
    ctx.check(lv.backdrop.backdrop is None, "a backdrop has no backdrop of its own")
    lv.tiles[(19, 0, 0)] = Tile()
    lv.backdrop.tiles[(19, 0, 0)] = Tile()
    lv.variables["x"] = dm.to_var(("int", 3))
    lv.sshot = b"1"
    lv.add_entity(0, 0, Entity())
    e = Entity()
    ctx.equal((e.etype, dict(e.variables), e.rotation, e.layer, bool(e.flip_x), bool(e.flip_y), bool(e.visible)),
              ("unknown_type", {}, 0, 18, False, False, True), "new entity")
    e.variables["y"] = dm.to_var(("int", 3))
    vals = [rng.randrange(100) for _ in range(5)]
    p = Prop(vals[0], vals[1], True, False, 2.0, vals[2], vals[3], vals[4], 3)
    ctx.equal((p.layer_sub, p.rotation, p.flip_x, p.flip_y, p.scale, p.prop_set, p.prop_group, p.prop_index, p.palette),
              (vals[0], vals[1], True, False, 2.0, vals[2], vals[3], vals[4], 3), "new prop")
    r = RP.Replay()
    ctx.equal((r.version, r.username, r.level, r.frames, r.players, r.entities), (RP.LATEST_VERSION, b"", b"", 0, [], {}), "new replay")
    ctx.equal(RP.LATEST_VERSION, 4, "latest replay version")
    pd = RP.PlayerData()
    ctx.equal((pd.character, pd.intents), (RP.Character.DUSTMAN, {}), "new player data")
    for st in RP.IntentStream:
        ctx.equal(pd.get_intent_value(st, rng.choice([0, 1, 50])), 0, "neutral intent")
    f = RP.EntityFrame()
    ctx.equal((f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed), (0, 0.0, 0.0, 0.0, 0.0), "new entity frame")
    ctx.equal(RP.EntityData().frames, [], "new entity data")
    # entity data of players and cameras
    ids = {i: RP.EntityData([RP.EntityFrame(frame=i)]) for i in rng.sample(range(12), rng.randrange(12))}
    r.entities.update(ids)
    for player in (1, 2, 3, 4):
        ctx.check(r.get_player_entity_data(player) is ids.get(2 * player), "entity data of player %d" % player, sorted(ids))
        ctx.check(r.get_camera_entity_data(player) is ids.get(2 * player + 1), "entity data of camera %d" % player, sorted(ids))
    ctx.check(r.get_player_entity_data() is ids.get(2) and r.get_camera_entity_data() is ids.get(3), "entity data of the first player")
    # intents
    vals = [rng.randrange(2) for _ in range(rng.randrange(6))]
    pd.intents[RP.IntentStream.JUMP] = vals
    for i in range(-2, 8):
        ctx.equal(pd.get_intent_value(RP.IntentStream.JUMP, i), vals[i] if 0 <= i < len(vals) else 0, "intent at frame %d" % i)
    r.players.append(pd)
    ctx.count("new_objects")
    ctx.seen((int(shape), s, k, p.palette, sorted(ids), vals))


WORKLOADS = [
    Workload("enums", enums, len(MEMBERS) * 2, len(MEMBERS) * 4),
    Workload("tables", tables, 42, 84),
    Workload("sprites", sprites, 24000, 200000),
    Workload("new_objects", new_objects, 1800, 10000),
]
