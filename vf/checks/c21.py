"""C21: named properties and entity types map faithfully to variables."""
import itertools
import os

from dustmaker.entity import AIController, Enemy, Entity, FogTrigger, Trigger
from dustmaker.level import Level, LevelType
from dustmaker.transform import TxMatrix
from dustmaker import variable as V

from ..core import Workload
from .. import dm, gen
from ..entprops import ENTITY

PID = "C21"
RULE = ("every documented property of every entity type, of levels and of player starts (exhaustive over repeated cases) under random histories "
        "of reads, writes, deletions, raw variable edits of every type, refused assignments and file round trips; expected variable name, type "
        "and default from a table written from the documentation; user-defined and unknown entity types through files; fog triggers of random "
        "sizes; non-trivial: a history with a write; distinct by property and history")
REQUIRED = {"reads": 20000, "writes": 4000, "deletes": 2000, "wrong_type_reads": 1500, "refused_writes": 2500, "written_back": 4000,
            "file_round_trips": 400, "properties_covered": 108, "typed_entities": 1500, "near_known_types": 300, "user_types": 200, "types_defined_anew": 60, "builtin_overrides": 40, "fog_normalised": 400, "fog_indices": 500}
ASSUMPTIONS = ["the element type of an array assigned to an array property is not judged"]

LEVEL = [("dustmod_version", "dustmod_version", "string", b""), ("level_type", "level_type", "int", 0), ("name", "level_name", "string", b""),
         ("virtual_character", "vector_character", "bool", False)]
# the class documented for each type
CLASS = {"entity_emitter": "Emitter", "check_point": "CheckPoint", "level_end_prox": "EndZone", "base_trigger": "Trigger", "fog_trigger": "FogTrigger",
         "ambience_trigger": "AmbienceTrigger", "music_trigger": "MusicTrigger", "special_trigger": "SpecialTrigger", "text_trigger": "TextTrigger",
         "kill_box": "DeathZone", "AI_controller": "AIController", "camera_node": "CameraNode", "level_end": "LevelEnd", "score_book": "ScoreBook",
         "level_door": "LevelDoor", "giga_gate": "RedKeyDoor", "enemy_tutorial_square": "EnemyLightPrism", "enemy_tutorial_hexagon": "EnemyHeavyPrism",
         "enemy_slime_beast": "EnemySlimeBeast", "enemy_slime_barrel": "EnemySlimeBarrel", "enemy_spring_ball": "EnemySpringBall",
         "enemy_slime_ball": "EnemySlimeBall", "enemy_trash_tire": "EnemyTrashTire", "enemy_trash_beast": "EnemyTrashBeast", "enemy_trash_can": "EnemyTrashCan",
         "enemy_trash_ball": "EnemyTrashBall", "enemy_bear": "EnemyBear", "enemy_stoneboss": "EnemyTotemLarge", "enemy_stonebro": "EnemyTotemSmall",
         "enemy_porcupine": "EnemyPorcupine", "enemy_wolf": "EnemyWolf", "enemy_critter": "EnemyTurkey", "enemy_flag": "EnemyFlag",
         "enemy_scrolls": "EnemyScroll", "enemy_treasure": "EnemyTreasure", "enemy_chest_treasure": "EnemyChestTreasure",
         "enemy_chest_scrolls": "EnemyChestScrolls", "enemy_butler": "EnemyButler", "enemy_maid": "EnemyMaid", "enemy_knight": "EnemyKnight",
         "enemy_gargoyle_big": "EnemyGargoyleBig", "enemy_gargoyle_small": "EnemyGargoyleSmall", "enemy_book": "EnemyBook", "enemy_hawk": "EnemyHawk",
         "enemy_key": "EnemyKey", "enemy_door": "EnemyDoor", "hittable_apple": "Apple", "dust_man": "Dustman", "dust_girl": "Dustgirl", "dust_kid": "Dustkid",
         "dust_worth": "Dustworth", "dust_wraith": "Dustwraith", "leaf_sprite": "Leafsprite", "trash_king": "Trashking", "slime_boss": "Slimeboss",
         "custom_score_book": "CustomScoreBook", "z_string_list": "StringList"}
ALL = [("entity", t, p) for t, ps in ENTITY.items() for p in ps] + [("level", None, p) for p in LEVEL] + \
      [("start", n, (c, "p%d_%s" % (n, c), "int", 0)) for n in (1, 2, 3, 4) for c in "xy"]


def make(rng, where, t):
    """(holder of the property, its variables dict, level to store it)"""
    lv = Level()
    if where == "entity":
        e = dm.classes()[t]()
        lv.add_entity(0, 0, e, 100)
        return e, e.variables, lv
    if where == "level":
        return lv, lv.variables, lv
    return lv.start_position(t) if t != 1 or rng.random() < 0.5 else lv.start_position(), lv.variables, lv


def good(rng, kind):
    """Plain (kind, value)"""
    if kind.startswith("array:"):
        k = kind[6:]
        return ("array", (k, [good(rng, k) for _ in range(rng.choice([0, 1, 2, 5]))]))
    if kind == "bool":
        return (kind, rng.random() < 0.5)
    if kind == "int":
        return (kind, gen.i32(rng))
    if kind == "uint":
        return (kind, gen.u32(rng))
    if kind == "float":
        return (kind, gen.grid_float(rng))
    if kind == "string":
        return (kind, gen.bstr(rng))
    return (kind, (gen.grid_float(rng), gen.grid_float(rng)))


WRONG = {
    "bool": [1, 0, "x", None, b"", 1.0, []], "int": ["1", None, 1.5, b"1", 2**31, -2**31 - 1, [], (1, 2)], "uint": ["1", None, 1.5, -1, 2**32, b"", []],
    "float": ["1", None, b"", [], (1.0, 2.0)], "string": ["text", None, 5, 1.0, []], "array": [None, 5, "x", 1.5, b"x"],
}


def history(ctx):
    rng = ctx.rng
    where, t, (pname, vname, kind, default) = ALL[ctx.index % len(ALL)]
    ctx.count("properties_covered", ctx.index < len(ALL))
    obj, variables, lv = make(rng, where, t)
    arr = kind.startswith("array:")
    base = "array" if arr else kind
    label = "%s %s.%s" % (where, t, pname)
    if (where, pname) == ("level", "dustmod_version"):
        del obj.dustmod_version
    cur = None      # stored plain value, or None
    hist = []
    others = {k: dm.from_var(v) for k, v in variables.items() if k != vname}

    def plain(v):
        if arr:
            ctx.check(isinstance(v, V.VariableArray), "%s: an array property reads as an array" % label, v)
            return dm.from_var(v)
        return dm.from_var(dm.CLS[kind](v))

    for _ in range(rng.choice([2, 4, 8])):
        op = rng.choice(["read", "read", "write", "write", "del", "raw_wrong", "refuse", "back", "raw_good", "file", "refuse"])
        hist.append(op)
        ctx.log(op, cur)
        if op == "write":
            p = good(rng, kind)
            v = dm.to_var(p)
            setattr(obj, pname, v if arr else v.value)
            cur = p
            ctx.count("writes")
        elif op == "raw_good":
            p = good(rng, kind)
            variables[vname] = dm.to_var(p)
            cur = p
        elif op == "del":
            delattr(obj, pname)
            cur = None
            ctx.check(vname not in variables, "%s: deleted variable is gone" % label, variables)
            if rng.random() < 0.3:
                delattr(obj, pname)
            ctx.count("deletes")
        elif op == "raw_wrong":
            saved = variables.get(vname)
            k = rng.choice([k for k in dm.CLS if k != base])
            wrong = dm.to_var(gen.var(rng, 1, k))
            variables[vname] = wrong
            ctx.raises(Exception, lambda: getattr(obj, pname), "%s: stored %s is refused" % (label, k))
            ctx.check(variables[vname] is wrong, "%s: refused variable stays" % label)
            ctx.count("wrong_type_reads")
            if rng.random() < 0.3:
                # deleting gets rid of it as well
                delattr(obj, pname)
                cur = saved = None
                ctx.check(vname not in variables, "%s: deleted variable of another type is gone" % label, variables)
                variables[vname] = wrong
                p = good(rng, kind)
                v = dm.to_var(p)
                setattr(obj, pname, v if arr else v.value)
                same(ctx, dm.from_var(variables[vname]), p, "%s: written over a variable of another type" % label)
            if saved is None:
                del variables[vname]
            else:
                variables[vname] = saved
        elif op == "refuse":
            bad = rng.choice(WRONG[base])
            if rng.random() < 0.3:
                # a boxed variable of another type
                bad = dm.to_var(gen.var(rng, 1, rng.choice([k for k in dm.CLS if k != base])))
            ctx.raises(Exception, lambda: setattr(obj, pname, bad), "%s: assigning %r is refused" % (label, bad))
            ctx.count("refused_writes")
            if cur is None and not arr:
                ctx.check(vname not in variables, "%s: refused assignment stores nothing" % label)
        elif op == "back":
            setattr(obj, pname, getattr(obj, pname))
            if cur is None:
                cur = ("array", (kind[6:], [])) if arr else (kind, default)
            ctx.count("written_back")
        elif op == "file":
            # names survive a file; floats to the file's resolution
            got = dm.read_level_bytes(dm.write_level_bytes(lv))
            lv = got
            if where == "entity":
                obj = got.entities[100][2]
                ctx.equal(type(obj).__name__, CLASS[t], "%s: class after a file round trip" % label)
                variables = obj.variables
            elif where == "level":
                obj, variables = got, got.variables
            else:
                obj, variables = got.start_position(t), got.variables
            if (where, pname) == ("level", "dustmod_version") and cur is None and "dustmod_version" in variables:
                cur = dm.from_var(variables["dustmod_version"])
            ctx.count("file_round_trips")
        if op == "read" or rng.random() < 0.7:
            v = getattr(obj, pname)
            ctx.count("reads")
            if cur is None:
                if arr:
                    ctx.equal(plain(v), ("array", (kind[6:], [])), "%s: default" % label)
                    cur = ("array", (kind[6:], []))     # reading an array property makes it editable in place
                    if rng.random() < 0.5:
                        item = good(rng, kind[6:])
                        v.append(dm.to_var(item).value)
                        cur = ("array", (kind[6:], [item]))
                        ctx.equal(plain(getattr(obj, pname)), cur, "%s: editing the default array in place" % label)
                else:
                    ctx.check(type(v) is type(default) or isinstance(v, type(default)), "%s: default type" % label, v)
                    ctx.equal(plain(v), (kind, default), "%s: default" % label)
                    if kind == "bool":
                        ctx.check(v is default, "%s: default" % label, v)
            else:
                same(ctx, plain(v), cur, "%s: value read" % label)
        if cur is not None:
            ctx.check(vname in variables, "%s: stored as %s" % (label, vname), sorted(variables))
            same(ctx, dm.from_var(variables[vname]), cur, "%s: stored variable" % label)
        now = {k: dm.from_var(v) for k, v in variables.items() if k != vname}
        if op == "file":
            others = now
        ctx.equal(now, others, "%s: other variables" % label)
    ctx.sample((label, hist))
    if "write" in hist:
        ctx.seen((label, hist, cur))


def same(ctx, got, want, label):
    if want[0] == "float":
        ctx.check(got[0] == "float" and abs(got[1] - want[1]) < 2.0**-30, label, (got, want))
    else:
        ctx.equal(got, want, label)


def types(ctx):
    """Classes of entities read from files; unknown types keep name and data."""
    rng = ctx.rng
    lv = Level()
    want = {}
    for i in range(rng.choice([5, 20])):
        e = gen.entity(rng, 20)
        if rng.random() < 0.2:
            # almost a known type
            t = rng.choice(sorted(CLASS))
            t = rng.choice([t.upper(), t.lower(), t.title(), t.capitalize(), t.swapcase(), t + "s", t[1:], t[:-1], t.replace("_", ""), "z" + t, t + "_" + t])
            if t not in CLASS and 0 < len(t) < 64:
                e["type"] = t
                ctx.count("near_known_types")
        e["vars"] = gen.struct(rng, 1, rng.choice([0, 1, 2]))
        if rng.random() < 0.5:
            # made without its class
            ent = Entity(dm.to_map(e["vars"]), e["rot"], e["layer"], e["fx"], e["fy"], e["visible"])
            ent.etype = e["type"]
        else:
            ent = dm.to_entity(e)
        ctx.equal(ent.etype, e["type"], "type name")
        lv.add_entity(float(round(e["x"])), float(round(e["y"])), ent, 100 + i)
        want[100 + i] = e
    got = dm.read_level_bytes(dm.write_level_bytes(lv))
    ctx.equal(sorted(got.entities), sorted(want), "entity ids")
    for i, e in want.items():
        g = got.entities[i][2]
        ctx.equal(type(g).__name__, CLASS.get(e["type"], "Entity"), "class for type %r" % e["type"])
        ctx.equal(g.etype, e["type"], "type name read back")
        ctx.equal(sorted(dm.from_map(g.variables)), sorted(e["vars"]), "variables of a %r" % e["type"])
        ctx.count("typed_entities")
    for t, c in CLASS.items():
        ctx.equal(dm.classes()[t]().etype, t, "type of a new %s" % c)
    ctx.seen(sorted((i, e["type"]) for i, e in want.items()))


COUNTER = itertools.count()


def user_types(ctx):
    rng = ctx.rng
    tid = rng.choice(["vfuser_%d", "z_vfuser_%d", "vf%d_"]) % next(COUNTER)
    base = rng.choice([Entity, Trigger, Enemy, AIController])
    calls = []

    class User(base):
        TYPE_IDENTIFIER = tid

        def transform(self, mat):
            super().transform(mat)
            calls.append(("transform", id(self)))

        def remap_ids(self, id_map):
            super().remap_ids(id_map)
            calls.append(("remap", id(self)))

    lv = Level()
    e = User(variables={"vf": V.VariableInt(5)}, rotation=7)
    ctx.equal(e.etype, tid, "type of a new user entity")
    lv.add_entity(3, 4, e, 200)
    plain = Entity({"vf": V.VariableInt(6)})
    plain.etype = tid
    lv.add_entity(5, 6, plain, 201)
    stranger = Entity()
    stranger.etype = tid + "x"
    lv.add_entity(7, 8, stranger, 202)
    got = dm.read_level_bytes(dm.write_level_bytes(lv))
    for i in (200, 201):
        x, y, g = got.entities[i]
        ctx.check(type(g) is User, "user-defined class read back", type(g))
        ctx.equal(g.etype, tid, "type name")
        ctx.equal(dm.from_map(g.variables), [("vf", ("int", i - 195))], "variables")
    ctx.check(type(got.entities[202][2]) is Entity, "unknown type stays a plain entity", type(got.entities[202][2]))
    ctx.equal(got.entities[202][2].etype, tid + "x", "unknown type name")
    ours = {id(got.entities[i][2]) for i in (200, 201)}
    calls.clear()
    got.transform(TxMatrix.HFLIP)
    ctx.equal(sorted(c for c in calls), sorted(("transform", i) for i in ours), "transform reaches each user entity once")
    calls.clear()
    got.remap_ids()
    ctx.equal(sorted(c for c in calls), sorted(("remap", i) for i in ours), "remapping reaches each user entity once")
    if rng.random() < 0.4:
        # defined anew (as in a reloaded script): the class registered last stands for the type
        class Again(rng.choice([User, Entity, Trigger])):
            TYPE_IDENTIFIER = tid

        again = dm.read_level_bytes(dm.write_level_bytes(lv))
        for i in (200, 201):
            ctx.check(type(again.entities[i][2]) is Again, "type defined anew", type(again.entities[i][2]))
        ctx.count("types_defined_anew")
    ctx.count("user_types")
    ctx.seen((tid, base.__name__))


def overrides(ctx):
    """A user class for a type the library knows; in a child process, as the registry is global."""
    rng = ctx.rng
    tid = rng.choice(sorted(CLASS))
    base = rng.choice([Entity, dm.classes()[tid]])
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            class Mine(base):
                TYPE_IDENTIFIER = tid

            lv = Level()
            e = Entity({"vf": V.VariableInt(6)})
            e.etype = tid
            lv.add_entity(1, 2, e, 150)
            g = dm.read_level_bytes(dm.write_level_bytes(lv)).entities[150][2]
            code = 0 if type(g) is Mine and g.etype == tid and dm.from_map(g.variables) == [("vf", ("int", 6))] else 4
        finally:
            os._exit(code)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    ctx.equal(code, 0, "user class registered for the known type %s is used" % tid)
    ctx.count("builtin_overrides")
    ctx.seen((tid, base.__name__))


def fog(ctx):
    rng = ctx.rng
    layer = ctx.index % 21
    sub = (ctx.index // 21) % 26 - 1
    if sub < 0:
        ctx.equal(FogTrigger.get_layer_index(layer), layer, "fog index of layer %d" % layer)
        ctx.equal(FogTrigger.get_layer_index(layer, None), layer, "fog index of layer %d" % layer)
    else:
        ctx.equal(FogTrigger.get_layer_index(layer, sub), 21 + 21 * sub + layer, "fog index of layer %d sublayer %d" % (layer, sub))
        ctx.equal(FogTrigger().get_layer_index(layer, sublayer=sub), 21 + 21 * sub + layer, "fog index of layer %d sublayer %d" % (layer, sub))
    ctx.count("fog_indices")
    bad = rng.choice([(-1, None), (21, None), (0, -1), (20, 25), (21, 0), (-1, 3), (100, 2), (3, 100)])
    ctx.raises(Exception, lambda: FogTrigger.get_layer_index(*bad), "fog index of %r" % (bad,))
    # normalising
    e = FogTrigger()
    subs = rng.random() < 0.5
    if subs or rng.random() < 0.5:
        e.has_sub_layers = subs
    sizes = [rng.choice([0, 1, 20, 21, 22, 545, 546, 547, 600, rng.randrange(700)]) for _ in range(2)] + [rng.choice([0, 1, 2, 3, 4, 9])]
    data = [[gen.u32(rng) for _ in range(sizes[0])], [rng.randrange(0, 64) / 64 for _ in range(sizes[1])], [gen.u32(rng) for _ in range(sizes[2])]]
    for name, kind, vals in (("colours", V.VariableUInt, data[0]), ("pers", V.VariableFloat, data[1]), ("gradient", V.VariableUInt, data[2])):
        if vals or rng.random() < 0.5:
            arr = getattr(e, name)
            if rng.random() < 0.5:
                arr.extend(vals)
            else:
                setattr(e, name, V.VariableArray(kind, [kind(v) for v in vals]))
    keep = {k: dm.from_var(v) for k, v in e.variables.items() if k not in ("fog_colour", "fog_per", "gradient")}
    e.normalize()
    n = 546 if subs else 21
    ctx.equal(list(e.colours), (data[0] + [0x111118] * n)[:n], "fog colours after normalising", sizes)
    ctx.equal(list(e.pers), (data[1] + [0.0] * n)[:n], "fog percentages after normalising", sizes)
    ctx.equal(list(e.gradient), (data[2] + [0] * 3)[:3], "fog gradient after normalising", sizes)
    ctx.equal({k: dm.from_var(v) for k, v in e.variables.items() if k not in ("fog_colour", "fog_per", "gradient")}, keep, "other fog variables")
    before = dm.from_map(e.variables)
    e.normalize()
    ctx.equal(dm.from_map(e.variables), before, "normalising twice")
    # the index addresses the data of its layer
    i = FogTrigger.get_layer_index(layer, sub if subs and sub >= 0 else None)
    ctx.check(0 <= i < n, "fog index inside the normalised data", (i, n))
    ctx.count("fog_normalised")
    ctx.seen((layer, sub, sizes, subs))


WORKLOADS = [
    Workload("history", history, len(ALL) * 120 * 4, len(ALL) * 2500),
    Workload("types", types, 600, 4000),
    Workload("user_types", user_types, 1000, 4000),
    Workload("overrides", overrides, 240, 800),
    Workload("fog", fog, 546, 546 * 12),
]
