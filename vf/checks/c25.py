"""C25: save conversion conserves scores and key counts."""
import os

from dustmaker.cmd.save_convert import migrate_stats

from ..core import Workload
from .. import cli, dm, gen, lvl, refcodec, streams

PID = "C25"
RULE = ("vanilla saves with 0..90 score records of known levels (all 64 over the run, also repeated) and unknown ones in any order, extra and "
        "missing variables, any subset of score books, through the conversion function and the real tool; the converted file is decoded "
        "independently; conservation of records and key counts; non-trivial: at least one known score; distinct by save")
REQUIRED = {"saves": 600, "scores_kept": 5000, "scores_dropped": 500, "books_carried": 500, "red_used_present": 150, "red_used_absent": 150,
            "known_levels": 64, "repeated": 100, "no_scores": 20, "failed": 40, "processes": 3}
ASSUMPTIONS = ["score records have the fields and types the game writes", "the key doors: the game's four hubs of four doors of four levels"]

# The game's levels in hub order: four areas, each with four doors of four
# levels; the levels of a door give the key for the next door.
AREAS = ["downhill shadedgrove dahlia fields | momentum fireflyforest tunnels momentum2 | suntemple ascent summit grasscave | den autumnforest garden hyperdifficult",
         "atrium secretpassage alcoves mezzanine | cave cliffsidecaves library courtyard | precarious treasureroom arena ramparts | moontemple observatory parapets brimstone",
         "vacantlot sprawl development abandoned | park boxes chemworld factory | tunnel basement scaffold cityrun | clocktower concretetemple alley hideout",
         "control ferrofluid titan satellite | vat venom security mary | wiringfixed containment orb pod | mary2 coretemple abyss dome"]
DOOR = {name: i for area in AREAS for i, door in enumerate(area.split("|")) for name in door.split()}
BOOKS = ["citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook", "virtualbookk"]
LEVELS = sorted(DOOR)


def score(rng, name):
    s = [("file_name", ("string", name)), ("combo", ("int", gen.i32(rng))), ("time", ("float", gen.grid_float(rng))),
         ("thorough", ("float", gen.grid_float(rng))), ("best_time", ("float", gen.grid_float(rng))), ("overall", ("int", gen.i32(rng)))]
    if rng.random() < 0.4:
        s.append((rng.choice(["rank", "rind", "key_type", "extra"]), ("int", gen.i32(rng))))
    rng.shuffle(s)
    return ("struct", s)


def save(ctx):
    rng = ctx.rng
    names = []
    kind = rng.random()
    if kind < 0.1:
        names = list(LEVELS)
    elif kind > 0.15:
        names = rng.sample(LEVELS, rng.randrange(0, 20))
        if rng.random() < 0.25 and names:
            names += rng.choices(names, k=rng.randrange(1, 4))
            ctx.count("repeated")
    names = [n.encode() for n in names]
    for _ in range(rng.choice([0, 0, 1, 3])):
        names.append(rng.choice([b"mylevel", b"Downhill", b"downhill2", b"", b"downhill\0", gen.bstr(rng), b"downhil", b"mary3", b"tutorial"]))
    rng.shuffle(names)
    scores = [score(rng, n) for n in names]
    items = {}
    if scores or rng.random() < 0.6:
        items["score"] = ("array", ("struct", scores))
    for b in BOOKS:
        if rng.random() < 0.35:
            items[b] = gen.var(rng, 2, rng.choice(["int", "array", "struct", "array"]))
            ctx.count("books_carried")
    if rng.random() < 0.5:
        items["red_used"] = ("int", rng.choice([0, 1, 5, 99, rng.randrange(1000), -1, gen.i32(rng)]))
        ctx.count("red_used_present")
    else:
        ctx.count("red_used_absent")
    for k in ("wood_used", "silver_used", "gold_used", "forest_seen", "tutorial", "k_score", "k_root", "k_wood_used", "k_ngplus"):
        if rng.random() < 0.15:
            items[k] = ("int", rng.randrange(9)) if not k.startswith("k_") else gen.var(rng, 1)
    items = list(items.items())
    rng.shuffle(items)
    ctx.count("no_scores", not scores)
    return items, scores


def expected(items, scores):
    d = dict(items)
    kept, used = [], [0, 0, 0, 0]
    for s in scores:
        f = dict(s[1])
        door = DOOR.get(f["file_name"][1].decode("latin1"))
        if door is None:
            continue
        if door > 0:
            used[door - 1] += 1
        kept.append({**{k: f[k] for k in ("file_name", "combo", "time", "thorough", "best_time", "overall")},
                     "rind": ("int", 0), "key_type": ("int", door or 4)})
    used[3] = d.get("red_used", ("int", 0))[1]
    out = {b: d[b] for b in BOOKS if b in d}
    for n, k in zip(("wood", "silver", "gold", "red"), used):
        out["k_%s_used" % n] = ("array", ("int", [("int", k)]))
    out["k_root"] = ("array", ("string", [("string", b"")]))
    out["k_ngplus"] = ("array", ("bool", [("bool", False)]))
    return out, kept


def verify(ctx, got, items, scores, label):
    want, kept = expected(items, scores)
    got = dict(got)
    k = got.pop("k_score")
    ctx.check(k[0] == "array" and k[1][0] == "struct", "%s: k_score is an array of structs" % label, k)
    recs = [dict(s[1]) for s in k[1][1]]
    names = [r["file_name"][1] for r in recs]
    ctx.equal(names, sorted(names), "%s: records sorted by level" % label)
    key = lambda r: repr(sorted(r.items()))  # noqa
    ctx.equal(sorted(map(key, recs)), sorted(map(key, kept)), "%s: records" % label)
    ctx.equal(sorted((n, dm.sort_struct(v)) for n, v in got.items()), sorted((n, dm.sort_struct(v)) for n, v in want.items()), "%s: other variables" % label)
    ctx.count("scores_kept", len(kept))
    ctx.count("scores_dropped", len(scores) - len(kept))


def function(ctx):
    items, scores = save(ctx)
    m = dm.to_map(items)
    out = migrate_stats(m)
    verify(ctx, dm.from_map(out), items, scores, "converted")
    ctx.equal(dm.from_map(m), items, "the save that was converted")
    ctx.count("saves")
    if expected(items, scores)[1]:
        ctx.seen(repr(items))


def each(ctx):
    """Every known level alone and with a near namesake."""
    rng = ctx.rng
    name = LEVELS[ctx.index % 64].encode()
    for names in ([name], [name + b"x", name, name[:-1], name.upper()]):
        scores = [score(rng, n) for n in names]
        items = [("score", ("array", ("struct", scores)))]
        verify(ctx, dm.from_map(migrate_stats(dm.to_map(items))), items, scores, name.decode())
    ctx.count("known_levels", ctx.index < 64)


def tool(ctx, spawn=False):
    rng = ctx.rng
    items, scores = save(ctx)
    data = refcodec.enc_varfile(b"DF_STA", items)
    with streams.Scratch() as d:
        p, q = streams.putbytes(os.path.join(d, "stats0"), data), os.path.join(d, "stats1")
        if rng.random() < 0.5:
            streams.putbytes(q, rng.choice([b"", b"x" * 9000, data]))
        inplace = rng.random() < 0.1
        if inplace:
            q = p
        if spawn:
            r = cli.spawn("saveconvert", p, q) if ctx.index % 2 else cli.spawn(p, q, module="dustmaker.cmd.save_convert")
            ctx.count("processes")
        else:
            r = cli.run("saveconvert", p, q)
        ctx.equal(r.code, 0, "exit code", r)
        if not inplace:
            ctx.equal(streams.getbytes(p), data, "the save that was converted")
        out = streams.getbytes(q)
        v = refcodec.dec_varfile(out, b"DF_STA")
        ctx.equal((v["version"], v["size"], v["end"]), (1, len(out), len(out)), "file header")
        verify(ctx, v["vars"], items, scores, "tool")
        ctx.count("saves")
        ctx.seen(data)
    ctx.sample([s[1] for s in scores[:1]])


def process(ctx):
    tool(ctx, True)


def failing(ctx):
    rng = ctx.rng
    items, scores = save(ctx)
    data = refcodec.enc_varfile(b"DF_STA", items)
    with streams.Scratch() as d:
        p, q = os.path.join(d, "stats0"), streams.putbytes(os.path.join(d, "stats1"), b"keep me")
        bad = rng.choice([None, b"", b"DF_CFG" + data[6:], b"junk" * 30, data[:rng.randrange(12)]])
        if bad is not None:
            streams.putbytes(p, bad)
        r = cli.run("saveconvert", p, q)
        ctx.check(r.code != 0, "what is no save is refused", r)
        ctx.equal(streams.getbytes(q), b"keep me", "existing output after a refusal")
        ctx.count("failed")


WORKLOADS = [
    Workload("function", function, 3200, 30000),
    Workload("each", each, 64, 640),
    Workload("tool", tool, 2000, 12000),
    Workload("process", process, 4, 40),
    Workload("failing", failing, 200, 1000),
]
