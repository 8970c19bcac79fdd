"""C14: remapping and merging keep objects and their references."""
import copy

from dustmaker.level import Level

from ..core import Workload
from .. import dm, entprops, gen, lvl

PID = "C14"
RULE = ("pairs of random levels with backdrops whose entities carry a unique tag and arbitrary references (AI puppet, camera nodes, "
        "level-end list, key door, score-book list) to entities, to props, to nothing; ids dense, colliding between props and entities "
        "and between the levels; chains of remaps and merges; objects identified by tag afterwards; non-trivial: at least one live "
        "reference; distinct by reference graph")
REQUIRED = {"live_references": 5000, "dead_references": 2000, "objects_tracked": 20000, "merges": 800, "remaps": 2000, "tiles_overwritten": 300, "ids_on_both_sides": 1000}
ASSUMPTIONS = ["reference variables absent or of their documented type; minimum ids above zero", "a reference variable that was absent may appear as an empty list or zero"]

REFS = {"AI_controller": ("puppet_id", "uint"), "camera_node": ("c_node_ids", "uints"), "level_end": ("ent_list", "uints"),
        "enemy_key": ("door", "uint"), "custom_score_book": ("level_list_id", "int")}


class Tags:
    def __init__(self):
        self.n = 0

    def new(self):
        self.n += 1
        return self.n


def tagged(rng, tags, dense):
    m = gen.level(rng, size=0.5, spread=6)
    m["props"], m["entities"], m["bprops"] = {}, {}, {}
    huge = not dense and rng.random() < 0.01
    hollow = rng.random() < 0.06       # nothing but a backdrop
    up, ue = set(), set()

    def ident(used):
        if not dense:
            while True:
                i = gen.ident(rng, set())
                if 0 < i < 2**30 and i not in used:
                    used.add(i)
                    return i
        while True:
            i = rng.randrange(1, 40) if rng.random() < 0.3 else rng.randrange(100, 140)
            if i not in used:
                used.add(i)
                return i

    for _ in range(rng.choice([0, 2, 6, gen.loglen(rng, 4)] if not huge else [270]) if not hollow else 0):
        p = gen.prop(rng, 6)
        p["tag"] = tags.new()
        m["props"][ident(up)] = p
    for _ in range(rng.choice([0, 0, 2] if not hollow else [1, 5])):
        p = gen.prop(rng, 6)
        p["tag"] = tags.new()
        m["bprops"][ident(up)] = p
    for _ in range(rng.choice([1, 4, 12, 1 + gen.loglen(rng, 5)] if not huge else [300]) if not hollow else 0):
        t = rng.choice(list(REFS)) if rng.random() < 0.6 else gen.etype(rng)
        e = gen.entity(rng, 6, type_=t, vars_=[])
        e["tag"] = tags.new()
        m["entities"][ident(ue)] = e
    ids = sorted(ue)
    other = sorted(up - ue) + [0, 9999, 2**31, 77]

    def ref():
        return rng.choice(ids) if rng.random() < 0.65 else rng.choice(other)

    for e in m["entities"].values():
        e["vars"] = [("vf_tag", ("int", e["tag"]))]
        if rng.random() < 0.3:
            e["vars"].append(("zz", ("uint", rng.choice(ids))))
        if e["type"] in REFS and rng.random() < 0.9:
            key, kind = REFS[e["type"]]
            if kind == "uint":
                e["vars"].append((key, ("uint", ref())))
            elif kind == "int":
                e["vars"].append((key, ("int", ref() & 0x7fffffff)))
            else:
                e["vars"].append((key, ("array", ("uint", [("uint", ref()) for _ in range(rng.choice([0, 1, 3, 5, gen.loglen(rng, 5)] if not huge else [3, 300]))]))))
        e["vars"] += entprops.documented(rng, e["type"], {k for k, _ in REFS.values()})
        rng.shuffle(e["vars"])
    return m


def build(m):
    """Level from the model; prop tags kept by object identity."""
    lv = dm.to_level(m)
    return lv


def view(lv, ptag):
    """Objects by tag with placement; references by target tag (None = zero)."""
    ents = {}
    bytag = {}
    for i, (x, y, e) in lv.entities.items():
        bytag[i] = dm.from_map(e.variables)
        bytag[i] = dict(bytag[i])["vf_tag"][1]
    for i, (x, y, e) in lv.entities.items():
        d = dm.from_entity(x, y, e)
        refs = []
        vs = dict(d.pop("vars"))
        if d["type"] in REFS:
            key, kind = REFS[d["type"]]
            v = vs.pop(key, None)
            if kind == "uints":
                refs = [(bytag.get(q[1]), q[1]) for q in v[1][1]] if v is not None else []
            else:
                q = v[1] if v is not None else 0
                refs = [(bytag.get(q), q)]
        ents[bytag[i]] = (d, sorted(vs.items()), refs, i)
    props = {}
    for b, src in ((False, lv.props), (True, dm.bd(lv).props)):
        for i, (layer, x, y, p) in src.items():
            props[ptag(p)] = (b, dm.from_prop(layer, x, y, p), i)
    return ents, props


def pkey(p):
    return (p.layer_sub, p.rotation, p.flip_x, p.flip_y, round(p.scale, 9), p.prop_set, p.prop_group, p.prop_index, p.palette)


def unique_props(rng, m, tags):
    """Make props recognisable by their data (tag in group and index)."""
    for d in ("props", "bprops"):
        for p in m[d].values():
            p["group"], p["index"] = p["tag"] // 4096, p["tag"] % 4096


def ptag(p):
    return p.prop_group * 4096 + p.prop_index


def all_ids(lv):
    return [*lv.props, *lv.entities, *dm.bd(lv).props]


def expect_refs(old):
    """Reference targets after a remap: same entity, or zero if there was none."""
    return [(t, None) if t is not None else (None, 0) for t, q in old]


def cmp(ctx, got, want, label):
    """got/want views: same objects, same data, references to the same tags."""
    ge, gp = got
    we, wp = want
    ctx.equal(sorted(ge), sorted(we), "%s: entities by tag" % label)
    ctx.equal(sorted(gp), sorted(wp), "%s: props by tag" % label)
    for t, (d, vs, refs, i) in we.items():
        g = ge[t]
        ctx.equal((g[0], g[1]), (d, vs), "%s: entity with tag %d" % (label, t))
        ctx.equal([r[0] for r in g[2]], [r[0] for r in refs], "%s: references of entity with tag %d (%s)" % (label, t, d["type"]),
                  "ids before %r, after %r" % ([r[1] for r in refs], [r[1] for r in g[2]]))
        for (tt, q), (wt, _) in zip(g[2], refs):
            if wt is None:
                ctx.count("dead_references")
            else:
                ctx.count("live_references")
        ctx.count("objects_tracked")
    for t, (b, p, i) in wp.items():
        ctx.equal((gp[t][0], gp[t][1]), (b, p), "%s: prop with tag %d" % (label, t))
        ctx.count("objects_tracked")


def dead_to_zero(ctx, v, label):
    for t, (d, vs, refs, i) in v[0].items():
        for tt, q in refs:
            if tt is None:
                ctx.equal(q, 0, "%s: reference of a %s to no entity" % (label, d["type"]))


def do_remap(ctx, lv, min_id, label):
    before = view(lv, ptag)
    tiles = dm.from_level(lv)
    n = len(all_ids(lv))
    if min_id is None:
        lv.remap_ids()
        min_id = 100
    else:
        lv.remap_ids(min_id)
    ids = all_ids(lv)
    ctx.log("remap", min_id, sorted(ids)[:5])
    ctx.equal(len(ids), n, "%s: number of objects" % label)
    ctx.equal(len(set(ids)), len(ids), "%s: distinct ids" % label, sorted(ids))
    ctx.check(all(i >= min_id for i in ids), "%s: ids not below %d" % (label, min_id), sorted(ids))
    if ids:
        ctx.equal(min(ids), min_id, "%s: first id" % label)
    after = view(lv, ptag)
    cmp(ctx, after, before, label)
    dead_to_zero(ctx, after, label)
    now = dm.from_level(lv)
    for k in ("tiles", "btiles", "vars", "sshot"):
        ctx.equal(now[k], tiles[k], "%s: %s" % (label, k))
    ctx.count("remaps")
    if any(r[0] is not None for e in before[0].values() for r in e[2]):
        ctx.seen(repr(sorted((t, [r[0] for r in e[2]]) for t, e in before[0].items())))


def remaps(ctx):
    rng = ctx.rng
    tags = Tags()
    m = tagged(rng, tags, rng.random() < 0.6)
    unique_props(rng, m, tags)
    bare = dm.drop_backdrop(ctx, m)
    lv = build(m)
    if bare:
        lv.backdrop = None
    ctx.sample([(e["type"], i) for i, e in m["entities"].items()][:6])
    for _ in range(rng.choice([1, 2, 4])):
        do_remap(ctx, lv, rng.choice([None, 100, 1, 2, 120, 5000, 139, rng.randrange(1, 400), 1 + gen.loglen(rng, 30)]), "remap")
        if rng.random() < 0.3 and lv.entities:
            lv.entities.pop(rng.choice(sorted(lv.entities)))   # leaves dangling references
    # references survive a reload as well
    got = dm.read_level_bytes(dm.write_level_bytes(lv))
    ctx.equal(view(got, ptag)[0].keys(), view(lv, ptag)[0].keys(), "entities after a reload")


def mutables(lv):
    """ids of all mutable objects reachable from a level."""
    out, todo, keep = {}, [lv.tiles, lv.props, lv.entities, lv.variables, dm.bd(lv).tiles, dm.bd(lv).props], []
    while todo:
        o = todo.pop()
        if isinstance(o, (int, float, str, bytes, bool, type(None), type)):
            continue
        if isinstance(o, tuple):
            todo += o
            continue
        if id(o) in out:
            continue
        out[id(o)] = o
        if isinstance(o, dict):
            todo += o.values()
        elif isinstance(o, (list, set)):
            todo += o
        else:
            if hasattr(o, "__dict__"):
                todo += vars(o).values()
            for c in type(o).__mro__:
                for s in getattr(c, "__slots__", ()):
                    if hasattr(o, s):
                        todo.append(getattr(o, s))
    return {i: o for i, o in out.items() if not isinstance(o, Level) and not is_enum(o)}


def is_enum(o):
    import enum
    return isinstance(o, enum.Enum)


def merges(ctx):
    rng = ctx.rng
    tags = Tags()
    ms = [tagged(rng, tags, rng.random() < 0.7) for _ in range(2)]
    for m in ms:
        unique_props(rng, m, tags)
    bare = rng.choice([0, 1, 2]) if rng.random() < 0.1 else None
    if bare in (0, 2):
        # a receiver without a backdrop: nothing to put into one
        dm.drop_backdrop(ctx, ms[0], 1)
    if bare is not None:
        dm.drop_backdrop(ctx, ms[1], 1)
    # overlapping tiles
    for kind in ("tiles", "btiles"):
        for k in list(ms[1][kind])[:3]:
            if rng.random() < 0.6:
                ms[0][kind][k] = gen.tile(rng, 0.4 if kind == "tiles" and k[0] == 19 else 0.0)
    a, b = build(ms[0]), build(ms[1])
    if bare in (0, 2):
        a.backdrop = None
    if bare in (1, 2):
        b.backdrop = None
    va, vb = view(a, ptag), view(b, ptag)
    ca, cb = dm.from_level(a), dm.from_level(b)
    bobjs = mutables(b)
    remap = rng.random() < 0.8
    if not remap:
        # disjoint ids by hand
        a.remap_ids(b.calculate_max_id() + rng.choice([1, 50, 1 + gen.loglen(rng, 20)]))
        va = view(a, ptag)
        a.merge(b, remap_ids=False)
    elif rng.random() < 0.5:
        a.merge(b)
    else:
        a.merge(b, remap_ids=True)
    ctx.count("merges")
    ids = all_ids(a)
    ctx.equal(len(ids), len(set(ids)) if remap_unique(cb) else len(ids), "distinct ids after a merge", sorted(ids))
    got = view(a, ptag)
    # within the union every object keeps its data, references stay inside
    want = ({**va[0], **vb[0]}, {**va[1], **vb[1]})
    vb2 = view(b, ptag)
    for t, (d, vs, refs, i) in vb[0].items():
        ctx.equal(got[0][t][3], i, "id of a merged-in entity")
    for t, (bb, p, i) in vb[1].items():
        ctx.equal(got[1][t][2], i, "id of a merged-in prop")
    cmp_merge(ctx, got, want, va, vb)
    now = dm.from_level(a)
    for kind in ("tiles", "btiles"):
        ctx.equal(now[kind], {**ca[kind], **cb[kind]}, "%s after a merge" % kind)
        ctx.count("tiles_overwritten", len(set(ca[kind]) & set(cb[kind])))
    ctx.equal((now["vars"], now["sshot"]), (ca["vars"], ca["sshot"]), "variables and thumbnail after a merge")
    ctx.equal(dm.from_level(b), cb, "the merged-in level")
    ctx.equal(vb2, vb, "the merged-in level's objects")
    shared = [o for i, o in mutables(a).items() if i in bobjs]
    ctx.check(not shared, "the levels share mutable objects after a merge", shared[:3])
    # edits of one side do not reach the other
    snap = dm.from_level(b)
    scribble(rng, a)
    ctx.equal(dm.from_level(b), snap, "merged-in level after editing the merged level")
    if any(r[0] is not None for e in want[0].values() for r in e[2]):
        ctx.seen(repr(sorted((t, [r[0] for r in e[2]]) for t, e in want[0].items())))


def overlaps(ctx):
    """Merging without remapping, ids used on both sides."""
    rng = ctx.rng
    ms = [gen.level(rng, size=rng.choice([0.2, 0.6])) for _ in range(2)]
    for kind in ("tiles", "btiles", "props", "bprops", "entities"):
        for k in list(ms[1][kind]):
            if rng.random() < 0.4:
                clash = k in ms[0]["bprops" if kind == "props" else "props"] and kind in ("props", "bprops")
                if not clash:
                    ms[0][kind][k] = gen.tile(rng, 0.0) if "tiles" in kind else gen.prop(rng) if "props" in kind else gen.entity(rng)
    a, b = dm.to_level(ms[0]), dm.to_level(ms[1])
    ca, cb = dm.from_level(a), dm.from_level(b)
    a.merge(b, remap_ids=False)
    now = dm.from_level(a)
    for kind in ("tiles", "btiles", "props", "bprops", "entities"):
        ctx.equal(now[kind], {**ca[kind], **cb[kind]}, "%s after a merge without remapping" % kind)
        if "tiles" not in kind:
            ctx.count("ids_on_both_sides", len(set(ca[kind]) & set(cb[kind])))
    ctx.equal((now["vars"], now["sshot"]), (ca["vars"], ca["sshot"]), "variables and thumbnail after a merge")
    ctx.equal(dm.from_level(b), cb, "the merged-in level")
    scribble(rng, a)
    ctx.equal(dm.from_level(b), cb, "the merged-in level after edits of the receiver")
    ctx.seen((ms[0], ms[1]))


def remap_unique(cb):
    ids = [*cb["props"], *cb["entities"], *cb["bprops"]]
    return len(ids) == len(set(ids))


def cmp_merge(ctx, got, want, va, vb):
    """References: those of each side resolve to the same tag as before; a
    merged-in reference to no entity must not capture an entity of the other side."""
    ge, gp = got
    ctx.equal(sorted(ge), sorted(want[0]), "merge: entities by tag")
    ctx.equal(sorted(gp), sorted(want[1]), "merge: props by tag")
    for t, (d, vs, refs, i) in want[0].items():
        g = ge[t]
        ctx.equal((g[0], g[1]), (d, vs), "merge: entity with tag %d" % t)
        for (gt, gq), (wt, wq) in zip(g[2], refs):
            if wt is not None:
                ctx.equal(gt, wt, "merge: reference of a %s" % d["type"], "id %d now %d" % (wq, gq))
                ctx.count("live_references")
            else:
                ctx.count("dead_references")
                if t in va[0]:
                    ctx.equal(gq, 0, "merge: reference to no entity on the receiving side")
        ctx.equal(len(g[2]), len(refs), "merge: number of references")
        ctx.count("objects_tracked")
    for t, (b, p, i) in want[1].items():
        ctx.equal((gp[t][0], gp[t][1]), (b, p), "merge: prop with tag %d" % t)


def scribble(rng, lv):
    for t in list(lv.tiles.values()) + list(dm.bd(lv).tiles.values()):
        t.sprite_tile = (t.sprite_tile + 1) % 256
        t.edge_data[0].solid = not t.edge_data[0].solid
    for _, _, e in lv.entities.values():
        e.rotation = (e.rotation + 1) % 65536
        e.variables["scribble"] = dm.to_var(("int", 1))
        for v in e.variables.values():
            if dm.kind_of(v) == "array" and v.value[0] is dm.CLS["uint"]:
                v.append(5)
    for d in (lv.props, dm.bd(lv).props):
        for _, _, _, p in d.values():
            p.rotation = (p.rotation + 1) % 65536


def chain(ctx):
    """Several levels merged into one, with remaps in between."""
    rng = ctx.rng
    tags = Tags()
    base = tagged(rng, tags, True)
    unique_props(rng, base, tags)
    lv = build(base)
    total = view(lv, ptag)
    for _ in range(rng.choice([2, 3])):
        m = tagged(rng, tags, True)
        unique_props(rng, m, tags)
        o = build(m)
        vo = view(o, ptag)
        cur = view(lv, ptag)
        lv.merge(o)
        cmp_merge(ctx, view(lv, ptag), ({**cur[0], **vo[0]}, {**cur[1], **vo[1]}), cur, vo)
        ctx.count("merges")
        if rng.random() < 0.5:
            do_remap(ctx, lv, rng.choice([None, 100, 1, 1000, 1 + gen.loglen(rng, 29)]), "remap after merge")


WORKLOADS = [
    Workload("remaps", remaps, 5000, 60000),
    Workload("merges", merges, 4000, 50000),
    Workload("overlaps", overlaps, 800, 12000),
    Workload("chain", chain, 600, 8000),
]
