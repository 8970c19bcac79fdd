"""C13: new ids never collide."""
import copy

from dustmaker.entity import Entity
from dustmaker.exceptions import LevelException
from dustmaker.level import Level
from dustmaker.transform import TxMatrix

from ..core import Workload
from .. import dm, gen

PID = "C13"
RULE = ("random histories over two or three levels: automatic and explicit additions of props and entities on levels and backdrops, "
        "removals, remaps, merges with and without remapping, flips, turns, shifts, upscales, max-id queries, writes and reloads, also of files whose id counter is behind the ids in them; every "
        "id handed out is compared with all ids present; non-trivial: an automatic id was allocated; distinct by event history")
REQUIRED = {"auto_ids": 15000, "explicit_ids": 4000, "refusals_observed": 1500, "merges": 1500, "remaps": 500, "reloads": 800,
            "max_id_queries": 1500, "stale_counters": 400, "auto_after_reset": 300, "auto_after_merge_without_remap": 800, "auto_with_only_low_ids": 300}
UID = 28        # byte offset of the id counter in a level file
ASSUMPTIONS = ["ids below 2**30, objects only added through the documented methods"]


def present(lv):
    return set(lv.props) | set(lv.entities) | set(dm.bd(lv).props) | set(dm.bd(lv).entities)


def snapshot(lv):
    return tuple({i: (*v[:-1], id(v[-1])) for i, v in d.items()} for d in (lv.props, lv.entities, dm.bd(lv).props, dm.bd(lv).entities))


def pick_id(rng, lv):
    r = rng.random()
    have = sorted(present(lv))
    top = have[-1] if have else 100
    if r < 0.3 and have:
        return rng.choice(have)
    if r < 0.5:
        return rng.choice([0, 1, 50, 99, 100, 101])
    if r < 0.8:
        return top + rng.choice([1, 2, 5])
    if r < 0.95:
        return rng.randrange(0, 400)
    return rng.randrange(0, 2**30)


def check_query(ctx, lv, reset):
    want = max([100, *present(lv)])
    got = lv.calculate_max_id(reset=reset) if rng_kw(ctx) else lv.calculate_max_id(reset)
    ctx.log("max_id", reset, got)
    ctx.count("max_id_queries")
    ctx.check(got >= want, "calculate_max_id(reset=%r) gave %d, ids go up to %d" % (reset, got, want))
    if reset:
        ctx.equal(got, want, "calculate_max_id with reset")
        if ctx.rng.random() < 0.3:
            i = lv.add_entity(0.0, 0.0, Entity())
            ctx.log("auto after reset", i)
            ctx.equal(i, want + 1, "id handed out after a resetting query")
            ctx.count("auto_after_reset")


def rng_kw(ctx):
    return ctx.rng.random() < 0.5


def history(ctx):
    rng = ctx.rng
    levels = [Level() for _ in range(rng.choice([1, 2, 3]))]
    for lv in levels:
        if rng.random() < 0.04:
            lv.backdrop = None
            ctx.count("no_backdrop")
    unmapped = set()
    n_auto = upscales = 0
    for step in range(rng.choice([5, 15, 40] if rng.random() < 0.998 else [900])):
        k = rng.randrange(len(levels))
        lv = levels[k]
        r = rng.random()
        if r < 0.36:
            before = present(lv)
            where = rng.choice(["prop", "entity", "bprop"][:2 if lv.backdrop is None else 3])
            if where == "prop":
                i = lv.add_prop(19, 0.0, 0.0, dm.to_prop(gen.prop(rng)))
            elif where == "entity":
                i = lv.add_entity(0.0, 0.0, Entity())
            else:
                i = lv.backdrop.add_prop(19, 0.0, 0.0, dm.to_prop(gen.prop(rng)))
            ctx.log("auto", k, where, i)
            ctx.count("auto_ids")
            n_auto += 1
            if k in unmapped:
                ctx.count("auto_after_merge_without_remap")
            if before and max(before) < 100:
                ctx.count("auto_with_only_low_ids")
            ctx.check(i not in before, "id %d handed out for a %s is already in use" % (i, where), sorted(before))
            d = {"prop": lv.props, "entity": lv.entities, "bprop": dm.bd(lv).props}[where]
            ctx.check(i in d, "object added under its id")
        elif r < 0.56:
            i = pick_id(rng, lv)
            where = rng.choice(["prop", "entity", "bprop"][:2 if lv.backdrop is None else 3])
            d = {"prop": lv.props, "entity": lv.entities, "bprop": dm.bd(lv).props}[where]
            snap = snapshot(lv)
            taken = i in d
            if taken and rng.random() < 0.3:
                obj = d[i][-1]      # the very object that has this id
            elif d and rng.random() < 0.1:
                obj = d[rng.choice(sorted(d))][-1]
            else:
                obj = Entity() if where == "entity" else dm.to_prop(gen.prop(rng))
            ctx.log("explicit", k, where, i, taken)
            try:
                if where == "prop":
                    j = lv.add_prop(19, 1.0, 2.0, obj, i)
                elif where == "entity":
                    j = lv.add_entity(1.0, 2.0, obj, id_num=i)
                else:
                    j = lv.backdrop.add_prop(19, 1.0, 2.0, obj, i)
            except LevelException:
                ctx.check(taken, "adding a %s under the free id %d was refused" % (where, i))
                ctx.equal(snapshot(lv), snap, "level after a refused addition")
                ctx.count("refusals_observed")
            else:
                ctx.check(not taken, "adding a %s under the used id %d was accepted" % (where, i))
                ctx.equal(j, i, "id returned for an explicit id")
                ctx.check(d[i][-1] is obj, "object stored")
                ctx.count("explicit_ids")
        elif r < 0.64:
            d = rng.choice([lv.props, lv.entities, dm.bd(lv).props])
            if d:
                i = rng.choice(sorted(d)) if rng.random() < 0.5 else max(d)
                ctx.log("remove", k, i)
                del d[i]
        elif r < 0.70:
            a = rng.choice([None, 0, 1, 100, 5000, rng.randrange(300)])
            ctx.log("remap", k, a)
            if a is None:
                lv.remap_ids()
            else:
                lv.remap_ids(a)
            if present(lv):
                ctx.equal(min(present(lv)), 100 if a is None else a, "lowest id after remapping")
            ctx.count("remaps")
            unmapped.discard(k)
        elif r < 0.82 and len(levels) > 1:
            o = rng.choice([i for i in range(len(levels)) if i != k])
            if len(present(lv)) + len(present(levels[o])) > 600:
                continue
            remap = rng.random() < 0.4
            ctx.log("merge", k, o, remap)
            lv.merge(levels[o], remap_ids=remap)
            if not remap:
                unmapped.add(k)
            ctx.count("merges")
        elif r < 0.87:
            op = rng.choice(["flip_horizontal", "rotate", "translate", "upscale"])
            ctx.log(op, k)
            if op == "translate":
                lv.translate(48, -96)
            elif op == "upscale":
                if upscales < 5:
                    lv.upscale(2)
                upscales += 1
            else:
                getattr(lv, op)()
        elif r < 0.95:
            check_query(ctx, lv, rng.random() < 0.6)
            if rng.random() < 0.3 and lv.backdrop is not None:
                lv.backdrop.calculate_max_id()
        else:
            data = dm.write_level_bytes(lv)
            ctx.log("write", k)
            if rng.random() < 0.7:
                old = present(lv)
                if rng.random() < 0.4:
                    # a file whose counter was written by other software
                    top = max(old, default=100)
                    uid = rng.choice([0, 1, 100, top, top + 1, top - 1 if top else 0, rng.choice(sorted(old)) if old else 7, rng.randrange(top + 500)])
                    data = data[:UID] + uid.to_bytes(4, "little") + data[UID + 4:]
                    ctx.log("counter in the file", uid)
                    ctx.count("stale_counters", uid <= top)
                levels[k] = dm.read_level_bytes(data)
                ctx.equal(present(levels[k]), old, "ids after a reload")
                ctx.count("reloads")
                ctx.log("reload", k)
        lv = levels[k]
        if rng.random() < 0.1:
            check_query(ctx, lv, False)
    for k, lv in enumerate(levels):
        # a burst at the end
        before = present(lv)
        for _ in range(3):
            i = lv.add_entity(0, 0, Entity())
            ctx.check(i not in before, "id %d handed out is already in use" % i)
            before.add(i)
            ctx.count("auto_ids")
    ctx.seen(repr(ctx.trace))
    ctx.sample(ctx.trace[:12])


WORKLOADS = [Workload("history", history, 40000, 300000)]
