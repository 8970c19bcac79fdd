"""C29: work on separate objects does not interfere, however interleaved."""
import dataclasses
import hashlib
import io
import json
import os
import random
import subprocess
import sys
import threading

from dustmaker import DFReader, DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.transform import TxMatrix
from dustmaker.cmd.variables import json_to_variables, variables_to_json

from ..core import REPO, Workload
from .. import dm, gen, rep

PID = "C29"
RULE = ("two to five tasks, each on objects of its own (write, read, edit, transform, upscale, edge calculation, remap, merge, replays, variables, "
        "JSON conversion, bit streams), run in threads under a deterministic scheduler that may hand over control at every executed dustmaker line "
        "(switch points drawn from the seed, dense or sparse), also as the first use of the library in a new interpreter, and call by call in one thread; results compared with the same tasks run alone; "
        "non-trivial: at least one switch inside dustmaker code; distinct by task set and switch sequence")
REQUIRED = {"tasks": 3000, "switches": 2000, "tasks_switched_inside": 500, "stepwise_interleavings": 300, "same_source_reads": 200, "fresh_interpreters": 100}
ASSUMPTIONS = ["tasks share no object, stream or file; sources shared between tasks are immutable bytes"]
TOOL = 5


STUCK = 1.5     # seconds without a step


class Baton:
    """Only the holder runs; at dustmaker lines the holder may pass it on."""

    def __init__(self, rng, n, density):
        self.rng, self.n, self.density = rng, n, density
        self.cond = threading.Condition()
        self.holder = 0
        self.alive = set(range(n))
        self.switches = []
        self.ids = {}
        self.steps = self.stuck = 0

    def wait(self, k):
        """Until it is k's turn, or the others are stuck on something k holds (a lock of the library)."""
        idle, seen = 0, self.steps
        while self.holder != k:
            self.cond.wait(0.5)
            idle = idle + 0.5 if seen == self.steps else 0
            seen = self.steps
            if idle >= STUCK and self.holder != k:
                self.holder = k
                self.density = 0        # the rest runs without further switches
                self.stuck += 1

    def enter(self, k):
        self.ids[threading.get_ident()] = k
        with self.cond:
            self.wait(k)

    def leave(self, k):
        with self.cond:
            self.alive.discard(k)
            if self.alive:
                self.holder = self.rng.choice(sorted(self.alive))
            self.cond.notify_all()
        self.ids.pop(threading.get_ident(), None)

    def point(self, line):
        self.steps += 1
        k = self.ids.get(threading.get_ident())
        if k is None or len(self.alive) < 2 or self.rng.random() >= self.density:
            return
        to = self.rng.choice(sorted(self.alive - {k}))
        with self.cond:
            self.switches.append((k, to, line))
            self.holder = to
            self.cond.notify_all()
            self.wait(k)


ROOT = os.path.realpath(os.path.join(REPO, "dustmaker")) + os.sep


def together(ctx, rng, tasks, density):
    """Run the tasks in threads; list of results."""
    n = len(tasks)
    baton = Baton(rng, n, density)
    results = [None] * n
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "vf-sched")
    isrepo = {}

    def on_line(code, line):
        r = isrepo.get(code)
        if r is None:
            r = isrepo[code] = os.path.realpath(code.co_filename).startswith(ROOT)
        if not r:
            return mon.DISABLE
        baton.point(line)

    def run(k):
        baton.enter(k)
        try:
            try:
                results[k] = ("ok", tasks[k]())
            except Exception as e:
                results[k] = ("error", repr(e))
        finally:
            baton.leave(k)

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.restart_events()
    mon.set_events(TOOL, mon.events.LINE)
    try:
        ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
    ctx.count("switches", len(baton.switches))
    if baton.stuck:
        ctx.count("handovers_forced", baton.stuck)
    inside = {a for a, _, _ in baton.switches} | {b for _, b, _ in baton.switches}
    ctx.count("tasks_switched_inside", len(inside))
    return results, baton.switches


# ------------------------------------------------------------------ tasks
# each takes a seed and returns plain data; all objects are made inside
def small_level(rng):
    m = gen.level(rng, 0.4, far=0.0, spread=20)
    m["vars"] = [(k, v) for k, v in m["vars"] if k not in ("p1_x", "p1_y")] + [("p1_x", ("int", rng.randrange(-999, 999)))]
    return dm.to_level(m)


def t_write(seed):
    lv = small_level(random.Random(seed))
    return dm.write_level_bytes(lv)


def t_roundtrip(seed):
    lv = small_level(random.Random(seed))
    return dm.from_level(dm.read_level_bytes(dm.write_level_bytes(lv)))


def t_motion(seed):
    rng = random.Random(seed)
    lv = small_level(rng)
    for _ in range(rng.choice([1, 2, 3])):
        op = rng.choice(["h", "v", "r", "t", "u"])
        if op == "h":
            lv.flip_horizontal()
        elif op == "v":
            lv.flip_vertical()
        elif op == "r":
            lv.rotate(rng.choice([1, 2, 3, -1]))
        elif op == "t":
            lv.translate(48 * rng.randrange(-5, 5), 48 * rng.randrange(-5, 5))
        else:
            lv.upscale(2, mat=rng.choice([TxMatrix.IDENTITY, TxMatrix.HFLIP, TxMatrix.ROTATE[1]]))
    return dm.from_level(lv)


def t_edges(seed):
    rng = random.Random(seed)
    lv = Level()
    for _ in range(rng.choice([4, 12])):
        lv.tiles[(rng.choice([18, 19]), rng.randrange(3), rng.randrange(3))] = dm.to_tile(gen.tile(rng))

    def cb(x, y, side, tile, other):
        return (x * 7 + y * 3 + side + tile.sprite_palette) % 2 == 0

    if rng.random() < 0.5:
        lv.calculate_edge_visibility(visible_callback=cb)
    else:
        lv.calculate_edge_visibility()
    lv.calculate_edge_caps()
    return dm.from_level(lv)


def t_ids(seed):
    rng = random.Random(seed)
    a, b = small_level(rng), small_level(rng)
    got = [a.add_entity(1.0, 2.0, Entity()), b.add_prop(3, 1.0, 2.0, dm.to_prop(gen.prop(rng)))]
    a.remap_ids()
    b.remap_ids(500)
    a.merge(b)
    got.append(a.calculate_max_id())
    return got, dm.from_level(a), dm.from_level(b)


def t_vars(seed):
    rng = random.Random(seed)
    m = gen.struct(rng, 2)
    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_var_file(b"DF_STA", dm.to_map(m))
    with DFReader(io.BytesIO(buf.getvalue())) as r:
        return dm.from_map(r.read_var_file(b"DF_STA"))


def t_json(seed):
    rng = random.Random(seed)
    v = dm.to_var(("struct", [(k, x) for k, x in gen.struct(rng, 2)]))
    try:
        schema, doc = variables_to_json(v)
    except ValueError as e:
        return "refused"
    return schema, doc, dm.from_var(json_to_variables(schema, doc))


def t_replay(seed):
    rng = random.Random(seed)
    r = rep.to_replay(rep.model(rng, small=True), rng)
    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_replay(r)
    with DFReader(io.BytesIO(buf.getvalue())) as q:
        got = q.read_replay()
    return buf.getvalue(), got.players, got.entities, got.frames


def t_bits(seed):
    rng = random.Random(seed)
    buf = io.BytesIO()
    vals = []
    with DFWriter(buf, noclose=True) as w:
        for _ in range(30):
            n = rng.randrange(1, 40)
            v = rng.randrange(1 << n)
            w.write(n, v)
            vals.append((n, v))
            if rng.random() < 0.2:
                w.write_bytes(b"ab")
                vals.append((16, int.from_bytes(b"ab", "little")))
    out = []
    with DFReader(io.BytesIO(buf.getvalue())) as r:
        for n, v in vals:
            out.append(r.read(n) == v)
    return buf.getvalue(), out


TASKS = [t_write, t_roundtrip, t_motion, t_edges, t_ids, t_vars, t_json, t_replay, t_bits]


def threads(ctx):
    rng = ctx.rng
    n = rng.choice([2, 2, 3, 5])
    kinds = [rng.choice(TASKS) for _ in range(n)]
    if rng.random() < 0.4:
        kinds = [kinds[0]] * n      # the same work on different data
    seeds = [rng.randrange(10**9) for _ in range(n)]
    if rng.random() < 0.2:
        seeds = [seeds[0]] * n
    tasks = [lambda f=f, s=s: f(s) for f, s in zip(kinds, seeds)]
    alone = [("ok", t()) for t in tasks]
    ctx.log([f.__name__ for f in kinds], seeds)
    density = rng.choice([0.1, 0.02, 0.005])
    got, switches = together(ctx, random.Random(rng.random()), tasks, density)
    for f, s, a, g in zip(kinds, seeds, alone, got):
        ctx.count("tasks")
        ctx.equal(g, a, "result of %s interleaved with others" % f.__name__, switches[:40])
    again = [("ok", t()) for t in tasks]
    ctx.equal(again, alone, "tasks run again alone")
    if switches:
        ctx.seen((tuple(f.__name__ for f in kinds), tuple(switches[:500])))
    ctx.sample(([f.__name__ for f in kinds], len(switches), switches[:3]))


class _Counts(dict):
    def count(self, name, n=1):
        self[name] = self.get(name, 0) + n


def plain(x):
    """Nested data in one spelling: what compares equal in two interpreters looks equal."""
    if isinstance(x, dict):
        return sorted((repr(plain(k)), plain(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return sorted(repr(plain(v)) for v in x)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if dataclasses.is_dataclass(x):
        return plain(vars(x))
    if isinstance(x, float):
        return x + 0.0
    return x


def mark(result):
    return hashlib.sha1(repr(plain(result)).encode("utf8", "replace")).hexdigest()


def fresh_child(spec):
    """First thing this interpreter does with dustmaker: the tasks, interleaved."""
    names, seeds, sched, density = spec
    tasks = [lambda f=f, s=s: globals()[f](s) for f, s in zip(names, seeds)]
    c = _Counts()
    got, switches = together(c, random.Random(sched), tasks, density)
    again = [("ok", t()) for t in tasks]
    print(json.dumps([[mark(g) for g in got], [mark(a) for a in again], [r[1] if r[0] == "error" else None for r in got], switches[:60], dict(c)]))


def fresh(ctx):
    """Tasks interleaved in an interpreter that has not used the library before."""
    rng = ctx.rng
    n = rng.choice([2, 2, 3])
    kinds = [rng.choice(TASKS)] * n if rng.random() < 0.6 else [rng.choice(TASKS) for _ in range(n)]
    seeds = [rng.randrange(10**9) for _ in range(n)]
    want = [mark(("ok", f(s))) for f, s in zip(kinds, seeds)]
    spec = [[f.__name__ for f in kinds], seeds, rng.randrange(10**9), rng.choice([0.4, 0.1, 0.02])]
    ctx.log(spec)
    code = "import sys, json; sys.path[:0] = %r; from vf.checks import c29; c29.fresh_child(json.loads(sys.argv[1]))" % [p for p in sys.path if p]
    p = subprocess.run([sys.executable, "-B", "-c", code, json.dumps(spec)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=300)
    ctx.check(p.returncode == 0, "tasks interleaved in a new interpreter end", p.stderr[-800:])
    got, again, errors, switches, counts = json.loads(p.stdout)
    for i, f in enumerate(kinds):
        ctx.check(got[i] == want[i], "result of %s interleaved with others on first use" % f.__name__, errors[i], switches)
        ctx.check(again[i] == want[i], "result of %s after tasks were interleaved on first use" % f.__name__, switches)
        ctx.count("tasks")
    for k, v in counts.items():
        ctx.count(k, v)
    ctx.count("fresh_interpreters")
    if switches:
        ctx.seen((tuple(spec[0]), tuple(map(tuple, switches))))


def same_source(ctx):
    """Several readers of the same bytes."""
    rng = ctx.rng
    data = dm.write_level_bytes(small_level(rng))
    want = dm.from_level(dm.read_level_bytes(data))
    n = rng.choice([2, 3])
    got, switches = together(ctx, random.Random(rng.random()), [lambda: dm.from_level(dm.read_level_bytes(data))] * n, rng.choice([0.2, 0.02]))
    for g in got:
        ctx.equal(g, ("ok", want), "level read while others read the same bytes", switches[:40])
        ctx.count("same_source_reads")
    ctx.seen((data[:300], tuple(switches[:200])))


def stepwise(ctx):
    """Readers and writers of different streams used in turn, call by call."""
    rng = ctx.rng
    n = rng.choice([2, 3, 4])
    bufs = [io.BytesIO() for _ in range(n)]
    ws = [DFWriter(b, noclose=True) for b in bufs]
    logs = [[] for _ in range(n)]
    order = []
    for _ in range(rng.choice([10, 40])):
        k = rng.randrange(n)
        order.append(k)
        w, log = ws[k], logs[k]
        op = rng.choice(["int", "int", "bytes", "str", "float", "var", "align"])
        if op == "int":
            b = rng.randrange(1, 50)
            a = (b, rng.randrange(1 << b))
            w.write(*a)
        elif op == "bytes":
            a = gen.bstr(rng)
            w.write_bytes(a)
        elif op == "str":
            a = gen.name(rng)
            w.write_6bit_str(a)
        elif op == "float":
            a = gen.grid_float(rng)
            w.write_float(32, 32, a)
        elif op == "var":
            a = gen.var(rng, 1)
            w.write_variable(dm.to_var(a))
        else:
            a = None
            w.align()
        log.append((op, a))
    rng.shuffle(ws)
    for w in ws:
        w.close()
    rs = [DFReader(io.BytesIO(b.getvalue())) for b in bufs]
    left = [list(l) for l in logs]
    while any(left):
        k = rng.choice([i for i in range(n) if left[i]])
        op, a = left[k].pop(0)
        r = rs[k]
        if op == "int":
            ctx.equal(r.read(a[0]), a[1], "integer from stream %d" % k)
        elif op == "bytes":
            ctx.equal(r.read_bytes(len(a)), a, "bytes from stream %d" % k)
        elif op == "str":
            ctx.equal(r.read_6bit_str(), a, "name from stream %d" % k)
        elif op == "float":
            ctx.equal(r.read_float(32, 32), a, "number from stream %d" % k)
        elif op == "var":
            ctx.equal(dm.from_var(r.read_variable(dm.VT[a[0]])), a, "variable from stream %d" % k)
        else:
            r.align()
    for r in rs:
        r.close()
    ctx.count("stepwise_interleavings")
    ctx.seen((tuple(order), repr(logs)[:2000]))


WORKLOADS = [
    Workload("threads", threads, 1600, 40000),
    Workload("fresh", fresh, 240, 6000),
    Workload("same_source", same_source, 150, 3000),
    Workload("stepwise", stepwise, 800, 20000),
]
