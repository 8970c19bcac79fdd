"""C28: writing has no side effects and stream faults are reported."""
import copy
import io

from dustmaker import DFReader, DFWriter
from dustmaker.entity import Entity
from dustmaker import variable as V

from ..core import Workload
from .. import dm, gen, rep

PID = "C28"
RULE = ("random levels, variable maps and replays written to (and read from) streams whose k-th write, read, seek or flush call fails once, for k "
        "enumerated over the calls of the undisturbed run (all of them when few, a spread of them when many), by temporary or lasting faults; "
        "contents that cannot be stored put at a random place; non-trivial: a fault fired; distinct by content, call kind and fault position")
REQUIRED = {"write_faults": 600, "read_faults": 400, "refused_contents": 800, "rewrites_after_fault": 300,
            "rereads_after_fault": 250, "close_faults": 50}
ASSUMPTIONS = ["a fault is an OSError raised by the underlying stream; the stream's content after a fault is not judged"]
LEVEL = "fault_enumeration"


class Boom(OSError):
    pass


class Faulty(io.BytesIO):
    """Fails on the k-th call of one kind; once, or from then on."""

    def __init__(self, data=b"", kind=None, at=0, lasting=False):
        super().__init__(data)
        self.calls = {"write": 0, "read": 0, "seek": 0, "flush": 0}
        self.kind, self.at, self.lasting, self.fired, self.armed = kind, at, lasting, 0, True

    def _tick(self, kind):
        self.calls[kind] += 1
        if self.armed and kind == self.kind and (self.calls[kind] == self.at or (self.lasting and self.calls[kind] > self.at)):
            self.fired += 1
            raise Boom("injected %s fault" % kind)

    def write(self, d):
        self._tick("write")
        return super().write(d)

    def read(self, *a):
        self._tick("read")
        return super().read(*a)

    def seek(self, *a):
        self._tick("seek")
        return super().seek(*a)

    def flush(self):
        self._tick("flush")
        return super().flush()


def var_snapshot(m):
    return {k: dm.from_var(v) for k, v in m.items()}


def rep_snapshot(r):
    return copy.deepcopy((r.version, r.username, r.level, r.frames, r.players, r.entities))


def subject(rng):
    """(kind, object, writer function, reader function, snapshot function)"""
    kind = rng.choice(["level", "level", "vars", "replay"])
    if kind == "level":
        m = gen.level(rng, rng.choice([0.3, 1.0]))
        lv = dm.to_level(m)
        return kind, lv, lambda w, o=lv: w.write_level(o), lambda r: r.read_level(), dm.from_level
    if kind == "vars":
        v = dm.to_map(gen.struct(rng, 2))
        return kind, v, lambda w, o=v: w.write_var_file(b"DF_STA", o), lambda r: r.read_var_file(b"DF_STA"), var_snapshot
    r = rep.to_replay(rep.model(rng, small=True), rng)
    return kind, r, lambda w, o=r: w.write_replay(o), lambda q: q.read_replay(), rep_snapshot


def positions(rng, n):
    if n <= 12:
        return list(range(1, n + 1))
    return sorted({1, 2, n - 1, n, *(rng.randrange(1, n + 1) for _ in range(8))})


def write_to(stream, write, noclose=True):
    with DFWriter(stream, noclose=noclose) as w:
        write(w)


def writing(ctx):
    rng = ctx.rng
    kind, obj, write, read, snap = subject(rng)
    before = snap(obj)
    clean = Faulty()
    write_to(clean, write)
    want = clean.getvalue()
    ctx.equal(snap(obj), before, "%s after being written" % kind)
    for op in ("write", "seek", "flush"):
        for at in positions(rng, clean.calls[op]):
            lasting = rng.random() < 0.3
            s = Faulty(kind=op, at=at, lasting=lasting)
            ctx.log(kind, op, at, lasting)
            try:
                write_to(s, write)
            except Boom:
                pass
            except Exception:
                ctx.check(s.fired, "%s: writing failed without a fault" % kind)
            else:
                ctx.check(not s.fired, "%s: fault of the %s call %d of %d was not reported" % (kind, op, at, clean.calls[op]))
            if s.fired:
                ctx.count(op + "_faults")
            ctx.equal(snap(obj), before, "%s after a failed write" % kind)
            if rng.random() < 0.5:
                again = Faulty()
                write_to(again, write)
                ctx.equal(again.getvalue(), want, "%s written again after a fault" % kind)
                ctx.count("rewrites_after_fault")
            ctx.seen((kind, op, at, lasting, len(want), want[:200]))
    # the last bits may only leave on closing an owned stream
    s = Faulty(kind="write", at=clean.calls["write"], lasting=False)
    w = DFWriter(s)
    try:
        write(w)
        w.close()
    except Boom:
        pass
    else:
        ctx.check(not s.fired, "%s: fault of the last write was not reported" % kind)
    ctx.count("close_faults")
    ctx.sample((kind, len(want), dict(clean.calls)))


def reading(ctx):
    rng = ctx.rng
    kind, obj, write, read, snap = subject(rng)
    buf = io.BytesIO()
    write_to(buf, write)
    data = buf.getvalue()
    clean = Faulty(data)
    with DFReader(clean, noclose=True) as r:
        want = snap(read(r))
    for op in ("read", "seek"):
        for at in positions(rng, clean.calls[op]):
            s = Faulty(data, op, at, rng.random() < 0.3)
            ctx.log(kind, op, at, s.lasting)
            try:
                with DFReader(s, noclose=True) as r:
                    got = read(r)
            except Boom:
                pass
            except Exception:
                ctx.check(s.fired, "%s: reading failed without a fault" % kind)
            else:
                ctx.check(not s.fired, "%s: fault of the %s call %d of %d was not reported" % (kind, op, at, clean.calls[op]), snap(got))
            if s.fired:
                ctx.count(op + "_faults")
            # the same stream, working again
            if rng.random() < 0.5:
                s.armed = False
                s.seek(0)
                with DFReader(s, noclose=True) as r:
                    ctx.equal(snap(read(r)), want, "%s read again after a fault" % kind)
                ctx.count("rereads_after_fault")
            ctx.seen((kind, op, at, len(data), data[:200]))


BAD = [
    lambda: ("k" * 64, V.VariableInt(1)), lambda: ("sp ace", V.VariableInt(1)), lambda: ("\u00e9", V.VariableBool(True)),
    lambda: ("x", V.VariableStruct({"a-b": V.VariableInt(1)})),
    lambda: ("x", V.VariableArray(V.VariableBool, [V.VariableBool(True)] * 65536)),
]


def refused(ctx):
    """Content that cannot be stored: an error, nothing changed, and fine once it is gone."""
    rng = ctx.rng
    kind, obj, write, read, snap = subject(rng)
    if kind == "replay":
        buf = io.BytesIO()
        write_to(buf, write)
        before = snap(obj)
        old = obj.version
        obj.version = rng.choice([0, 5, 255])
        ctx.raises(Exception, lambda: write_to(io.BytesIO(), write), "replay version %d" % obj.version)
        obj.version = old
    else:
        buf = io.BytesIO()
        write_to(buf, write)
        before = snap(obj)
        key, bad = rng.choice(BAD)()
        if kind == "level":
            places = [obj.variables] + [e.variables for _, _, e in obj.entities.values()]
        else:
            places = [obj]
        d = rng.choice(places)
        if key in d:
            return
        # at a random place among the members
        items = list(d.items())
        items.insert(rng.randrange(len(items) + 1), (key, bad))
        d.clear()
        d.update(items)
        spoilt = snap(obj)
        ctx.raises(Exception, lambda: write_to(io.BytesIO(), write), "%s holding what the format cannot store" % kind, key)
        ctx.equal(snap(obj), spoilt, "%s after a refused write" % kind)
        del d[key]
    ctx.equal(snap(obj), before, "%s after a refused write" % kind)
    again = io.BytesIO()
    write_to(again, write)
    ctx.equal(again.getvalue(), buf.getvalue(), "%s written after the offending part was removed" % kind)
    ctx.count("refused_contents")
    ctx.seen((kind, buf.getvalue()[:300]))


WORKLOADS = [
    Workload("writing", writing, 1200, 12000),
    Workload("reading", reading, 1200, 12000),
    Workload("refused", refused, 2400, 20000),
]
