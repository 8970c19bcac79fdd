"""C02: closing a bit stream loses nothing and respects ownership."""
import gc
import io
import os

from dustmaker.bitio import BitIOReader, BitIOWriter
from dustmaker import DFReader, DFWriter

from ..core import Workload
from .. import streams
from .c01 import WModel, WIDTHS, value

PID = "C02"
RULE = ("random histories of write/flush/release/close/context exit/exception over stream kinds (BytesIO, buffered files, raw "
        "files, raw and duck-typed objects, write-only sinks, streams with an injected write failure); the monitor compares the "
        "stream's bytes after every flush and close and watches its closed state, also after the wrapper is collected; "
        "non-trivial: some bits were pending at a flush, close or exception; distinct by history")
REQUIRED = {"closes_observed": 5000, "pending_at_close": 2000, "owned_closed": 1500, "kept_open": 1500, "faults_injected": 300,
            "flushes_observed": 2000}


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def boom(rng):
    """What leaves the context: any kind of exception."""
    return rng.choice([Boom, Boom, BoomBase, ValueError, EOFError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, OSError])("leaving")


class Duck:
    """Not an io object at all: just write/seek/tell/close and friends."""

    def __init__(self, initial=b"", pos=0):
        self.b = io.BytesIO(initial)
        self.b.seek(pos)
        self.closed = False

    def write(self, d):
        if self.closed:
            raise ValueError("closed")
        return self.b.write(bytes(d))

    def seek(self, p, w=0):
        return self.b.seek(p, w)

    def tell(self):
        return self.b.tell()

    def flush(self):
        pass

    def seekable(self):
        return True

    def writable(self):
        return True

    def readable(self):
        return False

    def close(self):
        self.closed = True


KINDS = ["bytesio", "bytesio", "file", "bufwriter", "rawfile", "rawobj", "duck", "sink"]


def writer_lifecycle(ctx):
    rng = ctx.rng
    kind = rng.choice(KINDS)
    noclose = rng.random() < 0.5
    cls = rng.choice([BitIOWriter, DFWriter])
    initial = rng.randbytes(rng.choice([0, 0, 6]))
    offset = rng.choice([0, len(initial)])
    with streams.Scratch() as tmp:
        path = os.path.join(tmp, "f")
        if kind == "bytesio":
            class Tap(io.BytesIO):
                last = None

                def close(self):
                    if not self.closed:
                        Tap.last = self.getvalue()
                    super().close()
            st = Tap(initial)
            st.seek(offset)
            get = lambda: Tap.last if st.closed else st.getvalue()
        elif kind == "sink":
            initial, offset = b"", 0
            st = streams.WriteOnly()
            get = lambda: bytes(st.buf)
        elif kind == "rawobj":
            st = streams.RawSink(initial, offset)
            get = lambda: st.b.getvalue()
        elif kind == "duck":
            st = Duck(initial, offset)
            get = lambda: st.b.getvalue()
        else:
            streams.putbytes(path, initial)
            if kind == "file":
                st = open(path, "r+b")
            elif kind == "bufwriter":
                st = io.BufferedWriter(io.FileIO(path, "r+"))
            else:
                st = io.FileIO(path, "r+")
            st.seek(offset)

            def get():
                if not st.closed:
                    st.flush()
                return streams.getbytes(path)
        buffered = isinstance(st, io.BufferedIOBase)
        m = WModel(initial, offset)
        w = cls(st, noclose=noclose)
        released = noclose
        ops, raised = [], False
        how = rng.choice(["close", "with", "with_exc", "close_twice"])
        steps = rng.randrange(0, 25)
        release_at = rng.randrange(steps + 1) if rng.random() < 0.3 else -1

        def body():
            nonlocal released
            for k in range(steps):
                if k == release_at:
                    ops.append(("release",))
                    w.release()
                    released = True
                x = rng.random()
                if x < 0.75:
                    bits = rng.choice(WIDTHS)
                    v = value(rng, bits)
                    ops.append(("write", bits, v))
                    w.write(bits, v)
                    m.write(bits, v)
                elif x < 0.85:
                    b = rng.randbytes(rng.randrange(4))
                    ops.append(("bytes", b))
                    w.write_bytes(b)
                    for c in b:
                        m.write(8, c)
                else:
                    ops.append(("flush",))
                    n = rng.choice([1, 1, 2, 3])
                    for _ in range(n):
                        w.flush()
                        m.flush()
                        ctx.count("flushes_observed")
                        ctx.equal(w.bit_tell(), m.pos, "position after flush", ops)
                        ctx.check(w.aligned(), "aligned after flush", ops)
                        if buffered:
                            ctx.equal(get(), bytes(m.img), "bytes after flush (%s)" % kind, ops)
            if steps == release_at:
                ops.append(("release",))
                w.release()
                released = True

        pend = False
        if how in ("with", "with_exc"):
            try:
                with w as entered:
                    ctx.check(entered is w, "entering the context yields the stream")
                    body()
                    pend = m.open is not None
                    ops.append((how,))
                    if how == "with_exc":
                        exc = boom(rng)
                        raise exc
            except BaseException as e:
                if how != "with_exc" or e is not exc:
                    raise
                raised = True
            ctx.check(raised == (how == "with_exc"), "an exception leaves the context unchanged (never swallowed)", ops)
        else:
            body()
            pend = m.open is not None
            ops.append((how,))
            w.close()
            if how == "close_twice":
                w.close()
        m.flush()
        ctx.count("closes_observed")
        if pend:
            ctx.count("pending_at_close")
            ctx.seen((kind, noclose, initial, offset, ops))
        if released:
            ctx.check(not st.closed, "stream must stay open: the wrapper does not own it (%s)" % kind, ops)
            ctx.count("kept_open")
            ctx.equal(get(), bytes(m.img), "bytes after close (%s, not owned)" % kind, ops)
            del w
            if "entered" in locals():
                del entered
            gc.collect() if ctx.index % 16 == 0 else None
            ctx.check(not st.closed, "stream must stay open after the wrapper is gone (%s)" % kind, ops)
            ctx.equal(get(), bytes(m.img), "bytes after the wrapper is gone (%s)" % kind, ops)
            # the caller can go on using its stream
            at = st.tell() if kind != "sink" else m.pos >> 3
            ctx.equal(at, m.pos >> 3, "the caller's stream is left right after the written bits (%s)" % kind, ops)
            st.write(b"!tail")
            img = bytes(m.img[:at]) + b"!tail" + bytes(m.img[at + 5:])
            ctx.equal(get(), img, "stream still usable by the caller", ops)
            st.close()
        else:
            ctx.check(st.closed, "stream must be closed: the wrapper owns it (%s)" % kind, ops)
            ctx.count("owned_closed")
            ctx.equal(get(), bytes(m.img), "bytes after close (%s)" % kind, ops)
        ctx.sample((kind, noclose, ops[-6:]))


def reader_lifecycle(ctx):
    rng = ctx.rng
    data = rng.randbytes(12)
    noclose = rng.random() < 0.5
    cls = rng.choice([BitIOReader, DFReader])
    kind = rng.choice(["bytesio", "file", "raw"])
    if kind == "bytesio":
        return _reader(ctx, io.BytesIO(data), data, noclose, cls)
    with streams.Scratch() as tmp:
        path = os.path.join(tmp, "f")
        streams.putbytes(path, data)
        st = open(path, "rb", buffering=0 if kind == "raw" else -1)
        try:
            _reader(ctx, st, data, noclose, cls)
        finally:
            st.close()


def _reader(ctx, st, data, noclose, cls):
    rng = ctx.rng
    r = cls(st, noclose=noclose)
    r.read(rng.randrange(0, 30))
    rel = rng.random() < 0.3
    if rel:
        r.release()
    if rng.random() < 0.5:
        r.close()
        if rng.random() < 0.5:
            r.close()
    else:
        exc = None
        try:
            with r as entered:
                ctx.check(entered is r, "entering the context yields the stream")
                if rng.random() < 0.5:
                    exc = boom(rng)
                    raise exc
        except BaseException as e:
            if e is not exc:
                raise
    ctx.count("closes_observed")
    ctx.equal(st.closed, not (noclose or rel), "closed state after closing a reader (noclose=%s, released=%s)" % (noclose, rel))
    del r
    ctx.equal(st.closed, not (noclose or rel), "closed state after the reader is gone")
    if not st.closed:
        st.seek(0)
        ctx.equal(st.read(), data, "reader must not change the stream")
    ctx.seen((noclose, rel, data))


def write_faults(ctx):
    """The k-th write of the underlying stream fails."""
    rng = ctx.rng
    noclose = rng.random() < 0.5
    st = streams.FaultyBuffered(rng.choice([1, 1, 2, 3, 4]))
    w = BitIOWriter(st, noclose=noclose)
    ops, failed = [], False
    try:
        for _ in range(rng.randrange(0, 4)):
            bits = rng.choice(WIDTHS)
            ops.append(bits)
            w.write(bits, value(rng, bits))
        w.write(rng.randrange(1, 8), 1)
    except OSError:
        failed = True
    closing = False
    try:
        if rng.random() < 0.5:
            w.close()
        else:
            with w:
                pass
    except OSError:
        closing = failed = True
    if failed:
        ctx.count("faults_injected")
        ctx.seen((noclose, st.fail_at, ops, closing))
    ctx.check(st.closed != noclose, "ownership respected even if the final flush fails (noclose=%s, closed=%s)" % (noclose, st.closed), ops, closing)
    ctx.check(not closing or failed, "a failed final write is reported")


class Switch(io.BytesIO):
    fail = False

    def write(self, b):
        if self.fail and len(b):
            raise OSError("injected")
        return super().write(b)


def retries(ctx):
    """A flush that failed because the stream refused the byte can be repeated once the stream works; nothing is lost or doubled."""
    rng = ctx.rng
    st = Switch()
    w = rng.choice([BitIOWriter, DFWriter])(st, noclose=True)
    m = WModel(b"", 0)
    ops = []
    for _ in range(rng.randrange(1, 6)):
        for _ in range(rng.randrange(1, 5)):
            bits = rng.choice(WIDTHS)
            v = value(rng, bits)
            ops.append((bits, v))
            w.write(bits, v)
            m.write(bits, v)
        if m.open is None:
            continue
        for _ in range(rng.choice([1, 1, 2])):
            st.fail = True
            how = rng.choice(["flush", "align", "close", "with"])
            ops.append(how)
            try:
                if how == "with":
                    with w:
                        pass
                else:
                    getattr(w, how)()
                ctx.check(False, "a failing %s reports the failure" % how, ops)
            except OSError:
                ctx.count("faults_injected")
            st.fail = False
            ctx.check(not st.closed, "the stream stays open", ops)
        how = rng.choice(["flush", "align", "write", "close"])
        ops.append(how)
        if how == "write":
            w.write(5, 9)
            m.write(5, 9)
        else:
            getattr(w, how)()
            m.flush()
            ctx.equal(st.getvalue(), bytes(m.img), "bytes after the repeated %s" % how, ops)
            ctx.check(w.aligned(), "aligned after the repeated %s" % how, ops)
        ctx.equal(w.bit_tell(), m.pos, "position after the repeated %s" % how, ops)
        ctx.seen(tuple(map(repr, ops)))
    w.close()
    m.flush()
    ctx.equal(st.getvalue(), bytes(m.img), "bytes in the end", ops)


def nested_users(ctx):
    """The documented ways of using a writer on a real file lose nothing."""
    rng = ctx.rng
    bits = [rng.choice(WIDTHS) for _ in range(rng.randrange(1, 12))]
    vals = [value(rng, b) for b in bits]
    m = WModel(b"", 0)
    with streams.Scratch() as tmp:
        path = os.path.join(tmp, "f")
        mode = rng.choice(["owned", "noclose", "two"])
        if mode == "owned":
            with DFWriter(open(path, "wb")) as w:
                for b, v in zip(bits, vals):
                    w.write(b, v)
                    m.write(b, v)
        else:
            with open(path, "wb", buffering=rng.choice([0, -1])) as f:
                for part in ([0, 1] if mode == "two" else [0]):
                    with DFWriter(f, noclose=True) as w:
                        for b, v in zip(bits, vals):
                            w.write(b, v)
                            m.write(b, v)
                    m.flush()
                    ctx.check(not f.closed, "file must stay open")
        ctx.count("closes_observed")
        if m.pos & 7:
            ctx.count("pending_at_close")
        ctx.equal(streams.getbytes(path), bytes(m.img), "file content (%s)" % mode, bits)
        ctx.seen((mode, bits, vals))


WORKLOADS = [
    Workload("writer_lifecycle", writer_lifecycle, 12000, 150000),
    Workload("reader_lifecycle", reader_lifecycle, 1500, 10000),
    Workload("write_faults", write_faults, 3000, 30000),
    Workload("retries", retries, 3000, 30000),
    Workload("nested_users", nested_users, 3000, 30000),
]
