"""C01: bit streams are exact for every operation history."""
import io
import os

from dustmaker.bitio import BitIOReader, BitIOWriter
from dustmaker import DFReader, DFWriter

from ..core import Workload
from ..refbits import BitsIn
from .. import gen, streams

PID = "C01"
RULE = ("random histories of up to 60 writer (or reader) operations over all widths, phases, offsets, values and stream "
        "kinds, plus an enumeration of phase x width x signedness x way of arriving; non-trivial: at least one operation at "
        "an unaligned position, distinct by full operation history")
REQUIRED = {"write_ops": 20000, "read_ops": 20000, "unaligned_ops": 20000, "seek_ops": 2000, "images_compared": 1000, "reads_after_end": 500, "reads_past_end": 3000, "unfit_values": 3000}
ASSUMPTIONS = ["unaligned writer seeks zero the earlier bits of that byte and "
               "a partly written last byte is padded with zeros (both documented)"]

WIDTHS = [1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 15, 16, 16, 17, 24, 27, 31, 32, 32, 33, 40, 63, 64, 65, 127, 128, 200, 1031]


def width(rng):
    return rng.choice(WIDTHS) if rng.random() < 0.9 else gen.loglen(rng, rng.choice([8, 12])) + 1


class WModel:
    """Reference writer: the byte image the operations describe."""

    def __init__(self, initial, offset):
        self.img = bytearray(initial)
        self.pos = 8 * offset
        self.open = None      # index of the partially written byte

    def _zero(self, i):
        if i >= len(self.img):
            self.img.extend(bytes(i + 1 - len(self.img)))
        self.img[i] = 0

    def write(self, bits, val):
        val &= (1 << bits) - 1
        for k in range(bits):
            i = self.pos >> 3
            if self.open != i:
                self._zero(i)
                self.open = i
            self.img[i] |= (val >> k & 1) << (self.pos & 7)
            self.pos += 1
            if self.pos & 7 == 0:
                self.open = None

    def flush(self):
        if self.open is not None:
            self.pos = (self.pos + 7) & ~7
            self.open = None

    def align(self):
        self.pos = (self.pos + 7) & ~7
        self.open = None

    def seek(self, pos):
        self.open = None
        self.pos = pos


def value(rng, bits):
    if bits == 0:
        return 0
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, (1 << bits) - 1, 1 << (bits - 1), 1])
    if r < 0.45:
        return -rng.choice([1, 1 << (bits - 1), rng.randrange(1, (1 << (bits - 1)) + 1)])
    return rng.getrandbits(bits)


def unfit(rng, bits):
    """A number that no reading of so many bits can give."""
    top = 1 << bits
    return rng.choice([top, top + 1, 2 * top - 1, 2 * top, top << 8, top * 3 + 5, top << rng.randrange(1, 70), top | rng.getrandbits(bits), -top - 1, -2 * top, -top << 8])


def writer_history(ctx):
    rng = ctx.rng
    initial = rng.randbytes(rng.choice([0, 0, 5, 40, 120]))
    offset = rng.choice([0, 0, len(initial), rng.randrange(0, len(initial) + 1)])
    kind = rng.choice(["bytesio", "bytesio", "file", "bufwriter", "raw", "sink", "far", "noseek"])
    base = rng.choice([1, 4095, 1 << 29, (1 << 32) - 3, 1 << 45]) if kind == "far" else 0
    cls = rng.choice([BitIOWriter, DFWriter])
    with streams.Scratch() as tmp:
        path = os.path.join(tmp, "f")
        if kind == "bytesio":
            st = io.BytesIO(initial)
            st.seek(offset)
        elif kind == "sink":
            initial, offset = b"", 0
            st = streams.WriteOnly()
        elif kind == "far":
            st = streams.Far(initial, base)
            st.seek(base + offset)
        elif kind == "noseek":
            st = streams.NoSeek(initial)
            st.read(offset)
        elif kind == "raw":
            st = streams.RawSink(initial, offset)
        else:
            streams.putbytes(path, initial)
            st = open(path, "r+b")
            if kind == "bufwriter":
                st.close()
                st = io.BufferedWriter(io.FileIO(path, "r+"))
            st.seek(offset)
        m = WModel(initial, offset)
        base *= 8
        w = cls(st, noclose=kind in ("bytesio", "sink", "far", "noseek"))
        ctx.equal(w.bit_tell(), base + m.pos, "bit_tell of a new writer (%s)" % kind)
        ops = []
        for _ in range(rng.randrange(1, 60)):
            r = rng.random()
            before = m.pos
            if r < 0.6:
                bits = width(rng)
                if rng.random() < 0.02 and m.pos & 7 == 0:
                    bits = 0
                v = value(rng, bits)
                if bits and rng.random() < 0.06:
                    bad = unfit(rng, bits)
                    ops.append(("write!", bits, bad))
                    ctx.raises((ValueError, OverflowError), lambda: w.write(bits, bad), "%d does not fit %d bits and must be refused" % (bad, bits), ops)
                    ctx.equal(w.bit_tell(), base + m.pos, "bit_tell after %r" % (ops[-1:],), ops)
                    ctx.count("unfit_values")
                ops.append(("write", bits, v))
                w.write(bits, v)
                m.write(bits, v)
                ctx.count("write_ops")
            elif r < 0.72:
                b = rng.randbytes(rng.choice([0, 1, 2, 5, 17, 300] if rng.random() < 0.99 else [1023, 4096, 8192, 9000]))
                if not b and m.pos & 7 and m.open is None:
                    b = b"\0"  # an empty write right after an unaligned seek is not specified
                ops.append(("write_bytes", b))
                w.write_bytes(rng.choice([bytes, bytes, bytearray])(b))
                for c in b:
                    m.write(8, c)
                ctx.count("write_ops")
            elif r < 0.8:
                ops.append(("align",))
                w.align()
                m.align()
            elif r < 0.84:
                ops.append(("flush",))
                if m.open is not None or m.pos & 7 == 0:
                    w.flush()
                    m.flush()
            elif kind not in ("sink", "noseek"):
                ctx.count("seek_ops")
                top = 8 * len(m.img) + 24
                pos = rng.randrange(0, top)
                if r < 0.92:
                    pos &= ~7
                if r > 0.97:
                    d = rng.choice([8, 16, -8, rng.randrange(-40, 60)])
                    if m.pos + d < 0:
                        d = -m.pos
                    ops.append(("skip", d))
                    if (m.pos + d) & 7:
                        ctx.raises(RuntimeError, lambda: w.skip(d), "unaligned skip by a writer must be refused", ops)
                    else:
                        w.skip(d)
                        m.seek(m.pos + d)
                elif pos & 7 and rng.random() < 0.4:
                    ops.append(("seek!", pos))
                    ctx.raises(RuntimeError, lambda: w.bit_seek(base + pos), "unaligned seek without allow_unaligned must be refused", ops)
                else:
                    ops.append(("seek", pos))
                    if pos & 7:
                        w.bit_seek(base + pos, allow_unaligned=True)
                    else:
                        w.bit_seek(base + pos)
                    m.seek(pos)
            ctx.log(*ops[-1]) if ops else None
            if before & 7:
                ctx.count("unaligned_ops")
            ctx.equal(w.bit_tell(), base + m.pos, "bit_tell after %r" % (ops[-1:],), ops)
            ctx.equal(w.aligned(), m.pos & 7 == 0, "aligned after %r" % (ops[-1:],), ops)
        w.close()
        if kind in ("bytesio", "far", "noseek"):
            got = st.getvalue()
        elif kind == "sink":
            got = bytes(st.buf)
        elif kind == "raw":
            got = st.b.getvalue()
        else:
            if not st.closed:
                st.close()
            got = streams.getbytes(path)
        ctx.count("images_compared")
        ctx.equal(got, bytes(m.img), "byte image after closing (%s, offset %d)" % (kind, offset), ops)
        ctx.sample((kind, offset, ops[:8]))
        if any(o[0] in ("write", "write_bytes") for o in ops):
            ctx.seen(repr((kind, offset, initial, ops)))


def reader_history(ctx):
    rng = ctx.rng
    data = rng.randbytes(rng.choice([1, 2, 9, 40, 200] if rng.random() < 0.98 else [5000, 20000]))
    if rng.random() < 0.1:
        data = bytes([rng.choice([0, 255, 128, 1])]) * len(data)
    offset = rng.choice([0, 0, rng.randrange(0, len(data) + 1)])
    kind = rng.choice(["bytesio", "bytesio", "file", "source", "rawfile", "far", "noseek"])
    base = 8 * rng.choice([1, 4095, 1 << 29, (1 << 32) - 3, 1 << 45]) if kind == "far" else 0
    cls = rng.choice([BitIOReader, DFReader])
    with streams.Scratch() as tmp:
        path = os.path.join(tmp, "f")
        if kind == "bytesio":
            st = io.BytesIO(data)
            st.seek(offset)
        elif kind == "source":
            offset = 0
            st = streams.ReadOnly(data)
        elif kind == "far":
            st = streams.Far(data, base >> 3)
            st.seek((base >> 3) + offset)
        elif kind == "noseek":
            st = streams.NoSeek(data)
            st.read(offset)
        else:
            streams.putbytes(path, data)
            st = open(path, "rb", buffering=0 if kind == "rawfile" else -1)
            st.seek(offset)
        r = cls(st)
        pos, end = 8 * offset, 8 * len(data)
        ctx.equal(r.bit_tell(), base + pos, "bit_tell of a new reader (%s)" % kind)
        ops = []
        ref = BitsIn(data)
        for _ in range(rng.randrange(1, 60)):
            x = rng.random()
            before = pos
            if x < 0.62:
                bits = min(width(rng), end - pos)
                signed = rng.random() < 0.5
                ops.append(("read", bits, signed))
                got = r.read(bits, signed)
                ref.pos = pos
                want = ref.s(bits) if signed else ref.u(bits)
                pos += bits
                ctx.count("read_ops")
                ctx.equal(got, want, "read(%d, %s) at bit %d" % (bits, signed, pos - bits), ops)
            elif x < 0.76:
                n = min(rng.choice([0, 1, 2, 3, 12, 30] if rng.random() < 0.95 else [256, 1024, 4096, 8191]), (end - pos) // 8)
                ops.append(("read_bytes", n))
                got = r.read_bytes(n)
                ref.pos = pos
                want = ref.raw(n)
                pos += 8 * n
                ctx.count("read_ops")
                ctx.equal(bytes(got), want, "read_bytes(%d) at bit %d" % (n, pos - 8 * n), ops)
            elif x < 0.84:
                ops.append(("align",))
                r.align()
                pos = (pos + 7) & ~7
            elif kind not in ("source", "noseek"):
                ctx.count("seek_ops")
                new = rng.randrange(0, end + 1)
                if rng.random() < 0.5:
                    ops.append(("seek", new))
                    r.bit_seek(base + new)
                else:
                    ops.append(("skip", new - pos))
                    r.skip(new - pos)
                pos = new
            if before & 7:
                ctx.count("unaligned_ops")
            ctx.equal(r.bit_tell(), base + pos, "bit_tell after %r" % (ops[-1:],), ops)
            ctx.equal(r.aligned(), pos & 7 == 0, "aligned after %r" % (ops[-1:],), ops)
        if rng.random() < 0.3:
            # asking for more bytes than there are: refused, or what is left
            r.align()
            pos = (pos + 7) & ~7
            n = (end - pos) // 8 + rng.choice([1, 2, 100])
            try:
                got = bytes(r.read_bytes(n))
            except EOFError:
                pass
            else:
                ctx.equal(got, data[pos // 8:], "read_bytes(%d) at bit %d with %d bytes left" % (n, pos, (end - pos) // 8), ops)
                ctx.equal(r.bit_tell(), base + end, "bit_tell after reading all the bytes left", ops)
            ctx.count("reads_past_end")
            if kind not in ("source", "noseek"):
                back(ctx, r, base, data, ops)
        elif rng.random() < 0.4:
            n = end - max(pos, 0) + rng.choice([1, 2, 7, 8, 9, 64, 1000])
            ctx.raises(EOFError, lambda: r.read(n, rng.random() < 0.5), "read(%d) with %d bits left" % (n, end - pos), ops)
            ctx.count("reads_past_end")
            if kind not in ("source", "noseek"):
                back(ctx, r, base, data, ops)
        r.close()
        ctx.sample((kind, offset, data[:16], ops[:8]))
        ctx.seen(repr((kind, offset, data, ops)))


def back(ctx, r, base, data, ops):
    """A reader that hit the end can be put back anywhere."""
    rng = ctx.rng
    end = 8 * len(data)
    for _ in range(rng.choice([0, 1, 3])):
        pos = rng.randrange(end + 1)
        here = r.bit_tell() - base
        if rng.random() < 0.3 and 0 <= here <= end:
            pos = (here + 7) & ~7 if rng.random() < 0.5 else here
        n = rng.randrange(min(end - pos, 70) + 1)
        signed = rng.random() < 0.5
        r.bit_seek(base + pos)
        ref = BitsIn(data)
        ref.pos = pos
        ctx.equal(r.read(n, signed), ref.s(n) if signed else ref.u(n), "read(%d) at bit %d after having hit the end" % (n, pos), ops)
        ctx.equal(r.bit_tell(), base + pos + n, "bit_tell after having hit the end", ops)
        ctx.count("reads_after_end")


def enumerate_reads(ctx):
    """phase x width x signed x arrival (sequential / seek / seek+align)."""
    i = ctx.index
    phase, i = i % 8, i // 8
    width = i % 70
    rng = ctx.rng
    for data in (bytes(20), b"\xff" * 20, rng.randbytes(20), b"\x80\x7f" * 10):
        ref = BitsIn(data)
        for signed in (False, True):
            for arrive in ("seq", "seek", "far", "bytes"):
                for cls in (BitIOReader,):
                    r = cls(io.BytesIO(data))
                    if arrive == "seq":
                        for k in range(phase):
                            r.read(1)
                        base = phase
                    elif arrive == "seek":
                        r.bit_seek(phase)
                        base = phase
                    elif arrive == "bytes":
                        r.bit_seek(phase)
                        ref.pos = phase
                        ctx.equal(bytes(r.read_bytes(2)), ref.raw(2), "read_bytes at phase %d" % phase)
                        base = phase + 16
                    else:
                        r.bit_seek(40 + phase)
                        r.align()
                        base = (40 + phase + 7) & ~7
                    ref.pos = base
                    want = ref.s(width) if signed else ref.u(width)
                    ctx.count("read_ops")
                    ctx.equal(r.read(width, signed), want, "read(%d, signed=%s) at bit %d (%s)" % (width, signed, base, arrive), data)
                    ref.pos = base + width
                    ctx.equal(r.read(11), ref.u(11), "following read(11) at %d" % (base + width), data)
                    ctx.equal(r.bit_tell(), base + width + 11, "position")
                    ctx.seen((phase, width, signed, arrive, data))


def enumerate_writes(ctx):
    i = ctx.index
    phase, i = i % 8, i // 8
    width = i % 70
    rng = ctx.rng
    for val in [0, (1 << width) - 1, rng.getrandbits(width) if width else 0] + ([-1, -(1 << (width - 1))] if width else []):
        for follow in ("write", "align", "flush", "bytes", "seekback"):
            init = b"\xa5" * 30
            st = io.BytesIO(init)
            m = WModel(init, 0)
            w = BitIOWriter(st, noclose=True)
            pre = rng.getrandbits(phase) if phase else 0
            w.write(phase, pre)
            m.write(phase, pre)
            w.write(width, val)
            m.write(width, val)
            if follow == "align":
                w.align()
                m.align()
            elif follow == "flush":
                w.flush()
                m.flush()
            elif follow == "bytes":
                w.write_bytes(b"\x12\xfe")
                m.write(16, 0xfe12)
            elif follow == "seekback":
                w.bit_seek(16)
                m.seek(16)
            w.write(13, 0x1234 & 0x1fff)
            m.write(13, 0x1234 & 0x1fff)
            ctx.equal(w.bit_tell(), m.pos, "position (phase %d width %d %s)" % (phase, width, follow))
            w.close()
            ctx.count("write_ops", 2)
            ctx.count("images_compared")
            ctx.equal(st.getvalue(), bytes(m.img), "image (phase %d, write(%d, %d), then %s)" % (phase, width, val, follow))
            ctx.seen((phase, width, val, follow))


def write_then_read(ctx):
    """Fields written in order, some back-patched, then read at random."""
    rng = ctx.rng
    pre = rng.randbytes(rng.choice([0, 3]))
    st = io.BytesIO(pre)
    st.seek(len(pre))
    w = DFWriter(st, noclose=True)
    fields = []
    for _ in range(rng.randrange(1, 80)):
        bits = width(rng)
        neg = rng.random() < 0.4
        v = -rng.randrange(0, (1 << (bits - 1)) + 1) if neg else rng.getrandbits(bits)
        fields.append((w.bit_tell(), bits, neg, v))
        w.write(bits, v)
        if rng.random() < 0.1:
            w.align()
    w.close()
    r = DFReader(io.BytesIO(st.getvalue()))
    rng.shuffle(fields)
    for pos, bits, neg, v in fields:
        r.bit_seek(pos)
        got = r.read(bits, neg)
        ctx.count("read_ops")
        ctx.equal(got, v, "field of %d bits written at bit %d" % (bits, pos))
    ctx.equal(st.getvalue()[:len(pre)], pre, "bytes before the start offset")
    ctx.seen((pre, fields))


WORKLOADS = [
    Workload("writer_history", writer_history, 20000, 300000),
    Workload("reader_history", reader_history, 20000, 300000),
    Workload("enumerate_reads", enumerate_reads, 560, 560),
    Workload("enumerate_writes", enumerate_writes, 560, 560),
    Workload("write_then_read", write_then_read, 3000, 40000),
]
