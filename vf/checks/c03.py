"""C03: fixed-point numbers and 6-bit names survive encoding."""
import io
import math
from fractions import Fraction

from dustmaker import DFReader, DFWriter

from ..core import Workload
from ..refbits import BitsIn, FastOut
from ..refcodec import ALPHA, AIDX, dec_fixed, enc_fixed

PID = "C03"
RULE = ("fixed-point: widths 1..40 integer and 1..40 fraction bits, numbers on and off the grid, both signs, range ends, "
        "sub-step values, at all 8 bit phases; names: every length and character, every other code point class; the bits are "
        "decoded by an independent decoder; non-trivial: value not zero / name not empty; distinct by (value, widths, phase)")
REQUIRED = {"numbers": 20000, "negative_numbers": 8000, "on_grid": 8000, "off_grid": 5000, "names": 5000, "refusals_observed": 1000, "refused_numbers": 3000}
ASSUMPTIONS = ["in range: the value's integer part fits the integer width, i.e. |floor(v)| < 2**(ibits-1)",
               "the value read back is a Python float, so more than 53 significant bits are not distinguishable"]


def _phase(w, rng, phase):
    pre = rng.getrandbits(phase) if phase else 0
    w.write(phase, pre) if phase else None
    return pre


def one_number(ctx, ib, fb, v, phase, alt=False):
    rng = ctx.rng
    st = io.BytesIO()
    w = DFWriter(st, noclose=True)
    pre = _phase(w, rng, phase)
    w.write_float(ib, fb, v)
    ctx.equal(w.bit_tell(), phase + ib + fb, "bits used by write_float(%d, %d, %r)" % (ib, fb, v))
    tail = rng.getrandbits(11)
    w.write(11, tail)
    w.close()
    data = st.getvalue()
    step = Fraction(1, 1 << (fb - 1))
    r = DFReader(io.BytesIO(data))
    ctx.equal(r.read(phase), pre, "bits before")
    got = r.read_float(ib, fb)
    ctx.equal(r.bit_tell(), phase + ib + fb, "bits consumed by read_float(%d, %d)" % (ib, fb))
    ctx.equal(r.read(11), tail, "bits after write_float(%d, %d, %r) at phase %d" % (ib, fb, v, phase))
    ref = dec_fixed(BitsIn(data, phase), ib, fb)
    ctx.check(type(got) is float, "read_float gives a float", got)
    ctx.count("numbers")
    fv = Fraction(v)
    if v < 0:
        ctx.count("negative_numbers")
    ctx.check(abs(ref - fv) < step, "write_float(%d, %d, %r): stored value %s is a step or more away" % (ib, fb, v, float(ref)))
    # reading: the correctly rounded value of what is stored
    exact = Fraction(got)
    ctx.check(abs(exact - ref) <= abs(ref) * Fraction(1, 1 << 52), "read_float(%d, %d) of %s gave %r" % (ib, fb, float(ref), got))
    if fv % step == 0:
        ctx.count("on_grid")
        ctx.check(ref == fv, "on-grid %r stored as %s in (%d, %d)" % (v, float(ref), ib, fb))
        if float(fv) == v:
            ctx.equal(got, float(v), "on-grid value through (%d, %d)" % (ib, fb))
    else:
        ctx.count("off_grid")
    if v != 0:
        ctx.seen((ib, fb, v, phase))
    # idempotence: what was read is written to the same value again
    if abs(math.floor(got)) < 1 << (ib - 1) and fb <= 50 and ib + fb <= 53:
        st2 = io.BytesIO()
        with DFWriter(st2, noclose=True) as w2:
            w2.write_float(ib, fb, got)
        with DFReader(io.BytesIO(st2.getvalue())) as r2:
            ctx.equal(r2.read_float(ib, fb), got, "second pass of %r through (%d, %d)" % (v, ib, fb))


def number(rng, ib, fb):
    top = 1 << (ib - 1)
    one = 1 << (fb - 1)
    r = rng.random()
    if r < 0.12:
        return float(rng.choice([0, 1, -1, 2, -2, 0.5, -0.5, -0.25, 0.75, 1.5, -1.5]))
    if r < 0.3:
        return float(rng.randrange(-top + 1, top)) if top > 1 else 0.0
    if r < 0.36:
        return float(top - 1) if rng.random() < 0.5 else -float(top - 1)
    if r < 0.42:
        return rng.choice([-1, 1]) / one
    if r < 0.48:
        return rng.choice([-1, 1]) / one / 3
    if r < 0.75:
        k = rng.randrange(-(top - 1) * one, (top - 1) * one + 1) if top > 1 else rng.randrange(0, one)
        return k / one
    if r < 0.85:
        # a few grid steps above or below a whole number
        k = rng.choice([-3, -2, -1, 1, 2, 3])
        n = rng.choice([0, 1, -1, rng.randrange(-(top - 1), top)]) if top > 1 else 0
        return n + k / one if abs(n + k / one) < top - 1 else float(n)
    if r < 0.93:
        return rng.uniform(-(top - 1), top - 1)
    return rng.uniform(-1, 1) * 10.0 ** rng.randrange(-9, 1) * min(top - 1, 1)


def numbers(ctx):
    rng = ctx.rng
    for _ in range(20):
        w = rng.random()
        if w < 0.35:
            ib, fb = 32, 32
        elif w < 0.5:
            ib, fb = 32, 8
        elif w < 0.6:
            ib, fb = 28, 4
        else:
            ib, fb = rng.randrange(1, 41), rng.randrange(1, 41)
        v = number(rng, ib, fb)
        if abs(math.floor(v)) >= 1 << (ib - 1) or not math.isfinite(v):
            v = 0.0
        if rng.random() < 0.1 and v == int(v):
            v = int(v)
        one_number(ctx, ib, fb, v, rng.randrange(8))
        ctx.sample((ib, fb, v))


def out_of_range(ctx):
    """Numbers the form cannot hold are refused, not stored as others."""
    rng = ctx.rng
    for _ in range(10):
        ib, fb = rng.choice([(32, 32), (32, 8), (28, 4), (rng.randrange(1, 41), rng.randrange(1, 41))])
        top = float(1 << (ib - 1))
        v = rng.choice([top, top + 0.5, 2 * top, 2 * top + 1, top * rng.uniform(1, 1000), 1e300, top * 2.0 ** rng.randrange(1, 60), float("inf"), float("nan")])
        if rng.random() < 0.5:
            v = -v
        w = DFWriter(io.BytesIO())
        ctx.raises(Exception, lambda: w.write_float(ib, fb, v), "number out of range must be refused", ib, fb, v)
        ctx.count("refused_numbers")
        ctx.seen((ib, fb, repr(v)))


def number_enum(ctx):
    """Every on-grid value of small widths, every phase by index."""
    ib, fb = 1 + ctx.index % 5, 1 + ctx.index // 5 % 5
    top, one = 1 << (ib - 1), 1 << (fb - 1)
    for k in range(-(top - 1) * one, top * one):
        one_number(ctx, ib, fb, k / one, (ctx.index + k) % 8)


def number_decode(ctx):
    """Any legal bit pattern, the game's own splits of negatives included."""
    rng = ctx.rng
    for _ in range(15):
        ib, fb = rng.choice([(32, 32), (32, 8), (28, 4), (rng.randrange(1, 40), rng.randrange(1, 40))])
        phase = rng.randrange(8)
        o = FastOut()
        o.u(phase, rng.getrandbits(phase) if phase else 0)
        o.u(1, rng.getrandbits(1))
        o.u(ib - 1, rng.getrandbits(ib - 1) if ib > 1 else 0)
        o.u(fb, rng.choice([rng.getrandbits(fb), 1 << (fb - 1), 0, (1 << fb) - 1]))
        data = o.bytes()
        ref = dec_fixed(BitsIn(data, phase), ib, fb)
        r = DFReader(io.BytesIO(data))
        r.read(phase)
        got = r.read_float(ib, fb)
        ctx.count("decodes")
        ctx.check(abs(Fraction(got) - ref) <= abs(ref) * Fraction(1, 1 << 52) + Fraction(1, 1 << 60),
                  "read_float(%d, %d) of bits meaning %s gave %r" % (ib, fb, float(ref), got), data)
        ctx.seen((ib, fb, data, phase))


def name_ok(ctx, s, phase):
    rng = ctx.rng
    st = io.BytesIO()
    w = DFWriter(st, noclose=True)
    pre = _phase(w, rng, phase)
    w.write_6bit_str(s)
    ctx.equal(w.bit_tell(), phase + 6 + 6 * len(s), "bits used by a name of %d characters" % len(s))
    w.write(9, 0x155)
    w.close()
    b = BitsIn(st.getvalue(), phase)
    ctx.equal(b.u(6), len(s), "length field")
    ctx.equal([b.u(6) for _ in s], [AIDX[c] for c in s], "stored characters of %r" % s)
    r = DFReader(io.BytesIO(st.getvalue()))
    r.read(phase)
    ctx.equal(r.read_6bit_str(), s, "name read back")
    ctx.equal(r.read(9), 0x155, "bits after the name")
    ctx.count("names")
    if s:
        ctx.seen((s, phase))


BAD = [" ", "-", ".", "/", ":", "@", "[", "\\", "]", "^", "`", "|", "}", "~", "\x7f", "\x80", "é", "ß", "İ", "ı", "０", "Ａ", "一", "\U0001f600",
       "\0", "\n", "²", "٣", "ａ", "ª", "K"]


def names(ctx):
    rng = ctx.rng
    for _ in range(6):
        n = rng.choice([0, 1, 2, 3, 7, 8, 20, 62, 63, rng.randrange(64)])
        name_ok(ctx, "".join(rng.choice(ALPHA) for _ in range(n)), rng.randrange(8))
    for _ in range(3):
        n = rng.randrange(0, 63)
        s = [rng.choice(ALPHA) for _ in range(n)]
        c = rng.choice(BAD) if rng.random() < 0.7 else chr(rng.choice([rng.randrange(0x300), rng.randrange(0x20, 0xd7ff)]))
        if c in ALPHA:
            continue
        s.insert(rng.randrange(n + 1), c)
        bad = "".join(s)
        ctx.raises(ValueError, lambda: DFWriter(io.BytesIO()).write_6bit_str(bad), "bad name %r must be refused" % bad)
    n = rng.choice([64, 64, 65, 70, 100, 127, 128, 129, 1000])
    long = "".join(rng.choice(ALPHA) for _ in range(n))
    ctx.raises(ValueError, lambda: DFWriter(io.BytesIO()).write_6bit_str(long), "name of %d characters must be refused" % n)


def name_enum(ctx):
    c = ctx.index
    if c < 64:
        name_ok(ctx, ALPHA[c], c % 8)
        name_ok(ctx, ALPHA[c] * 63, c % 8)
        name_ok(ctx, (ALPHA * 2)[c:c + c % 64], c % 8)
    for cp in range(c * 256, c * 256 + 256):
        if cp > 0x10ffff or 0xd800 <= cp < 0xe000:
            continue
        ch = chr(cp)
        if ch in ALPHA:
            name_ok(ctx, ch, cp % 8)
        else:
            ctx.raises(ValueError, lambda: DFWriter(io.BytesIO()).write_6bit_str("a" + ch), "name with U+%04X must be refused" % cp)


WORKLOADS = [
    Workload("numbers", numbers, 30000, 120000),
    Workload("out_of_range", out_of_range, 1000, 8000),
    Workload("number_enum", number_enum, 25, 25),
    Workload("number_decode", number_decode, 10000, 40000),
    Workload("names", names, 15000, 40000),
    Workload("name_enum", name_enum, 256, 256),
]
