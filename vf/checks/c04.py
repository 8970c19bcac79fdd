"""C04: variable trees round-trip in the Dustforce encoding."""
import io

from dustmaker import DFReader, DFWriter
from dustmaker import variable as V
from dustmaker.exceptions import LevelParseException

from ..core import Workload
from ..refbits import BitsIn, FastOut
from .. import gen, refcodec, streams
from ..dm import CLS, VT, from_map, from_var, to_map, to_var

PID = "C04"
RULE = ("random trees (depth up to 4) with boundary ints, fixed-point floats, strings around multiples of 65535, at every bit "
        "phase, alone, in structs, in arrays and as variable files; bytes decoded and encoded by an independent codec; "
        "non-trivial: the tree holds at least one value; distinct by tree and phase")
REQUIRED = {"wide_trees": 60, "trees": 5000, "nested_arrays": 300, "long_strings": 60, "files": 1000, "big_files": 10, "refusals_observed": 300, "refused_numbers": 500, "bytes_compared": 5000}


def stats(ctx, p):
    k, v = p
    if k == "array":
        if v[0] in ("array", "struct"):
            ctx.count("nested_arrays")
        for e in v[1]:
            stats(ctx, e)
    elif k == "struct":
        for _, s in v:
            stats(ctx, s)
    elif k == "string" and len(v) >= 65535:
        ctx.count("long_strings")


def approx(a, b, tol):
    """Plain trees equal with floats within one step."""
    if a[0] != b[0]:
        return False
    k, x, y = a[0], a[1], b[1]
    if k == "float":
        return abs(x - y) < tol
    if k == "vec2":
        return abs(x[0] - y[0]) < tol and abs(x[1] - y[1]) < tol
    if k == "struct":
        return [n for n, _ in x] == [n for n, _ in y] and all(approx(s, t, tol) for (_, s), (_, t) in zip(x, y))
    if k == "array":
        return x[0] == y[0] and len(x[1]) == len(y[1]) and all(approx(s, t, tol) for s, t in zip(x[1], y[1]))
    return x == y


def roundtrip(ctx, p, phase, exact=True):
    rng = ctx.rng
    k = p[0]
    st = io.BytesIO()
    w = DFWriter(st, noclose=True)
    pre = rng.getrandbits(phase) if phase else 0
    w.write(phase, pre)
    var = to_var(p)
    w.write_variable(var)
    end = w.bit_tell()
    w.write(13, 0x1abc & 0x1fff)
    w.close()
    data = st.getvalue()
    ctx.count("trees")
    stats(ctx, p)
    ctx.check(from_var(var) == p, "writing changed the variable")
    # independent decoder
    r = BitsIn(data, phase)
    ref = refcodec.dec_var(r, k)
    if exact:
        ctx.equal(ref, p, "tree decoded from the bytes (phase %d)" % phase)
    else:
        ctx.check(approx(ref, p, 2.0**-30), "tree decoded from the bytes (phase %d)" % phase, ref, p)
    ctx.equal(r.pos, end, "bit length of the encoding")
    # independent encoder gives the same bits
    if exact:
        o = FastOut()
        o.u(phase, pre)
        refcodec.enc_var(o, p)
        ctx.equal(end, o.n, "encoded length")
        o.u(13, 0x1abc & 0x1fff)
        ctx.count("bytes_compared")
        ctx.equal(data, o.bytes(), "bytes of the encoding")
    # dustmaker reads it back
    rd = DFReader(io.BytesIO(data))
    ctx.equal(rd.read(phase), pre, "bits before")
    got = rd.read_variable(VT[k])
    ctx.equal(rd.bit_tell(), end, "position after reading")
    ctx.equal(rd.read(13), 0x1abc & 0x1fff, "bits after")
    ctx.check(type(got) is CLS[k], "type of the variable read", got)
    got.assert_types()
    if exact:
        ctx.equal(from_var(got), p, "tree read back (phase %d)" % phase)
        ctx.check(got == var and not got != var, "variable read back compares equal")
    else:
        ctx.check(approx(from_var(got), p, 2.0**-30), "tree read back (phase %d)" % phase, from_var(got), p)
        ctx.check(from_var(got) == ref, "both decoders agree")
    ctx.seen((phase, p))
    return data


def trees(ctx):
    rng = ctx.rng
    exact = rng.random() < 0.85
    p = gen.var(rng, rng.choice([0, 1, 2, 3, 4]), fl=gen.grid_float if exact else gen.any_float)
    ctx.sample(p)
    roundtrip(ctx, p, rng.randrange(8), exact)
    if p[0] == "struct":
        # as a map through the convenience method
        st = io.BytesIO()
        with DFWriter(st, noclose=True) as w:
            w.write_variable(to_var(p))
        with DFReader(io.BytesIO(st.getvalue())) as r:
            m = r.read_variable_map()
        ctx.check(type(m) is dict, "read_variable_map gives a dict")
        if exact:
            ctx.equal(from_map(m), p[1], "read_variable_map")


def long_strings(ctx):
    rng = ctx.rng
    n = rng.choice([65533, 65534, 65535, 65536, 65537, 131069, 131070, 131071, 131072, 196604, 196605, 196606, gen.loglen(rng, 19), rng.randrange(780000, 2000000)])
    base = rng.randbytes(251)
    s = (base * (n // 251 + 1))[:n]
    small = ("string", rng.randbytes(rng.randrange(4)))
    where = ctx.index % 4
    if where == 0:
        p = ("struct", [("a", small), (gen.name(rng) + "{", ("string", s)), ("text2", ("string", b"x")), ("t", ("int", -7))])
    elif where == 1:
        p = ("array", ("string", rng.sample([("string", s), small, ("string", b""), ("string", s[:65535])], 4)))
    elif where == 2:
        p = ("struct", [("q", ("array", ("struct", [("struct", [("s", ("string", s))]), ("struct", [])])))])
    else:
        p = ("array", ("array", [("array", ("string", [("string", s), small])), ("array", ("int", [("int", -1)]))]))
    roundtrip(ctx, p, rng.choice([0, 1, 5, 7]))
    ctx.sample((where, n))
    if n <= 65535:
        roundtrip(ctx, ("string", s), rng.randrange(8))


def wide(ctx):
    """Many entries, long arrays, deep nesting."""
    rng = ctx.rng
    roundtrip(ctx, ("struct", gen.big_vars(rng)), rng.randrange(8))
    k = rng.choice(gen.SCALARS)
    roundtrip(ctx, ("array", (k, [gen.var(rng, 0, k) for _ in range(rng.choice(gen.COUNTS + [5000, 20000]))])), rng.randrange(8))
    ctx.count("wide_trees")


def files(ctx):
    rng = ctx.rng
    header = rng.choice([b"DF_STA", b"DF_CFG", b"DF_FOG", b"", b"X", rng.randbytes(rng.randrange(12))])
    items = gen.struct(rng, rng.randrange(3)) if rng.random() > 0.006 else gen.big_vars(rng)
    offset = rng.choice([0, 0, 3, 17])
    ctx.count("big_files", len(items) > 0 and items[-1][0] == "text" or any(k == "wide" for k, _ in items))
    st = io.BytesIO(b"\xee" * offset)
    st.seek(offset)
    with DFWriter(st, noclose=True) as w:
        w.write_var_file(header, to_map(items))
        ctx.equal(w.bit_tell(), 8 * len(st.getvalue()), "position after writing a variable file")
        w.write_bytes(b"TAIL")
    data = st.getvalue()
    ctx.equal(data[:offset], b"\xee" * offset, "bytes before the file")
    ctx.equal(data[-4:], b"TAIL", "bytes after the file")
    body = data[offset:-4]
    ref = refcodec.dec_varfile(body, header)
    ctx.equal((ref["version"], ref["size"], ref["end"]), (1, len(body), len(body)), "file header and length")
    ctx.equal(ref["vars"], items, "variables decoded from the file")
    ctx.count("bytes_compared")
    ctx.equal(body, refcodec.enc_varfile(header, items), "bytes of the file")
    if rng.random() < 0.2:
        def write(buf):
            with DFWriter(buf, noclose=True) as w:
                w.write_var_file(header, to_map(items))
        streams.over(ctx, bytes(offset), body, write, "a variable file")
    src = io.BytesIO(data)
    src.seek(offset)
    with DFReader(src) as r:
        got = r.read_var_file(header)
    ctx.equal(from_map(got), items, "variables read back")
    ctx.count("files")
    ctx.seen((header, items, offset))
    ctx.sample((header, items))
    # wrong header
    if header:
        i = rng.randrange(len(header))
        bad = bytearray(body)
        bad[i] ^= rng.choice([1, 0x20, 0xff])
        ctx.raises(LevelParseException, lambda: DFReader(io.BytesIO(bytes(bad))).read_var_file(header), "wrong header must be refused")
    # header already consumed by the caller
    with DFReader(io.BytesIO(body)) as r:
        r.read_expect(header)
        ctx.equal(from_map(r.read_var_file(b"")), items, "read_var_file(b'') after the header")


def foreign(ctx):
    """Legal encodings dustmaker itself does not produce (negative splits)."""
    rng = ctx.rng
    p = ("struct", gen.struct(rng, 2, rng.randrange(1, 5)))
    phase = rng.randrange(8)
    o = FastOut()
    o.u(phase, 0)
    refcodec.enc_var(o, p, {"rng": rng, "altneg": True})
    n = o.n
    o.u(7, 0x55)
    r = DFReader(io.BytesIO(o.bytes()))
    r.read(phase)
    got = r.read_variable(V.VariableType.STRUCT)
    ctx.equal(from_var(got), p, "tree read from another encoder's bytes")
    ctx.equal(r.bit_tell(), n, "position after reading")
    ctx.equal(r.read(7), 0x55, "bits after")
    ctx.count("trees")
    ctx.seen((phase, o.bytes()))


def refusals(ctx):
    rng = ctx.rng
    kind = ctx.index % 7

    def write(var):
        with DFWriter(io.BytesIO()) as w:
            w.write_variable(var)
        return "accepted"

    if kind == 0:
        n = rng.choice([65536, 65537, 70000, 131072])
        ctx.raises(ValueError, lambda: write(V.VariableString(bytes(n))), "bare string of %d bytes must be refused" % n)
    elif kind == 1:
        n = rng.choice([65536, 65537, 70000])
        ek = rng.choice(["bool", "int"])
        v = V.VariableArray(CLS[ek], [CLS[ek]()] * n)
        ctx.raises(ValueError, lambda: write(v), "array of %d elements must be refused" % n)
    elif kind == 2:
        # continuations count as elements
        n = rng.choice([65534, 65535])
        parts = [V.VariableString(b"")] * n + [V.VariableString(bytes(65535 * (65536 - n)))]
        ctx.raises(ValueError, lambda: write(V.VariableArray(V.VariableString, parts)), "string array with too many pieces must be refused")
    elif kind == 3:
        key = rng.choice(["a b", "x" * 64, "é", "a-b", "q" * 63 + "!", "tab\t"])
        depth = rng.randrange(3)
        v = V.VariableStruct({key: V.VariableInt(1)})
        for _ in range(depth):
            v = rng.choice([lambda v: V.VariableStruct({"k": v}), lambda v: V.VariableArray(V.VariableStruct, [V.VariableStruct({"z": v})])])(v)
        ctx.raises(ValueError, lambda: write(v), "bad key %r must be refused" % key)
    elif kind == 4:
        key = rng.choice(["a b", "x" * 64, "é"])
        ctx.raises(ValueError, lambda: write(V.VariableStruct({key: V.VariableString(b"abc")})), "bad key %r of a string must be refused" % key)
    elif kind == 6:
        # numbers beyond the fixed-point form
        for _ in range(20):
            f = rng.choice([2.0 ** 31, 2.0 ** 31 + 0.5, 2.0 ** 32, 1e12, 1e300, 2.0 ** rng.randrange(32, 80)]) * rng.choice([1, -1])
            v = rng.choice([lambda: V.VariableFloat(f), lambda: V.VariableVec2((f, 1.0)), lambda: V.VariableVec2((-2.0, f)),
                            lambda: V.VariableArray(V.VariableFloat, [V.VariableFloat(1.0), V.VariableFloat(f)]), lambda: V.VariableStruct({"k": V.VariableFloat(f)})])
            ctx.raises(Exception, lambda: write(v()), "number %r must be refused" % f)
            ctx.count("refused_numbers")
    else:
        # largest arrays that do fit
        n = 65535
        v = V.VariableArray(V.VariableBool, [V.VariableBool(i % 3 == 0) for i in range(n)])
        st = io.BytesIO()
        with DFWriter(st, noclose=True) as w:
            w.write_variable(v)
        with DFReader(io.BytesIO(st.getvalue())) as r:
            got = r.read_variable(V.VariableType.ARRAY)
        ctx.check(got == v, "array of 65535 elements read back")
    ctx.seen((kind, ctx.index))


def null_refused(ctx):
    """NULL and unassigned type codes are not silently decoded."""
    for code in range(16):
        try:
            t = V.VariableType(code)
        except ValueError:
            t = None
        o = FastOut()
        o.u(4, code)
        refcodec.enc_name(o, "abc")
        o.u(64, 0)
        o.u(64, 0)
        if t is None:
            ctx.raises((ValueError, LevelParseException), lambda: DFReader(io.BytesIO(o.bytes())).read_variable_map(), "type code %d must be refused" % code)
    ctx.raises(LevelParseException, lambda: DFReader(io.BytesIO(bytes(8))).read_variable(V.VariableType.NULL), "null variable must be refused")
    ctx.seen(0)


WORKLOADS = [
    Workload("trees", trees, 16000, 150000),
    Workload("long_strings", long_strings, 64, 800),
    Workload("wide", wide, 64, 800),
    Workload("files", files, 6000, 40000),
    Workload("foreign", foreign, 6000, 40000),
    Workload("refusals", refusals, 840, 3500),
    Workload("null_refused", null_refused, 1, 1),
]
