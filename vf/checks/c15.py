"""C15: transformation matrices obey affine algebra."""
import math
from fractions import Fraction

from dustmaker.transform import TxMatrix

from ..core import Workload

PID = "C15"
RULE = ("random affine matrices (integers, dyadic fractions compared exactly; arbitrary floats to 1e-9), products of 2-6 factors, scalars, "
        "translations and sample points, against exact rational arithmetic on the entries passed in; malformed matrices; "
        "non-trivial: a factor with an offset and a non-identity linear part; distinct by entries")
REQUIRED = {"products": 4000, "exact_products": 1500, "samples": 20000, "scalar_products": 3000, "translations": 3000, "refused": 800,
            "angles": 2000, "named": 1000}
ASSUMPTIONS = ["the angle is the clockwise turn applied before any horizontal mirror, with the sign Prop.transform relies on (clockwise negative)",
               "angle is only judged for mixtures of turns, mirrors and uniform scaling"]


def entry(rng, kind):
    if kind == "int":
        return rng.choice([0, 1, -1, 2, -3, 7, 48, -48, 1000, rng.randrange(-99, 100)])
    if kind == "dyadic":
        return rng.randrange(-4096, 4096) / rng.choice([1, 2, 8, 64])
    return rng.choice([rng.uniform(-10, 10), rng.gauss(0, 1e4), rng.uniform(-1, 1) * 1e-3])


def turn(rng, kind):
    """Rows of a random matrix."""
    r = rng.random()
    if r < 0.35:
        a, b, c, d = rng.choice([(1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0), (-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, 1, 0), (0, -1, -1, 0)])
    else:
        a, b, c, d = (entry(rng, kind) for _ in range(4))
    x, y = (entry(rng, kind), entry(rng, kind)) if rng.random() < 0.85 else (0, 0)
    return ((a, b, x), (c, d, y), (0, 0, 1))


def exact(rows):
    return [[Fraction(v) for v in r] for r in rows]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def apply(a, x, y, off=True):
    x, y = Fraction(x), Fraction(y)
    return (a[0][0] * x + a[0][1] * y + (a[0][2] if off else 0), a[1][0] * x + a[1][1] * y + (a[1][2] if off else 0))


def mag(a):
    return max(1, max(abs(v) for r in a for v in r))


def same(ctx, got, want, tol, what, detail=""):
    """Exact when tol is 0, else within tol (absolute)."""
    ctx.check(len(got) == len(want), what, (got, want))
    for g, w in zip(got, want):
        ok = Fraction(g) == w if not tol else abs(Fraction(g) - w) <= tol
        ctx.check(ok, what, "got %r, want %r %r" % (got, [float(w) for w in want], detail))


def same_matrix(ctx, got, want, tol, what, detail=""):
    ctx.check(isinstance(got, TxMatrix), "%s gives a TxMatrix" % what, type(got))
    ctx.check(len(got) == 3, "%s: 3 rows" % what, got)
    for g, w in zip(got, want):
        same(ctx, tuple(g), w, tol, what, detail)


def build(rng, rows):
    r = rng.random()
    if r < 0.4:
        return TxMatrix(rows)
    if r < 0.6:
        return TxMatrix([list(r) for r in rows])
    if r < 0.8:
        return TxMatrix(iter([iter(r) for r in rows]))
    return TxMatrix(tuple(r) for r in rows)


def products(ctx):
    rng = ctx.rng
    kind = rng.choice(["int", "dyadic", "float"])
    n = rng.choice([2, 2, 3, 4] if kind != "int" else [2, 2, 3, 4, 6])
    rows = [turn(rng, kind) for _ in range(n)]
    mats = [build(rng, r) for r in rows]
    for m, r in zip(mats, rows):
        same_matrix(ctx, m, exact(r), 0, "constructor")
    want = exact(rows[0])
    got = mats[0]
    size = mag(want)
    for m, r in zip(mats[1:], rows[1:]):
        want = mul(want, exact(r))
        size *= mag(exact(r)) * 3
        got = got * m
    # integers and short dyadics stay exactly representable for two factors
    tol = 0 if kind == "int" and size < 2**50 or kind == "dyadic" and n == 2 else Fraction(size) / 10**12
    same_matrix(ctx, got, want, tol, "product", rows)
    ctx.count("products")
    ctx.count("exact_products", tol == 0)
    for m, r in zip(mats, rows):
        same_matrix(ctx, m, exact(r), 0, "operand after a product")
    if any(r[0][2] or r[1][2] for r in rows) and any((r[0][:2], r[1][:2]) != ((1, 0), (0, 1)) for r in rows):
        ctx.seen(rows)
    ctx.sample(rows)
    for _ in range(3):
        x, y = entry(rng, kind), entry(rng, kind)
        px, py = x, y
        for m in reversed(mats):
            px, py = m.sample(px, py)
        w = apply(want, x, y)
        t = tol * mag([[Fraction(x), Fraction(y)]]) * 4 if tol else 0
        if kind == "dyadic":
            t = Fraction(size) * mag([[Fraction(x), Fraction(y)]]) / 10**12
        same(ctx, (px, py), w, t, "sampling the factors right to left", (rows, x, y))
        same(ctx, got.sample(x, y), w, t, "sampling the product", (rows, x, y))
        gx, gy = got.sample(x, y, with_offset=False)
        same(ctx, (gx, gy), apply(want, x, y, False), t, "sampling without offset", (rows, x, y))
        ctx.count("samples", n + 2)


def scalars(ctx):
    rng = ctx.rng
    kind = rng.choice(["int", "dyadic", "float"])
    rows = turn(rng, kind)
    m = build(rng, rows)
    e = exact(rows)
    k = rng.choice([0, 1, -1, 2, 3, 16, 0.5, -0.25, 48, rng.randrange(-9, 10), rng.uniform(-3, 3)])
    tol = 0 if kind != "float" and (k == int(k) or abs(k) in (0.5, 0.25)) else mag(e) * Fraction(abs(k) + 1) / 10**12
    for label, got in (("mat * number", m * k), ("number * mat", k * m)):
        ctx.equal(tuple(got[2]), (0, 0, 1), "last row of %s" % label)
        same_matrix(ctx, got, [[v * Fraction(k) for v in r] for r in e[:2]] + [[0, 0, 1]], tol, label, (rows, k))
        x, y = entry(rng, "int"), entry(rng, "int")
        w = apply(e, x, y)
        t = tol * mag([[Fraction(x), Fraction(y)]]) * 4 if tol else (mag(e) * mag([[Fraction(x), Fraction(y)]]) * 40 / 10**12 if kind != "int" else 0)
        same(ctx, got.sample(x, y), [v * Fraction(k) for v in w], t, "sampling %s" % label, (rows, k, x, y))
        ctx.count("scalar_products")
        ctx.count("samples")
    tx, ty = entry(rng, kind), entry(rng, kind)
    got = m.translate(tx, ty)
    tol = mag(e) / 10**11 if kind == "float" else 0
    w = [list(r) for r in e]
    w[0][2] += Fraction(tx)
    w[1][2] += Fraction(ty)
    tol = max(tol, Fraction(abs(tx) + abs(ty)) / 10**12) if kind == "float" else tol
    same_matrix(ctx, got, w, tol, "translate", (rows, tx, ty))
    same_matrix(ctx, TxMatrix.IDENTITY.translate(tx, ty) * m, w, tol, "translation * mat", (rows, tx, ty))
    same_matrix(ctx, m, e, 0, "operand after translate")
    ctx.count("translations", 2)
    ctx.seen((rows, k, tx, ty))
    # determinant, flip, scale
    det = e[0][0] * e[1][1] - e[0][1] * e[1][0]
    tol = 0 if kind != "float" else mag(e) ** 2 / 10**12
    same(ctx, (m.determinant,), (det,), tol, "determinant", rows)
    if abs(det) > tol:
        ctx.check(m.flipped is (det < 0) or m.flipped == (det < 0), "flip flag", (rows, m.flipped))
        s = math.sqrt(abs(det))
        ctx.check(abs(m.scale - s) <= 1e-6 * max(1, s) if kind == "float" else abs(m.scale - s) <= 1e-9 * s, "scale", (rows, m.scale, s))
    elif det == 0 and kind != "float":
        ctx.check(not m.flipped, "flip flag of a degenerate matrix", rows)
        ctx.check(m.scale == 0, "scale of a degenerate matrix", rows)


def angles(ctx):
    """Similarities: turn by theta clockwise (y down), scale, then maybe mirror."""
    rng = ctx.rng
    q = rng.random() < 0.5
    th = rng.randrange(-4, 5) * math.pi / 2 if q else rng.uniform(-7, 7)
    s = rng.choice([1, 1, 2, 3, 0.5, rng.uniform(0.1, 20)])
    c, n = math.cos(th), math.sin(th)
    if q and rng.random() < 0.7:
        c, n = round(c), round(n)
    mirror = rng.random() < 0.5
    rows = ((c * s * (-1 if mirror else 1), -n * s * (-1 if mirror else 1), rng.randrange(-9, 9)), (n * s, c * s, rng.randrange(-9, 9)), (0, 0, 1))
    m = build(rng, rows)
    d = (m.angle + th) % (2 * math.pi)
    ctx.check(min(d, 2 * math.pi - d) < 1e-6, "angle of a turn by %r" % th, (rows, m.angle))
    ctx.check(abs(m.scale - s) < 1e-9 * s, "scale of a similarity", (rows, m.scale))
    ctx.check(bool(m.flipped) == mirror, "flip flag of a similarity", (rows, m.flipped))
    ctx.count("angles")
    ctx.seen(rows)


def named(ctx):
    """Named matrices act as documented, and keep doing so."""
    rng = ctx.rng
    x, y = entry(rng, "int"), entry(rng, "int")
    want = {
        "IDENTITY": ((x, y), False), "HFLIP": ((-x, y), True), "VFLIP": ((x, -y), True),
        0: ((x, y), False), 1: ((-y, x), False), 2: ((-x, -y), False), 3: ((y, -x), False),
    }
    ctx.equal(len(TxMatrix.ROTATE), 4, "number of rotations")
    for k, (p, flip) in want.items():
        m = getattr(TxMatrix, k) if isinstance(k, str) else TxMatrix.ROTATE[k]
        ctx.check(isinstance(m, TxMatrix), "named matrix type", k)
        ctx.equal(tuple(m.sample(x, y)), p, "sample of %s" % k, (x, y))
        ctx.equal(bool(m.flipped), flip, "flip flag of %s" % k)
        ctx.check(m.scale == 1 and m.determinant == (-1 if flip else 1), "scale of %s" % k)
        ctx.count("named")
    i, j = rng.randrange(4), rng.randrange(4)
    ctx.equal(TxMatrix.ROTATE[i] * TxMatrix.ROTATE[j], TxMatrix.ROTATE[(i + j) % 4], "rotations compose")
    ctx.equal(TxMatrix.HFLIP * TxMatrix.VFLIP, TxMatrix.ROTATE[2], "both flips are a half turn")
    ctx.equal(TxMatrix.HFLIP * TxMatrix.HFLIP, TxMatrix.IDENTITY, "flip twice")
    ctx.equal(TxMatrix.VFLIP * TxMatrix.VFLIP, TxMatrix.IDENTITY, "flip twice")
    ctx.seen((x, y, i, j))


def refused(ctx):
    rng = ctx.rng
    rows = [list(r) for r in turn(rng, rng.choice(["int", "float"]))]
    how = rng.choice(["rows", "more_rows", "short", "long", "last", "elem", "elem", "last", "scalar", "flat", "empty"])
    if how == "rows":
        del rows[rng.randrange(3)]
    elif how == "more_rows":
        rows.insert(rng.randrange(4), [0, 0, 1])
    elif how == "short":
        del rows[rng.randrange(3)][rng.randrange(3)]
    elif how == "long":
        rows[rng.randrange(3)].append(rng.choice([0, 1]))
    elif how == "last":
        rows[2] = rng.choice([[0, 0, 2], [1, 0, 1], [0, 1, 1], [0, 0, 0], [0, 1, 0], [0, 0, -1], [0.5, 0, 1], [0, 0, 1.25]])
    elif how == "elem":
        rows[rng.randrange(2)][rng.randrange(3)] = rng.choice(["1", None, 1j, b"1", [1], (1,), "x"])
    elif how == "scalar":
        rows = rng.choice([1, None, 2.5])
    elif how == "flat":
        rows = [1, 0, 0]
    else:
        rows = []
    ctx.raises(Exception, lambda: TxMatrix(rows), "matrix %r (%s)" % (rows, how))
    ctx.count("refused")
    ctx.seen(repr(rows))


WORKLOADS = [
    Workload("products", products, 24000, 150000),
    Workload("scalars", scalars, 18000, 100000),
    Workload("angles", angles, 15000, 80000),
    Workload("named", named, 2400, 4000),
    Workload("refused", refused, 7200, 20000),
]
