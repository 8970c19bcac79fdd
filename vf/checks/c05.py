"""C05: variables behave as typed values and arrays as sequences."""
import copy

from dustmaker import variable as V

from ..core import Workload
from .. import gen
from ..dm import CLS, from_var, sort_struct, to_var

PID = "C05"
RULE = ("pairs of random, cloned, reordered and minimally mutated variable trees for equality and hashing; every type against "
        "ill-typed and out-of-range values, at construction, after mutation and nested; histories of up to 80 sequence "
        "operations on arrays of every element type run in lockstep with a Python list; non-trivial: containers, or histories "
        "that changed the array; distinct by content")
REQUIRED = {"pairs": 5000, "equal_pairs": 1500, "hashes": 5000, "container_hashes": 1000, "bad_values": 2000, "sequence_ops": 40000}


def mutate(rng, p):
    """A tree that differs from p in exactly one place."""
    k, v = p
    if k == "bool":
        return rng.choice([(k, not v), ("int", int(v))])
    if k in ("int", "uint"):
        return rng.choice([(k, v ^ 1 if k == "uint" else (v ^ 1)), ("uint" if k == "int" and v >= 0 else "int", v if v < 2**31 else 5)]
                          if not (k == "int" and v < 0) else [(k, v ^ 1)])
    if k == "float":
        return (k, v + 1.0)
    if k == "string":
        return (k, v + b"\0") if rng.random() < 0.5 or not v else (k, v[:-1])
    if k == "vec2":
        return (k, (v[0], v[1] + 1.0)) if rng.random() < 0.5 else (k, (v[0] + 1.0, v[1]))
    if k == "struct":
        v = list(v)
        if v and rng.random() < 0.7:
            i = rng.randrange(len(v))
            if rng.random() < 0.3:
                del v[i]
            else:
                v[i] = (v[i][0], mutate(rng, v[i][1]))
        else:
            v.append(("zz{added", ("bool", False)))
        return (k, v)
    ek, items = v
    items = list(items)
    if items and rng.random() < 0.7:
        i = rng.randrange(len(items))
        r = rng.random()
        if r < 0.4:
            del items[i]
        else:
            m = mutate(rng, items[i])
            items[i] = m if m[0] == ek else items[i]
            if m[0] != ek:
                items.append(items[i])
    elif items:
        items.append(items[0])
    else:
        ek = "int" if ek != "int" else "uint"
    return (k, (ek, items))


def shuffled(rng, p):
    k, v = p
    if k == "struct":
        v = [(a, shuffled(rng, b)) for a, b in v]
        rng.shuffle(v)
        return (k, v)
    if k == "array":
        return (k, (v[0], [shuffled(rng, e) for e in v[1]]))
    return p


def equality(ctx):
    rng = ctx.rng
    p = gen.var(rng, rng.randrange(4))
    ctx.sample(p)
    others = [p, shuffled(rng, p), mutate(rng, p), mutate(rng, mutate(rng, p)), gen.var(rng, rng.randrange(3))]
    a = to_var(p)
    for q in others:
        b = to_var(q)
        want = sort_struct(p) == sort_struct(q)
        ctx.count("pairs")
        ctx.equal(a == b, want, "equality of variables", p, q)
        ctx.equal(b == a, want, "equality of variables (other way round)", p, q)
        ctx.equal(a != b, not want, "inequality of variables", p, q)
        if want:
            ctx.count("equal_pairs")
            ctx.equal(hash(a), hash(b), "hashes of equal variables", p, q)
            ctx.count("hashes")
            if p[0] in ("struct", "array"):
                ctx.count("container_hashes")
                ctx.seen((p, q))
            ctx.equal(len({a, b}), 1, "equal variables in a set", p, q)
            ctx.equal({a: 1}.get(b), 1, "dict lookup by an equal variable", p, q)
        else:
            ctx.equal(len({a, b}), 2, "different variables in a set", p, q)
    ctx.check(a == copy.deepcopy(a) and hash(a) == hash(copy.deepcopy(a)), "a deep copy is equal and hashes equally", p)
    for other in (None, p[1], 0, "x", b"", object()):
        ctx.check(not (a == other) and a != other, "a variable is not equal to a non-variable", p, other)
    ctx.equal(from_var(a), p, "comparing does not change the variable")


BADS = {
    "bool": [0, 1, None, "True", 1.0, b"", [], (True,)],
    "int": [2**31, -2**31 - 1, 1.0, "1", None, b"1", 2**40, -2**63, [1], (1,)],
    "uint": [-1, 2**32, 1.5, "1", None, 2**33, -2**31, b"", [2]],
    "float": [1, 0, "1.0", None, True, b"", 10**400, (1.0,), 1j],
    "string": ["text", None, 1, ["a"], bytearray(b"x"), (b"a",), memoryview(b"a")],
    "vec2": [(1, 2), (1.0, 2), (1, 2.0), [1.0, 2.0], (1.0,), (1.0, 2.0, 3.0), None, 1.0, "ab", (None, 1.0), ()],
}
GOODS = {
    "bool": [True, False], "int": [0, 1, -1, 2**31 - 1, -2**31], "uint": [0, 1, 2**31, 2**32 - 1],
    "float": [0.0, -0.0, 1.5, -1e9, 1e-20], "string": [b"", b"a\0b", bytes(70000)], "vec2": [(0.0, 1.0), (-1.5, 1e9)],
}
BAD_STRUCTS = [{1: V.VariableInt(1)}, {"a": 1}, {"a": None}, {b"a": V.VariableInt(1)}, {None: V.VariableInt(1)}, {"a": V.VariableInt(1), "b": "x"}]
FAIL = (AssertionError, ValueError, TypeError)


def validation(ctx):
    rng = ctx.rng
    k = gen.SCALARS[ctx.index % 6]
    bad = BADS[k][(ctx.index // 6) % len(BADS[k])]
    good = rng.choice(GOODS[k])
    ctx.count("bad_values")
    ctx.raises(FAIL, lambda: CLS[k](bad), "%s(%r) must fail" % (CLS[k].__name__, bad))
    v = CLS[k](good)
    ctx.equal(v.value, good, "stored value")
    v.assert_types()
    # nested validation after mutation
    inner = CLS[k](good)
    outer = inner
    for _ in range(rng.randrange(4)):
        if rng.random() < 0.5:
            outer = V.VariableStruct({"first": V.VariableInt(3), "k": outer, "last": V.VariableBool(True)})
        else:
            outer = V.VariableArray(type(outer), [copy.deepcopy(outer), outer])
    outer.assert_types()
    inner.value = bad
    ctx.count("bad_values")
    ctx.raises(ValueError, outer.assert_types, "validating a tree holding %s value %r must fail" % (k, bad), outer)
    ctx.raises(FAIL, lambda: V.VariableStruct({"x": outer}), "building around an invalid variable must fail")
    ctx.raises(FAIL, lambda: V.VariableArray(type(outer), [outer]), "building around an invalid variable must fail")
    inner.value = good
    outer.assert_types()
    # ill-typed containers
    ctx.count("bad_values", 4)
    bs = BAD_STRUCTS[ctx.index % len(BAD_STRUCTS)]
    ctx.raises(FAIL, lambda: V.VariableStruct(bs), "VariableStruct(%r) must fail" % bs)
    other = rng.choice([o for o in CLS if o != k])
    ov = to_var(gen.var(rng, 1, other))
    ctx.raises(FAIL, lambda: V.VariableArray(CLS[k], [CLS[k](good), ov]), "array of %s holding a %s must fail" % (k, other))
    ctx.raises(FAIL, lambda: V.VariableArray(CLS[k], [good]), "array holding a bare value must fail", good)
    ctx.raises(FAIL, lambda: V.VariableArray(rng.choice([int, None, "VariableInt", 3]), []), "array of a non-variable type must fail")
    for c in (V.VariableStruct(), V.VariableArray(V.VariableInt)):
        c.value = rng.choice([None, 3, [], "x"])
        ctx.raises(ValueError, c.assert_types, "container with a bad value must fail validation", c.value)
    ctx.seen((k, repr(bad)[:80], repr(good)[:80]))


DEFAULTS = {"bool": False, "int": 0, "uint": 0, "float": 0.0, "string": b"", "vec2": (0.0, 0.0)}


def plain_value(rng, k):
    """Unboxed Python value of kind k."""
    p = gen.var(rng, 1, k)
    return to_var(p).value


def canon(k, v):
    """Comparable copy of an unboxed value."""
    if k == "struct":
        return ("struct", sorted((n, sort_struct(from_var(x))) for n, x in v.items()))
    if k == "array":
        return ("array", v[0].__name__, [sort_struct(from_var(x)) for x in v[1]])
    return (type(v).__name__, v)


def sequence(ctx):
    rng = ctx.rng
    k = list(CLS)[ctx.index % 8]
    n0 = rng.choice([0, 0, 1, 3, 8])
    init = [plain_value(rng, k) for _ in range(n0)]
    cls = CLS[k]
    box = (lambda v: cls(*v)) if k == "array" else cls
    src = [box(v) for v in init]
    arr = V.VariableArray(cls, src) if init or rng.random() < 0.5 else V.VariableArray(cls)
    ref = [copy.deepcopy(v) for v in init]
    hist = []

    def state(x):
        return [canon(k, v) for v in x]

    def both(fa, fr, label):
        """Same outcome, including the exception type."""
        try:
            want, werr = fr(), None
        except (IndexError, ValueError) as e:
            want, werr = None, type(e)
        try:
            got, gerr = fa(), None
        except Exception as e:
            got, gerr = None, type(e)
        ctx.equal(gerr, werr, "%s: exception" % label, k, hist)
        return got, want

    changed = False
    for _ in range(rng.randrange(5, 80)):
        op = rng.choice(["append", "append", "insert", "set", "del", "pop", "popi", "get", "extend", "iadd", "remove", "reverse",
                         "index", "count", "contains", "iter", "reversed", "len", "clear", "bad", "delslice", "eq"])
        v = plain_value(rng, k) if not ref or rng.random() < 0.6 else copy.deepcopy(rng.choice(ref))
        i = rng.choice([0, -1, len(ref), -len(ref), -len(ref) - 1, rng.randrange(-10, 10)])
        hist.append((op, i))
        ctx.count("sequence_ops")
        if op == "append":
            both(lambda: arr.append(v), lambda: ref.append(copy.deepcopy(v)), op)
        elif op == "insert":
            both(lambda: arr.insert(i, v), lambda: ref.insert(i, copy.deepcopy(v)), op)
        elif op == "set":
            both(lambda: arr.__setitem__(i, v), lambda: ref.__setitem__(i, copy.deepcopy(v)), op)
        elif op == "del":
            both(lambda: arr.__delitem__(i), lambda: ref.__delitem__(i), op)
        elif op == "delslice":
            s = slice(rng.choice([None, i]), rng.choice([None, i + 2]), rng.choice([None, 1, 2, -1]))
            both(lambda: arr.__delitem__(s), lambda: ref.__delitem__(s), op)
        elif op == "pop":
            g, w = both(lambda: arr.pop(), lambda: ref.pop(), op)
            if w is not None:
                ctx.equal(canon(k, g), canon(k, w), "popped value", hist)
        elif op == "popi":
            g, w = both(lambda: arr.pop(i), lambda: ref.pop(i), op)
            if w is not None:
                ctx.equal(canon(k, g), canon(k, w), "popped value", hist)
        elif op == "get":
            g, w = both(lambda: arr[i], lambda: ref[i], op)
            if w is not None:
                ctx.equal(canon(k, g), canon(k, w), "element %d" % i, hist)
        elif op == "extend":
            vs = [v, plain_value(rng, k)]
            arr.extend(vs if rng.random() < 0.5 else iter(vs))
            ref.extend(copy.deepcopy(vs))
        elif op == "iadd":
            arr += [v]
            ref += [copy.deepcopy(v)]
        elif op == "remove":
            both(lambda: arr.remove(v), lambda: ref.remove(v), op)
        elif op == "reverse":
            arr.reverse()
            ref.reverse()
        elif op == "index":
            g, w = both(lambda: arr.index(v), lambda: ref.index(v), op)
            ctx.equal(g, w, "index", hist)
        elif op == "count":
            ctx.equal(arr.count(v), ref.count(v), "count", hist)
        elif op == "contains":
            ctx.equal(v in arr, v in ref, "containment", hist)
        elif op == "reversed":
            ctx.equal(state(reversed(arr)), state(reversed(ref)), "reversed iteration", hist)
        elif op == "clear":
            if rng.random() < 0.3:
                arr.clear()
                ref.clear()
        elif op == "bad":
            bad = rng.choice(BADS.get(k, [5, "x", 1.5, [1]]))
            if rng.random() < 0.3:  # a boxed value of another type
                bad = to_var(gen.var(rng, 0, rng.choice([o for o in gen.SCALARS if o != k])))
            m = rng.randrange(3)
            if m == 0:
                ctx.raises(Exception, lambda: arr.append(bad), "appending %r to an array of %s must fail" % (bad, k), hist)
            elif m == 1:
                ctx.raises(Exception, lambda: arr.insert(0, bad), "inserting %r into an array of %s must fail" % (bad, k), hist)
            elif ref:
                ctx.raises(Exception, lambda: arr.__setitem__(0, bad), "storing %r into an array of %s must fail" % (bad, k), hist)
        elif op == "eq":
            same = V.VariableArray(cls, [box(copy.deepcopy(x)) for x in ref])
            ctx.check(arr == same and hash(arr) == hash(same), "array equals one built from the same values", hist)
        changed = changed or op in ("append", "insert", "set", "pop")
        ctx.equal(len(arr), len(ref), "length after %s" % op, hist)
        ctx.equal(state(arr), state(ref), "contents after %s" % op, k, hist)
        ctx.check(arr.element_type is cls and all(type(e) is cls for e in arr.value[1]), "elements are variables of the element type", hist)
        arr.assert_types()
    ctx.equal(len(src), n0, "the list given to the constructor is not changed", hist)
    ctx.sample((k, hist[:10]))
    if changed:
        ctx.seen((k, init, hist))


def misc(ctx):
    """Defaults, and distinct element types of empty arrays."""
    for k, d in DEFAULTS.items():
        ctx.equal(CLS[k]().value, d, "default value of %s" % k)
    ctx.equal(V.VariableStruct().value, {}, "default struct")
    empties = [V.VariableArray(CLS[k]) for k in CLS]
    for i, a in enumerate(empties):
        for j, b in enumerate(empties):
            ctx.equal(a == b, i == j, "equality of empty arrays of %s and %s" % (list(CLS)[i], list(CLS)[j]))
    zeros = [V.VariableBool(False), V.VariableInt(0), V.VariableUInt(0), V.VariableFloat(0.0)]
    for i, a in enumerate(zeros):
        for j, b in enumerate(zeros):
            ctx.equal(a == b, i == j, "equality across types with equal Python values")
    x, y = V.VariableStruct(), V.VariableStruct()
    x.value["a"] = V.VariableInt(1)
    ctx.equal(y.value, {}, "default structs are separate")
    ctx.seen(0)


WORKLOADS = [
    Workload("equality", equality, 24000, 60000),
    Workload("validation", validation, 10800, 20000),
    Workload("sequence", sequence, 14400, 40000),
    Workload("misc", misc, 1, 1),
]
