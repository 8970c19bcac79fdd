"""C22: the variables tool edits files losslessly."""
import copy
import json
import os

from dustmaker import variable as V
from dustmaker.cmd.variables import json_to_variables, variables_to_json

from ..core import REPO, Workload
from .. import cli, dm, gen, refcodec, streams
from . import c08

PID = "C22"
RULE = ("variable trees of every type and nesting (empty and nested arrays, arrays of differing structs) through the JSON conversion; "
        "variable files and levels (independent encoder, dustmaker, shipped level, without regions) dumped and loaded back with the real "
        "tool, edited documents, files from scratch, and documents that cannot be applied; files decoded independently and compared; "
        "non-trivial: the tree or file has variables; distinct by content")
REQUIRED = {"trees": 4000, "nested_arrays": 400, "conflicting": 100, "dump_load": 500, "edits": 400, "levels": 300, "empty_levels": 30,
            "failed_updates": 500, "from_scratch": 100, "unknown_headers": 60, "processes": 8}
ASSUMPTIONS = ["a document that names the same struct key with two types inside one array may be refused"]

HEADERS = [b"DF_STA", b"DF_CFG", b"DF_FOG"]


# ------------------------------------------------ independent JSON form
class Conflict(Exception):
    pass


def jvar(p):
    k, v = p
    if k == "string":
        return v.decode("latin1")
    if k == "vec2":
        return list(v)
    if k == "struct":
        return {key: jvar(s) for key, s in v}
    if k == "array":
        return [jvar(e) for e in v[1]]
    return v


def shape(p):
    """Types seen in a tree; raises if one place has two types."""
    k, v = p
    if k == "struct":
        return ("struct", {key: shape(s) for key, s in v})
    if k == "array":
        acc = ("array", None) if v[0] == "array" else ("struct", {}) if v[0] == "struct" else (v[0],)
        for e in v[1]:
            acc = join(acc, shape(e))
        return ("array", acc)
    return (k,)


def join(a, b):
    if a is None or b is None:
        return a or b
    if a[0] != b[0]:
        raise Conflict()
    if a[0] == "array":
        return ("array", join(a[1], b[1]))
    if a[0] == "struct":
        return ("struct", {k: join(a[1].get(k), b[1].get(k)) for k in {**a[1], **b[1]}})
    return a


def schema(s):
    """Schema document of a shape, as the tool documents it."""
    if s[0] == "array":
        return [] if s[1] is None else [schema(s[1])]
    if s[0] == "struct":
        return {k: schema(v) for k, v in s[1].items()}
    return s[0]


def document(items):
    root = ("struct", items)
    return {"vars": jvar(root), "schema": schema(shape(root))}


def consistent(p):
    try:
        shape(p)
        return True
    except Conflict:
        return False


def deep(rng, depth=3):
    """A tree in which arrays of arrays and arrays of structs are common, and
    which usually keeps one type per place."""
    def odd():
        return rng.choice([("struct", []), ("array", ("int", [])), ("array", ("struct", [])), ("array", ("array", [])), ("struct", [("a", ("int", 1))]), gen.var(rng, 1)])

    def mk(t):
        if t[0] == "array":
            return ("array", (t[1][0], [mk(t[1]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]))
        if t[0] == "struct":
            return ("struct", [(k, mk(v) if rng.random() < 0.97 else odd()) for k, v in t[1] if rng.random() < 0.75])
        return gen.var(rng, 0, t[0])

    def typ(d):
        r = rng.random()
        if d == 0 or r < 0.25:
            return (rng.choice(gen.SCALARS),)
        if r < 0.7:
            return ("array", typ(d - 1))
        return ("struct", [(k, typ(d - 1)) for k in {gen.name(rng, 1, 6) for _ in range(rng.randrange(4))}])
    return mk(typ(depth))


def nested(p):
    k, v = p
    if k == "array":
        return v[0] == "array" or any(nested(e) for e in v[1])
    return k == "struct" and any(nested(s) for _, s in v)


def through_json(x):
    return json.loads(json.dumps(x))


def trees(ctx):
    rng = ctx.rng
    for _ in range(12):
        p = deep(rng) if rng.random() < 0.6 else gen.var(rng, 3)
        var = dm.to_var(p)
        ok = consistent(p)
        try:
            sch, jv = variables_to_json(var)
        except ValueError:
            ctx.check(not ok, "a tree with one type per place is converted", p)
            ctx.count("conflicting")
            continue
        ctx.equal(dm.from_var(var), p, "the variable being converted is unchanged")
        ctx.equal(jv, jvar(p), "JSON values")
        back = json_to_variables(through_json(sch), through_json(jv))
        ctx.equal(dm.from_var(back), p, "variable after conversion to JSON and back", sch)
        ctx.check(back == var, "converted variable compares equal")
        ctx.count("trees")
        if nested(p):
            ctx.count("nested_arrays")
        ctx.seen(repr(p))
    ctx.sample(p)


# ------------------------------------------------------------- files
def accepted(rng, depth=2):
    while True:
        items = gen.struct(rng, depth) if rng.random() < 0.5 else [(gen.name(rng), deep(rng)) for _ in range(3)]
        if rng.random() < 0.015:
            items = gen.big_vars(rng)
        items = list(dict(items).items())
        if consistent(("struct", items)):
            return items


def varfile(ctx):
    rng = ctx.rng
    h = rng.choice(HEADERS)
    items = accepted(rng)
    if rng.random() < 0.5:
        data = refcodec.enc_varfile(h, items)
    else:
        import io
        from dustmaker import DFWriter
        buf = io.BytesIO()
        with DFWriter(buf, noclose=True) as w:
            w.write_var_file(h, dm.to_map(items))
        data = buf.getvalue()
    return h, items, data


def levelfile(ctx):
    rng = ctx.rng
    items = accepted(rng)
    items = [kv for kv in items if kv[0] != "level_type"] + [("pad{%d" % i, ("bool", True)) for i in range(rng.randrange(8))]
    if rng.random() < 0.15:
        m = {"vars": items, "sshot": gen.bstr(rng), "tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}
        data = dm.write_level_bytes(dm.to_level(m))
        ctx.count("empty_levels")
    elif rng.random() < 0.6:
        lv, opts, want = c08.make(ctx, 0.4)
        lv["vars"] = items
        if lv["version"] > 43 and rng.random() < 0.05:
            lv["sshot"] = rng.randbytes(rng.choice([65535, 65536, 100000]))
        data = refcodec.enc_level(lv, opts)
    else:
        m = gen.level(rng, size=0.4)
        m["vars"] = items
        data = dm.write_level_bytes(dm.to_level(m, rng))
    ctx.count("levels")
    return items, data


def rest(data):
    """What a level file holds besides its variables."""
    d = refcodec.dec_level(data)
    return {"thumbnail": d["sshot"], "regions": d["regbytes"], "directory": d["dir"], "count": d["nregions"]}, d


def norm(items):
    return dm.sort_struct(("struct", list(items)))


def dump(ctx, path, *opts, runner=cli.run):
    before = streams.getbytes(path)
    r = runner("variables", path, *opts)
    ctx.equal(r.code, 0, "exit code of a dump", r)
    ctx.equal(streams.getbytes(path), before, "file after its variables were dumped")
    return r.out


def verify(ctx, path, before, items, header, label):
    after = streams.getbytes(path)
    if header == b"DF_LVL":
        want, b = rest(before)
        got, a = rest(after)
        for k in want:
            ctx.equal(got[k], want[k], "%s: %s of the level" % (label, k))
        ctx.equal(a["size"], len(after), "%s: size field" % label)
        ctx.equal(a["nextid"], max(b["nextid"], 101), "%s: next id" % label)
        ctx.equal(norm(a["vars"]), norm(items), "%s: variables" % label)
    else:
        got = refcodec.dec_varfile(after, header)
        ctx.equal(norm(got["vars"] if isinstance(got, dict) else got), norm(items), "%s: variables" % label)
    return after


def pick(ctx):
    if ctx.rng.random() < 0.5:
        return varfile(ctx)
    items, data = levelfile(ctx)
    return b"DF_LVL", items, data


def dump_load(ctx):
    rng = ctx.rng
    h, items, data = pick(ctx)
    with streams.Scratch() as d:
        p = streams.putbytes(os.path.join(d, "object"), data)
        j = os.path.join(d, "doc.json")
        indent = rng.choice([None, 0, 2, 4, 1])
        text = dump(ctx, p, *([] if indent is None else ["--indent", indent]))
        doc = json.loads(text)
        ctx.equal(doc["vars"], jvar(("struct", items)), "dumped variables")
        if indent == 0:
            ctx.check("\n" not in text.strip(), "--indent 0 does no indentation", text)
        elif items:
            ctx.check("\n" + " " * (indent or 4) + '"' in text, "--indent %s indents" % indent, text[:80])
        streams.putbytes(j, text.encode("utf8"))
        r = cli.run("variables", p, j)
        ctx.equal(r.code, 0, "exit code of an update", r)
        after = verify(ctx, p, data, items, h, "dumped and loaded back")
        # a second pass has nothing left to normalise
        ctx.equal(dump(ctx, p, "--indent", 0), json.dumps(doc), "second dump")
        r = cli.run("variables", p, j)
        ctx.equal((r.code, streams.getbytes(p)), (0, after), "loading the same document twice")
        ctx.count("dump_load")
        ctx.sample(doc)
        if items:
            ctx.seen(data)


def scalars(p, path=()):
    k, v = p
    if k == "struct":
        for key, s in v:
            yield from scalars(s, path + (key,))
    elif k == "array":
        for i, e in enumerate(v[1]):
            yield from scalars(e, path + (i,))
    else:
        yield path, k


def put(p, path, value):
    k, v = p
    if not path:
        return (k, value)
    if k == "struct":
        return (k, [(key, put(s, path[1:], value) if key == path[0] else s) for key, s in v])
    return (k, (v[0], [put(e, path[1:], value) if i == path[0] else e for i, e in enumerate(v[1])]))


def edits(ctx):
    """Edit the dumped document by hand; only that changes in the file."""
    rng = ctx.rng
    h, items, data = pick(ctx)
    with streams.Scratch() as d:
        p = streams.putbytes(os.path.join(d, "object"), data)
        doc = json.loads(dump(ctx, p))
        want = ("struct", items)
        for _ in range(rng.choice([1, 1, 2, 4])):
            r = rng.random()
            places = list(scalars(want))
            if r < 0.5 and places:
                path, kind = rng.choice(places)
                new = gen.var(rng, 0, kind)
                want = put(want, path, new[1])
                at = doc["vars"]
                for s in path[:-1]:
                    at = at[s]
                at[path[-1]] = jvar(new)
            elif r < 0.7:
                k, v = gen.name(rng), gen.var(rng, 0)
                if k in doc["vars"]:
                    continue
                want = ("struct", want[1] + [(k, v)])
                doc["vars"][k] = jvar(v)
                doc["schema"][k] = v[0]
            elif want[1]:
                k = rng.choice(want[1])[0]
                want = ("struct", [kv for kv in want[1] if kv[0] != k])
                del doc["vars"][k]
                if rng.random() < 0.5:
                    del doc["schema"][k]
        j = streams.putbytes(os.path.join(d, "doc.json"), json.dumps(doc, ensure_ascii=rng.random() < 0.5).encode("utf8"))
        r = cli.run("variables", p, j)
        ctx.equal(r.code, 0, "exit code of an update", r, doc)
        verify(ctx, p, data, want[1], h, "edited")
        ctx.count("edits")
        ctx.seen(repr(doc))


def scratch_files(ctx):
    rng = ctx.rng
    items = accepted(rng)
    h = rng.choice(HEADERS)
    with streams.Scratch() as d:
        p = os.path.join(d, "new")
        old = rng.choice([None, b"", rng.randbytes(500), varfile(ctx)[2], levelfile(ctx)[1]])
        if old is not None:
            streams.putbytes(p, old)
        j = streams.putbytes(os.path.join(d, "doc.json"), json.dumps(document(items)).encode())
        r = cli.run("variables", p, j, "--header", h.decode())
        ctx.equal(r.code, 0, "exit code of a file written from scratch", r)
        data = streams.getbytes(p)
        verify(ctx, p, None, items, h, "from scratch")
        ctx.equal(json.loads(dump(ctx, p))["vars"], jvar(("struct", items)), "dump of it")
        ctx.count("from_scratch")
        # wrong header on top of it
        bad = rng.choice(["DF_LVL", "DF_XXX", "DF_ST", "DF_STAX", "df_sta", "DF_MTD", "DF_RPL"])
        r = cli.run("variables", p, j, "--header", bad)
        ctx.check(r.code != 0, "header %s is refused" % bad, r)
        ctx.equal(streams.getbytes(p), data, "file after a refused header")
        ctx.count("unknown_headers")
        # a file with an unknown header
        q = streams.putbytes(os.path.join(d, "other"), rng.choice([b"DF_XXX", b"DF_LVM", b"df_sta", b"DF_MTD", b"DF_RPL", b"DF_ST?", b"\0" * 6]) + rng.randbytes(60))
        other = streams.getbytes(q)
        r = cli.run("variables", q)
        ctx.check(r.code != 0, "dump of an unknown file is refused", r)
        r = cli.run("variables", q, j)
        ctx.check(r.code != 0, "update of an unknown file is refused", r)
        ctx.equal(streams.getbytes(q), other, "unknown file after refusals")


def broken_docs(rng, doc):
    """(document text, must fail) pairs: documents that cannot be applied."""
    def d(**kw):
        x = copy.deepcopy(doc)
        x.update(kw)
        return x

    k = gen.name(rng, 1, 8)

    def add(s, v, key=None):
        x = copy.deepcopy(doc)
        kk = k if key is None else key
        x["schema"][kk], x["vars"][kk] = s, v
        return x
    good = json.dumps(doc)
    yield good[:rng.randrange(len(good))], True
    yield "", True
    yield "not json", True
    yield json.dumps({"vars": doc["vars"]}), True
    yield json.dumps({"schema": doc["schema"]}), True
    yield json.dumps([1, 2]), True
    x = add("int", 1)
    del x["schema"][k]
    yield json.dumps(x), True
    yield json.dumps(add("nosuchtype", 1)), True
    yield json.dumps(add("int", "abc")), True
    yield json.dumps(add("int", None)), True
    yield json.dumps(add("int", [1])), True
    yield json.dumps(add("string", 7)), True
    yield json.dumps(add("string", "\u20ac")), True
    yield json.dumps(add("vec2", 3)), True
    yield json.dumps(add("vec2", ["a", "b"])), True
    yield json.dumps(add("float", "x")), True
    yield json.dumps(add(["int"], [1, "x"])), True
    yield json.dumps(add(["int"], 5)), True
    yield json.dumps(add({"a": "int"}, {"b": 1})), True
    yield json.dumps(add({"a": "int"}, 3)), True
    yield json.dumps(add("int", 1, "bad-key!")), True
    yield json.dumps(add("int", 1, "k" * 64)), True
    yield json.dumps(add("int", 1, "\u00e9")), True
    yield json.dumps(add(["int"], [1] * 65536)), True
    yield json.dumps({"schema": ["int"], "vars": [1, 2]}), True
    yield json.dumps({"schema": "int", "vars": 1}), True
    yield json.dumps({"schema": "string", "vars": "abc"}), True
    yield json.dumps(add("int", 2**40)), True
    yield json.dumps(add("float", 1e300)), True
    yield json.dumps(add("float", float("nan"))), True
    yield json.dumps(add("uint", -1)), True
    yield json.dumps(add("vec2", [1])), True
    yield json.dumps(add("vec2", [1, 2, 3])), True
    yield json.dumps(add("vec2", [1.5, 2.5, 3.5])), True
    yield json.dumps(add("vec2", [1.5])), True
    yield json.dumps(add(["vec2"], [[1.5, 2.5], [1.5, 2.5, 0.0]])), True
    yield json.dumps(add("int", 2**31)), True
    yield json.dumps(add("uint", 2**32)), True
    yield json.dumps(add("bool", "yes")), True
    yield json.dumps(add([], [])), False
    yield json.dumps(add([], [1])), False
    yield json.dumps(d(vars=None)), False
    yield json.dumps(d(schema=None)), False
    yield json.dumps(d(vars=[])), False


def failing(ctx):
    rng = ctx.rng
    h, items, data = pick(ctx)
    with streams.Scratch() as d:
        p = streams.putbytes(os.path.join(d, "object"), data)
        j = os.path.join(d, "doc.json")
        doc = document(items)
        for text, must in broken_docs(rng, doc):
            streams.putbytes(j, text.encode("utf8"))
            opts = ["--header", rng.choice(HEADERS).decode()] if rng.random() < 0.2 else []
            r = cli.run("variables", p, j, *opts)
            if must:
                ctx.check(r.code != 0, "a document that cannot be applied is refused", text[-300:], r)
            if r.code != 0:
                ctx.equal(streams.getbytes(p), data, "file after a failed update", text[-300:], r)
                ctx.count("failed_updates")
            else:
                streams.putbytes(p, data)
        r = cli.run("variables", p, os.path.join(d, "nosuchfile"))
        ctx.check(r.code != 0, "missing document is refused")
        streams.putbytes(j, json.dumps(doc).encode())
        ctx.check(cli.run("variables", os.path.join(d, "nothere"), j).code != 0, "missing object is refused")
        ctx.equal(streams.getbytes(p), data, "file after failed updates")
        # a damaged object
        cut = data[:rng.randrange(6, len(data))]
        streams.putbytes(p, cut)
        r = cli.run("variables", p, j)
        if h == b"DF_LVL":
            # the rest of the level cannot be kept
            ctx.check(r.code != 0, "updating a level cut at %d of %d bytes is refused" % (len(cut), len(data)), r)
            ctx.count("cut_levels")
        if r.code != 0:
            ctx.equal(streams.getbytes(p), cut, "damaged object after a failed update")
        ctx.seen(data)


def process(ctx):
    """Through a real interpreter and both entry points."""
    rng = ctx.rng
    with streams.Scratch() as d:
        if ctx.index == 0:
            data, h = streams.getbytes(os.path.join(REPO, "tests", "downhill")), b"DF_LVL"
            items = refcodec.dec_level(data)["vars"]
        else:
            h, items, data = pick(ctx)
        p = streams.putbytes(os.path.join(d, "object"), data)

        def runner(*a):
            ctx.count("processes")
            if ctx.index % 2:
                return cli.spawn(*a, cwd=d)
            return cli.spawn(*a[1:], module="dustmaker.cmd.variables", cwd=d)
        text = dump(ctx, p, runner=runner)
        j = streams.putbytes(os.path.join(d, "doc.json"), text.encode())
        r = runner("variables", p, j)
        ctx.equal(r.code, 0, "exit code of an update", r)
        verify(ctx, p, data, items, h, "dumped and loaded back")
        now = streams.getbytes(p)
        streams.putbytes(j, b"{")
        r = runner("variables", p, j)
        ctx.check(r.code != 0, "bad document is refused", r)
        ctx.equal(streams.getbytes(p), now, "file after a failed update")


WORKLOADS = [
    Workload("trees", trees, 2000, 40000),
    Workload("dump_load", dump_load, 1800, 20000),
    Workload("edits", edits, 1400, 20000),
    Workload("scratch", scratch_files, 400, 4000),
    Workload("failing", failing, 120, 1500),
    Workload("process", process, 6, 60),
]
