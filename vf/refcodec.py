"""Independent codec of the Dustforce formats over plain Python data.

Plain variables are tuples (kind, value):
  ("bool", b) ("int", i) ("uint", i) ("float", x) ("string", bytes)
  ("vec2", (x, y)) ("struct", [(key, var), ...]) ("array", (kind, [var, ...]))
Floats are handled exactly through fractions.
"""
import zlib
from fractions import Fraction

from .refbits import BitsIn, FastOut, RefFormatError

CODE = {"bool": 1, "int": 2, "uint": 3, "float": 4, "string": 5, "vec2": 10, "struct": 14, "array": 15}
KIND = {v: k for k, v in CODE.items()}
ALPHA = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
AIDX = {c: i for i, c in enumerate(ALPHA)}
assert len(ALPHA) == 64


# ------------------------------------------------------------ primitives
def enc_name(o, s):
    o.u(6, len(s))
    for c in s:
        o.u(6, AIDX[c])


def dec_name(r):
    return "".join(ALPHA[r.u(6)] for _ in range(r.u(6)))


def enc_fixed(o, ibits, fbits, val, alt=None):
    """val = sign*ipart + fpart/2**(fbits-1), fpart an fbits-bit number.

    The fraction field reaches up to two, and zero has two signs, so most
    numbers have two or three encodings; with a generator one is drawn."""
    v = Fraction(val)
    one = 1 << (fbits - 1)
    fl = v.numerator // v.denominator
    frac = int((v - fl) * one)
    if alt:
        forms = [(s, abs(i), f) for i, f in ((fl, frac), (fl - 1, frac + one))
                 for s in ((0, 1) if i == 0 else (1 if i < 0 else 0,)) if abs(i) < (1 << (ibits - 1))]
        sign, ip, frac = alt.choice(forms)
    else:
        sign, ip = (1 if v < 0 else 0), abs(fl)
    o.u(1, sign)
    o.u(ibits - 1, ip)
    o.u(fbits, frac)


def dec_fixed(r, ibits, fbits):
    sign = -1 if r.u(1) else 1
    ip = r.u(ibits - 1)
    fp = r.u(fbits)
    return sign * ip + Fraction(fp, 1 << (fbits - 1))


# ------------------------------------------------------------- variables
PIECE = 65535


def _pieces(s):
    """A string is stored in pieces; a full piece announces another one."""
    out = [s[i:i + PIECE] for i in range(0, len(s), PIECE)]
    if not out or len(out[-1]) == PIECE:
        out.append(b"")
    return out


def enc_var(o, var, opts=None):
    k, v = var
    alt = opts["rng"] if opts and opts.get("altneg") and opts["rng"].random() < 0.5 else None
    if k == "bool":
        o.u(1, 1 if v else 0)
    elif k == "int":
        o.s(32, v)
    elif k == "uint":
        o.u(32, v)
    elif k == "float":
        enc_fixed(o, 32, 32, v, alt)
    elif k == "string":
        o.u(16, len(v))
        o.raw(v)
    elif k == "vec2":
        enc_fixed(o, 32, 32, v[0], alt)
        enc_fixed(o, 32, 32, v[1], alt)
    elif k == "array":
        ek, elems = v
        o.u(4, CODE[ek])
        if ek == "string":
            ps = [p for e in elems for p in _pieces(e[1])]
            o.u(16, len(ps))
            for p in ps:
                enc_var(o, ("string", p), opts)
        else:
            o.u(16, len(elems))
            for e in elems:
                enc_var(o, e, opts)
    elif k == "struct":
        for key, sub in v:
            if sub[0] == "string":
                for p in _pieces(sub[1]):
                    o.u(4, 5)
                    enc_name(o, key)
                    enc_var(o, ("string", p), opts)
            else:
                o.u(4, CODE[sub[0]])
                enc_name(o, key)
                enc_var(o, sub, opts)
        o.u(4, 0)
    else:
        raise ValueError(k)


def _kind(code):
    if code not in KIND:
        raise RefFormatError("reference: bad type code %d" % code)
    return KIND[code]


def dec_var(r, k):
    if k == "bool":
        return (k, bool(r.u(1)))
    if k == "int":
        return (k, r.s(32))
    if k == "uint":
        return (k, r.u(32))
    if k == "float":
        return (k, float(dec_fixed(r, 32, 32)))
    if k == "string":
        return (k, r.raw(r.u(16)))
    if k == "vec2":
        a = float(dec_fixed(r, 32, 32))
        return (k, (a, float(dec_fixed(r, 32, 32))))
    if k == "array":
        ek = _kind(r.u(4))
        n = r.u(16)
        items = [dec_var(r, ek) for _ in range(n)]
        if ek == "string":
            out, cur = [], None
            for _, piece in items:
                cur = piece if cur is None else cur + piece
                if len(piece) < PIECE:
                    out.append(("string", cur))
                    cur = None
            if cur is not None:
                out.append(("string", cur))
            items = out
        return (k, (ek, items))
    if k == "struct":
        out = []
        while True:
            code = r.u(4)
            if code == 0:
                break
            key = dec_name(r)
            sub = dec_var(r, _kind(code))
            if sub[0] == "string":
                val, piece = sub[1], sub[1]
                while len(piece) == PIECE:
                    if r.u(4) != 5 or dec_name(r) != key:
                        raise RefFormatError("reference: broken string continuation")
                    piece = dec_var(r, "string")[1]
                    val += piece
                sub = ("string", val)
            out.append((key, sub))
        return (k, out)
    raise RefFormatError(k)


def enc_varfile(header, items, opts=None, version=1):
    body = FastOut()
    enc_var(body, ("struct", items), opts)
    b = body.bytes()
    o = FastOut()
    o.raw(header)
    o.u(16, version)
    o.u(32, len(header) + 6 + len(b))
    o.raw(b)
    return o.bytes()


def dec_varfile(data, header):
    r = BitsIn(data)
    if r.raw(len(header)) != header:
        raise RefFormatError("header")
    version = r.u(16)
    size = r.u(32)
    items = dec_var(r, "struct")[1]
    r.align(zero=True)
    return {"version": version, "size": size, "vars": items, "end": r.pos // 8}


# ----------------------------------------------------------------- tiles
# Plain tile: dict shape, flags, set, tile, palette, edges (4 dicts).
# Plain edge: dict solid visible caps angles fset spike fcaps fangles, pairs
# in clockwise order.  In the file the two corners of the top and right edge
# are clockwise, those of the bottom and left edge counter-clockwise.
TOP, BOTTOM, LEFT, RIGHT = 0, 1, 2, 3


def blank_edge():
    return {"solid": False, "visible": False, "caps": (False, False), "angles": (0, 0),
            "fset": 0, "spike": False, "fcaps": (False, False), "fangles": (0, 0)}


def _file_order(side, pair):
    return (pair[1], pair[0]) if side in (BOTTOM, LEFT) else tuple(pair)


def enc_tile(t):
    b = bytearray(12)
    for side, e in enumerate(t["edges"]):
        b[0] |= (1 << side) if e["solid"] else 0
        b[0] |= (16 << side) if e["visible"] else 0
        c = _file_order(side, e["caps"])
        b[1] |= ((1 if c[0] else 0) | (2 if c[1] else 0)) << (2 * side)
        a = _file_order(side, e["angles"])
        b[2 + 2 * side] = a[0] % 256
        b[3 + 2 * side] = a[1] % 256
    b[10] = t["set"] | (t["palette"] << 4)
    b[11] = t["tile"]
    return bytes(b)


def _s8(v):
    return v - 256 if v > 127 else v


def dec_tile(shape, flags, b):
    t = {"shape": shape, "flags": flags, "set": b[10] & 15, "palette": b[10] >> 4, "tile": b[11], "edges": []}
    for side in range(4):
        e = blank_edge()
        e["solid"] = bool(b[0] >> side & 1)
        e["visible"] = bool(b[0] >> (4 + side) & 1)
        e["caps"] = _file_order(side, (bool(b[1] >> 2 * side & 1), bool(b[1] >> 2 * side & 2)))
        e["angles"] = _file_order(side, (_s8(b[2 + 2 * side]), _s8(b[3 + 2 * side])))
        t["edges"].append(e)
    return t


def enc_dust(t):
    b = bytearray(12)
    nib = 0
    for side, e in enumerate(t["edges"]):
        nib |= (e["fset"] | (8 if e["spike"] else 0)) << (4 * side)
        a = _file_order(side, e["fangles"])
        b[2 + 2 * side] = a[0] % 256
        b[3 + 2 * side] = a[1] % 256
        c = _file_order(side, e["fcaps"])
        b[10] |= ((1 if c[0] else 0) | (2 if c[1] else 0)) << (2 * side)
    b[0], b[1] = nib & 255, nib >> 8
    return bytes(b)


def dec_dust(t, b):
    nib = b[0] | b[1] << 8
    for side, e in enumerate(t["edges"]):
        v = nib >> (4 * side)
        e["fset"] = v & 7
        e["spike"] = bool(v & 8)
        e["fangles"] = _file_order(side, (_s8(b[2 + 2 * side]), _s8(b[3 + 2 * side])))
        e["fcaps"] = _file_order(side, (bool(b[10] >> 2 * side & 1), bool(b[10] >> 2 * side & 2)))


# -------------------------------------------------------------- segments
def scale_of(k):
    return 50.0 ** ((k - 32) / 24.0)


def dec_segment(data, pos, dustmod, want_end=None):
    """Decode one segment at bit pos -> dict with raw content."""
    r = BitsIn(data, pos)
    size, ver, sx, sy, w = r.u(32), r.u(16), r.u(8), r.u(8), r.u(8)
    s = {"size": size, "version": ver, "sx": sx, "sy": sy, "width": w,
         "tiles": [], "props": [], "entities": [], "dust": [], "totals": None, "pos": pos}
    tot = {}
    if ver > 4:
        tot["uid"], tot["dust"], tot["enemy"] = r.u(32), r.u(16), r.u(16)
    if ver > 5:
        tot["surface"], tot["dustblock"] = r.u(16), r.u(16)
    s["totals"] = tot
    flags = s["flags"] = r.u(32)
    index = {}
    if flags & 1:
        for _ in range(r.u(8)):
            layer = r.u(8)
            for _ in range(r.u(10)):
                x, y, shape, tf = r.u(5), r.u(5), r.u(5), r.u(3)
                t = dec_tile(shape, tf, r.raw(12))
                s["tiles"].append((layer, x, y, t))
                index[(layer, x, y)] = t
    if flags & 2:
        for _ in range(r.u(10)):
            x, y = r.u(5), r.u(5)
            b = r.raw(12)
            s["dust"].append((x, y))
            t = index.get((19, x, y))
            if t is not None:
                dec_dust(t, b)
    if flags & 8:
        for _ in range(r.u(16)):
            pid = r.s(32)
            if pid < 0:
                s["props"].append(None)
                continue
            p = {"id": pid, "layer": r.u(8), "sub": r.u(8)}
            if ver > 6 or dustmod:
                sx_, xi, xs = r.u(1), r.u(27), r.u(4)
                sy_, yi, ys = r.u(1), r.u(27), r.u(4)
                p["x"] = -xi if sx_ else xi
                p["y"] = -yi if sy_ else yi
                p["k"] = 7 * ((xs & 7) ^ 4) + ((ys & 7) ^ 4)
                p["scale"] = scale_of(p["k"])
            else:
                p["x"] = dec_fixed(r, 28, 4)
                p["y"] = dec_fixed(r, 28, 4)
                p["scale"] = 1.0
            p["rot"] = r.u(16)
            p["fx"], p["fy"] = bool(r.u(1)), bool(r.u(1))
            p["set"], p["group"], p["index"], p["palette"] = r.u(8), r.u(12), r.u(12), r.u(8)
            s["props"].append(p)
    ext = []
    if flags & 4:
        for _ in range(r.u(16)):
            eid = r.s(32)
            if eid < 0:
                s["entities"].append(None)
                continue
            e = {"id": eid, "type": dec_name(r)}
            e["x"], e["y"] = dec_fixed(r, 32, 8), dec_fixed(r, 32, 8)
            e["rot"], e["layer"] = r.u(16), r.u(8)
            e["fx"], e["fy"] = not r.u(1), not r.u(1)
            e["visible"] = bool(r.u(1))
            e["vars"] = dec_var(r, "struct")[1]
            if e["type"] == "entity" and ver > 7:
                ext.append(e)
            s["entities"].append(e)
        s["body_end"] = r.pos
        if ext:
            end = pos + 8 * size
            t = BitsIn(data, end - 32)
            back = t.u(32)
            t = BitsIn(data, end - 32 - back)
            s["names_pos"] = t.pos
            for e in ext:
                e["type"] = dec_name(t)
            s["names_end"] = t.pos
    s["body_end"] = s.get("body_end", r.pos)
    return s


def enc_segment(sx, sy, seg, ver=8, dustmod=False, opts=None):
    """Encode a segment; seg = dict tiles/props/entities(/dust) as decoded."""
    rng = opts.get("rng") if opts else None
    o = FastOut()
    flags = 0
    tiles = seg["tiles"]
    if tiles or (opts and opts.get("emptysections") and rng.random() < 0.3):
        flags |= 1
        layers = {}
        for layer, x, y, t in tiles:
            layers.setdefault(layer, []).append((x, y, t))
        o.u(8, len(layers))
        for layer, ts in layers.items():
            o.u(8, layer)
            o.u(10, len(ts))
            for x, y, t in ts:
                o.u(5, x)
                o.u(5, y)
                o.u(5, t["shape"])
                o.u(3, t["flags"])
                o.raw(enc_tile(t))
    dusts = [(x, y, t) for layer, x, y, t in tiles if layer == 19 and (any(e["fset"] for e in t["edges"]) or t.get("forcedust"))]
    if dusts:
        flags |= 2
        if rng is not None and opts.get("shuffle"):
            rng.shuffle(dusts)
        o.u(10, len(dusts))
        for x, y, t in dusts:
            o.u(5, x)
            o.u(5, y)
            o.raw(enc_dust(t))
    if seg["props"]:
        flags |= 8
        o.u(16, len(seg["props"]))
        for p in seg["props"]:
            if p is None:
                o.s(32, -(rng.choice([1, 2, 7, 1 << 31]) if rng else 1))
                continue
            o.s(32, p["id"])
            o.u(8, p["layer"])
            o.u(8, p["sub"])
            if ver > 6 or dustmod:
                high = min(p["k"] // 7, 7)
                for c, part in ((p["x"], high), (p["y"], p["k"] - 7 * high)):
                    o.u(1, 1 if c < 0 else 0)
                    o.u(27, abs(int(c)))
                    top = 8 if (rng is not None and opts.get("junkscale") and rng.random() < 0.5) else 0
                    o.u(4, (part ^ 4) | top)
            else:
                enc_fixed(o, 28, 4, p["x"], rng if rng and rng.random() < 0.5 else None)
                enc_fixed(o, 28, 4, p["y"], rng if rng and rng.random() < 0.5 else None)
            o.u(16, p["rot"])
            o.u(1, p["fx"])
            o.u(1, p["fy"])
            o.u(8, p["set"])
            o.u(12, p["group"])
            o.u(12, p["index"])
            o.u(8, p["palette"])
    tail = None
    if seg["entities"]:
        flags |= 4
        o.u(16, len(seg["entities"]))
        names = FastOut()
        has_ext = False
        for e in seg["entities"]:
            if e is None:
                o.s(32, -(rng.choice([1, 3, 1 << 31]) if rng else 1))
                continue
            o.s(32, e["id"])
            t = e["type"]
            if ver > 7 and (t.startswith("z_") or t == "entity" or e.get("ext")):
                has_ext = True
                enc_name(o, "entity")
                enc_name(names, t)
            else:
                enc_name(o, t)
            enc_fixed(o, 32, 8, e["x"], rng if rng and rng.random() < 0.5 else None)
            enc_fixed(o, 32, 8, e["y"], rng if rng and rng.random() < 0.5 else None)
            o.u(16, e["rot"])
            o.u(8, e["layer"])
            o.u(1, not e["fx"])
            o.u(1, not e["fy"])
            o.u(1, e["visible"])
            enc_var(o, ("struct", e["vars"]), opts)
        if ver > 7 and (has_ext or not (opts and opts.get("noexttail"))):
            tail = names
    if tail is not None:
        if opts and opts.get("junk"):
            o.u(rng.randrange(1, 40), 0)     # filler before the names
        np = o.n
        nb = tail.bytes()
        o.raw(nb)
        o.align()
        o.u(32, o.n - np)
    o.align()
    if opts and opts.get("segpad") and tail is None:
        o.raw(bytes(rng.randrange(0, 4)))
    body = o.bytes()
    h = FastOut()
    hlen = 9 + (8 if ver > 4 else 0) + (4 if ver > 5 else 0) + 4
    tot = seg.get("totals") or {}
    h.u(32, hlen + len(body))
    h.u(16, ver)
    h.u(8, sx)
    h.u(8, sy)
    h.u(8, seg.get("width", 16))
    if ver > 4:
        h.u(32, tot.get("uid", 0))
        h.u(16, tot.get("dust", 0))
        h.u(16, tot.get("enemy", 0))
    if ver > 5:
        h.u(16, tot.get("surface", 0))
        h.u(16, tot.get("dustblock", 0))
    h.u(32, flags)
    assert h.n == 8 * hlen
    return h.bytes() + body


# ---------------------------------------------------------------- levels
def dec_level(data, start=0):
    """Decode a whole level file (bytes) starting at byte `start`."""
    r = BitsIn(data, 8 * start)
    if r.raw(6) != b"DF_LVL":
        raise RefFormatError("magic")
    lv = {"version": r.u(16), "size": r.u(32), "nregions": r.u(32)}
    if r.raw(6) != b"DF_MTD":
        raise RefFormatError("metadata magic")
    lv["mver"], lv["moff"], lv["nextid"] = r.u(16), r.u(32), r.u(32)
    lv["propuid"], lv["saveuid"], lv["regionuid"] = r.u(32), r.u(32), r.u(32)
    lv["sshot"] = r.raw(r.u(32)) if lv["version"] > 43 else b""
    lv["vars"] = dec_var(r, "struct")[1]
    lv["dirpos"] = r.pos
    lv["dir"] = [r.u(32) for _ in range(lv["nregions"])]
    r.align()
    lv["regstart"] = r.pos // 8 - start
    lv["regions"] = []
    d = dict(lv["vars"])
    lt = d.get("level_type", ("int", 0))[1]
    dustmod = lt == 6
    p = r.pos // 8
    for _ in range(lv["nregions"]):
        h = BitsIn(data, 8 * p)
        reg = {"off": p - start - lv["regstart"], "len": h.u(32), "ulen": h.u(32), "x": h.s(16), "y": h.s(16),
               "ver": h.u(16), "nseg": h.u(16), "backdrop": bool(h.u(8)), "segments": []}
        comp = h.raw(reg["len"] - 17)
        dz = zlib.decompressobj()
        un = dz.decompress(comp)
        if not dz.eof:
            raise RefFormatError("incomplete region stream")
        reg["zunused"] = len(dz.unused_data)
        reg["actual_ulen"] = len(un)
        pos = 0
        for i in range(reg["nseg"] + (1 if reg["backdrop"] else 0)):
            # backdrop segments never use the parent's dustmod rule
            s = dec_segment(un, 8 * pos, dustmod if i < reg["nseg"] else False)
            s["is_backdrop"] = i >= reg["nseg"]
            pos += s["size"]
            reg["segments"].append(s)
        reg["consumed"] = pos
        p += reg["len"]
        lv["regions"].append(reg)
    lv["end"] = p - start
    lv["regbytes"] = bytes(data[start + lv["regstart"]:p])
    return lv


def level_content(lv):
    """Flatten decoded regions into the content model (later copies win)."""
    out = {"tiles": {}, "props": {}, "entities": {}, "btiles": {}, "bprops": {}}
    for reg in lv["regions"]:
        for s in reg["segments"]:
            b = s["is_backdrop"]
            n = 16 if b else 256
            ox, oy = reg["x"] * n + s["sx"] * 16, reg["y"] * n + s["sy"] * 16
            for layer, x, y, t in s["tiles"]:
                out["btiles" if b else "tiles"][(layer, ox + x, oy + y)] = t
            for p in s["props"]:
                if p is not None:
                    out["bprops" if b else "props"][p["id"]] = p
            for e in s["entities"]:
                if e is not None and not b:
                    out["entities"][e["id"]] = e
    return out


def enc_level(lv, opts=None):
    """lv: version, nextid, sshot, vars, regions=[{x,y,segments,(backdrop)}]
    with segments [(sx, sy, ver, seg)], backdrop (ver, seg) or None."""
    rng = opts.get("rng") if opts else None
    dustmod = dict(lv["vars"]).get("level_type", ("int", 0)) == ("int", 6)
    regs = []
    for reg in lv["regions"]:
        un = b""
        for sx, sy, ver, seg in reg["segments"]:
            un += enc_segment(sx, sy, seg, ver, dustmod, opts)
        if reg.get("backdrop") is not None:
            ver, seg = reg["backdrop"]
            un += enc_segment(0, 0, seg, ver, False, opts)
        comp = zlib.compress(un, rng.choice([0, 1, 6, 9]) if rng else 6)
        h = FastOut()
        h.u(32, 17 + len(comp))
        h.u(32, len(un))
        h.s(16, reg["x"])
        h.s(16, reg["y"])
        h.u(16, reg.get("ver", 14))
        h.u(16, len(reg["segments"]))
        h.u(8, 1 if reg.get("backdrop") is not None else 0)
        h.raw(comp)
        regs.append(h.bytes())
    o = FastOut()
    enc_var(o, ("struct", lv["vars"]), opts)
    off = 0
    for b in regs:
        o.u(32, off)
        off += len(b)
    o.align()
    mid = o.bytes()
    h = FastOut()
    sshot = lv.get("sshot", b"")
    hl = 6 + 2 + 4 + 4 + 28 + (4 + len(sshot) if lv["version"] > 43 else 0)
    h.raw(b"DF_LVL")
    h.u(16, lv["version"])
    h.u(32, hl + len(mid) + off)
    h.u(32, len(regs))
    h.raw(b"DF_MTD")
    h.u(16, lv.get("mver", 4))
    h.u(32, lv.get("moff", 0))
    h.u(32, lv["nextid"])
    h.u(32, lv.get("propuid", 0))
    h.u(32, lv.get("saveuid", 0))
    h.u(32, lv.get("regionuid", 0))
    if lv["version"] > 43:
        h.u(32, len(sshot))
        h.raw(sshot)
    assert h.n == 8 * hl
    return h.bytes() + mid + b"".join(regs)


# --------------------------------------------------------------- replays
# (name, bits, first version, default raw value)
INTENTS = [("X", 2, 1, 1), ("Y", 2, 1, 1), ("JUMP", 2, 1, 0), ("DASH", 2, 1, 0), ("FALL", 2, 1, 0),
           ("LIGHT", 4, 1, 0), ("HEAVY", 4, 1, 0), ("TAUNT", 4, 3, 0),
           ("MOUSE_X", 16, 4, 0), ("MOUSE_Y", 16, 4, 0), ("MOUSE_STATE", 8, 4, 0)]


def dec_stream(b, bits, default):
    """Raw run-length stream -> list of raw values, one per frame."""
    r = BitsIn(b)
    out, state, first = [], default, True
    while True:
        c = r.u(8)
        if c == 255:
            break
        out += [state] * (c if first else c + 1)
        first = False
        state = r.u(bits)
    return out, r.pos


def enc_stream(values, bits, default, rng=None):
    """Legal run-length encoding of raw values; rng varies how runs split."""
    o = FastOut()
    runs = []
    for v in values:
        if runs and runs[-1][1] == v:
            runs[-1][0] += 1
        else:
            runs.append([1, v])
    # The stream starts with a count of default frames (possibly none).
    first = 0
    if runs and runs[0][1] == default:
        first = runs.pop(0)[0]
    seq = []
    lead = min(first, 254)
    if rng is not None and rng.random() < 0.3:
        lead = rng.randrange(0, lead + 1)
    if first > lead:
        runs.insert(0, [first - lead, default])
    o.u(8, lead)
    for n, v in runs:
        while n:
            k = min(n, 255)
            if rng is not None and rng.random() < 0.3:
                k = rng.randrange(1, k + 1)
            seq.append((k, v))
            n -= k
    for k, v in seq:
        o.u(bits, v)
        o.u(8, k - 1)
    o.u(bits, default if rng is None else rng.choice([default, rng.randrange(1 << bits) if bits < 8 else default]))
    o.u(8, 255)
    o.align()
    return o.bytes()


def dec_replay(data, start=0):
    r = BitsIn(data, 8 * start)
    rep = {"username": None}
    if r.raw(6) != b"DF_RPL":
        raise RefFormatError("magic")
    v = r.u(8) - 48
    if v == 2:
        rep["username"] = r.raw(r.u(16))
        if r.raw(6) != b"DF_RPL":
            raise RefFormatError("magic")
        v = r.u(8) - 48
    rep["version"] = v
    rep["nplayers_field"] = r.u(16)
    n = rep["nplayers_field"] if v >= 3 else 1
    rep["ulen"] = r.u(32)
    rep["frames"] = r.u(32)
    rep["chars"] = [r.u(8) for _ in range(n)]
    rep["level"] = r.raw(r.u(8))
    dz = zlib.decompressobj()
    un = dz.decompress(data[r.pos // 8:])
    if not dz.eof:
        raise RefFormatError("incomplete replay stream")
    rep["end"] = len(data) - len(dz.unused_data) - start
    rep["actual_ulen"] = len(un)
    q = BitsIn(un)
    rep["inputs_len"] = q.u(32)
    rep["players"] = []
    rep["stream_slack"] = []
    for _ in range(n):
        streams = {}
        for name, bits, since, default in INTENTS:
            if v < since:
                continue
            ln = q.u(32)
            b = q.raw(ln)
            vals, used = dec_stream(b, bits, default)
            rep["stream_slack"].append(8 * ln - used)
            streams[name] = vals
        rep["players"].append(streams)
    rep["inputs_actual"] = q.pos // 8 - 4
    rep["entities"] = []
    for _ in range(q.u(32)):
        uid, ruid, fc = q.u(32), q.u(32), q.u(32)
        rep["entities"].append((uid, ruid, [(q.u(32), q.s(32), q.s(32), q.s(32), q.s(32)) for _ in range(fc)]))
    rep["slack"] = 8 * len(un) - q.pos
    return rep


def enc_replay(rep, rng=None):
    v = rep["version"]
    sub = FastOut()
    for streams in rep["players"]:
        for name, bits, since, default in INTENTS:
            if v < since:
                continue
            b = enc_stream(streams.get(name, []), bits, default, rng)
            if rng and rep.get("pad") and rng.random() < 0.3:   # the stream's length field covers it
                b += rng.randbytes(rng.choice([1, 2, 4, 5, 30]))
            sub.u(32, len(b))
            sub.raw(b)
    inp = sub.bytes()
    o = FastOut()
    o.u(32, len(inp))
    o.raw(inp)
    o.u(32, len(rep["entities"]))
    for uid, ruid, frames in rep["entities"]:
        o.u(32, uid)
        o.u(32, ruid)
        o.u(32, len(frames))
        for f in frames:
            o.u(32, f[0])
            for c in f[1:]:
                o.s(32, c)
    un = o.bytes()
    h = FastOut()
    if rep["username"] is not None:
        h.raw(b"DF_RPL2")
        h.u(16, len(rep["username"]))
        h.raw(rep["username"])
    h.raw(b"DF_RPL" + bytes([48 + v]))
    h.u(16, rep.get("nplayers_field", len(rep["players"])))
    h.u(32, len(un))
    h.u(32, rep["frames"])
    for c in rep["chars"]:
        h.u(8, c)
    h.u(8, len(rep["level"]))
    h.raw(rep["level"])
    h.raw(zlib.compress(un, rng.choice([0, 1, 6, 9]) if rng else 6))
    return h.bytes()
