"""Adapter between plain data models and dustmaker objects (public API only)."""
import io

from dustmaker import DFReader, DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSide, TileSpriteSet
from dustmaker import variable as V
from dustmaker import replay as RP

from .refcodec import blank_edge

CLS = {"bool": V.VariableBool, "int": V.VariableInt, "uint": V.VariableUInt, "float": V.VariableFloat,
       "string": V.VariableString, "vec2": V.VariableVec2, "struct": V.VariableStruct, "array": V.VariableArray}
VT = {"bool": V.VariableType.BOOL, "int": V.VariableType.INT, "uint": V.VariableType.UINT,
      "float": V.VariableType.FLOAT, "string": V.VariableType.STRING, "vec2": V.VariableType.VEC2,
      "struct": V.VariableType.STRUCT, "array": V.VariableType.ARRAY}


def to_var(p):
    k, v = p
    if k == "struct":
        return V.VariableStruct({key: to_var(s) for key, s in v})
    if k == "array":
        return V.VariableArray(CLS[v[0]], [to_var(e) for e in v[1]])
    return CLS[k](v)


def kind_of(var):
    for k, c in CLS.items():
        if type(var) is c:
            return k
    for k, c in CLS.items():
        if isinstance(var, c):
            return k
    raise TypeError("not a variable: %r" % (var,))


def from_var(var):
    """Plain data, keeping types exact (a bool in an int slot shows)."""
    k = kind_of(var)
    v = var.value
    if k == "struct":
        if not isinstance(v, dict):
            raise TypeError("struct value %r" % (v,))
        return (k, [(key, from_var(s)) for key, s in v.items()])
    if k == "array":
        et, items = v
        ek = next(kk for kk, c in CLS.items() if c is et)
        return (k, (ek, [from_var(e) for e in items]))
    if k == "bool":
        return (k, bool(v))
    if k in ("int", "uint"):
        return (k, int(v))
    if k == "float":
        return (k, float(v))
    if k == "string":
        return (k, bytes(v))
    return (k, tuple(float(c) for c in v))


def to_map(items):
    return {k: to_var(v) for k, v in items}


def from_map(m):
    return [(k, from_var(v)) for k, v in m.items()]


def sort_struct(p):
    """Order-insensitive form of a plain variable."""
    k, v = p
    if k == "struct":
        return (k, sorted((key, sort_struct(s)) for key, s in v))
    if k == "array":
        return (k, (v[0], [sort_struct(e) for e in v[1]]))
    return p


# ------------------------------------------------------------------ tiles
def to_edge(e):
    return TileEdgeData(solid=e["solid"], visible=e["visible"], caps=tuple(e["caps"]), angles=tuple(e["angles"]),
                        filth_sprite_set=TileSpriteSet(e["fset"]), filth_spike=e["spike"],
                        filth_caps=tuple(e["fcaps"]), filth_angles=tuple(e["fangles"]))


def to_tile(t):
    tile = Tile(TileShape(t["shape"]), tile_flags=t["flags"], sprite_set=TileSpriteSet(t["set"]),
                sprite_tile=t["tile"], sprite_palette=t["palette"])
    for side in TileSide:
        tile.edge_data[side] = to_edge(t["edges"][side])
    return tile


def from_edge(e):
    return {"solid": bool(e.solid), "visible": bool(e.visible), "caps": tuple(bool(c) for c in e.caps),
            "angles": tuple(int(a) for a in e.angles), "fset": int(e.filth_sprite_set), "spike": bool(e.filth_spike),
            "fcaps": tuple(bool(c) for c in e.filth_caps), "fangles": tuple(int(a) for a in e.filth_angles)}


def from_tile(t):
    if len(t.edge_data) != 4:
        raise ValueError("tile with %d edges" % len(t.edge_data))
    return {"shape": int(t.shape), "flags": int(t.tile_flags), "set": int(t.sprite_set), "tile": int(t.sprite_tile),
            "palette": int(t.sprite_palette), "edges": [from_edge(e) for e in t.edge_data]}


def plain(ctx, t, label):
    """from_tile, and the tile equals (and hashes like) one made from the same data."""
    p = from_tile(t)
    q = to_tile(p)
    ctx.check(t == q and not t != q, "%s: a tile equals another one with the same data" % label, (p, t.edge_data))
    ctx.check(hash(t) == hash(q), "%s: tiles with the same data hash alike" % label, p)
    return p


# -------------------------------------------------------- props, entities
def to_prop(p):
    return Prop(p["sub"], p["rot"], p["fx"], p["fy"], p["scale"], p["set"], p["group"], p["index"], p["palette"])


def from_prop(layer, x, y, p):
    return {"layer": layer, "x": x, "y": y, "sub": p.layer_sub, "rot": p.rotation, "fx": bool(p.flip_x),
            "fy": bool(p.flip_y), "scale": p.scale, "set": p.prop_set, "group": p.prop_group, "index": p.prop_index,
            "palette": p.palette}


_CLASSES = None


def classes():
    """TYPE_IDENTIFIER -> class for the classes dustmaker ships."""
    global _CLASSES
    if _CLASSES is None:
        out, todo = {}, [Entity]
        while todo:
            c = todo.pop()
            todo += c.__subclasses__()
            t = c.__dict__.get("TYPE_IDENTIFIER")
            if t is not None and c.__module__.startswith("dustmaker."):
                out[t] = c
        _CLASSES = dict(sorted(out.items()))
    return _CLASSES


def to_entity(e):
    cls = classes().get(e["type"])
    args = (to_map(e["vars"]), e["rot"], e["layer"], e["fx"], e["fy"], e["visible"])
    if cls is not None:
        return cls(*args)
    ent = Entity(*args)
    ent.etype = e["type"]
    return ent


def from_entity(x, y, e):
    return {"type": e.etype, "x": x, "y": y, "rot": e.rotation, "layer": e.layer, "fx": bool(e.flip_x),
            "fy": bool(e.flip_y), "visible": bool(e.visible), "vars": from_map(e.variables)}


# ----------------------------------------------------------------- levels
def to_level(m, order_rng=None):
    """Build a Level from the content model through the public API."""
    lv = Level()
    lv.variables = to_map(m["vars"])
    lv.sshot = m["sshot"]

    def items(d):
        it = list(d.items())
        if order_rng is not None:
            order_rng.shuffle(it)
        return it

    for k, t in items(m["tiles"]):
        lv.tiles[k] = to_tile(t)
    for i, p in items(m["props"]):
        lv.add_prop(p["layer"], p["x"], p["y"], to_prop(p), i)
    for i, e in items(m["entities"]):
        lv.add_entity(e["x"], e["y"], to_entity(e), i)
    for k, t in items(m["btiles"]):
        lv.backdrop.tiles[k] = to_tile(t)
    for i, p in items(m["bprops"]):
        lv.backdrop.add_prop(p["layer"], p["x"], p["y"], to_prop(p), i)
    return lv


class _NoBackdrop:
    def __init__(self):
        self.tiles, self.props, self.entities = {}, {}, {}


def bd(lv):
    """The backdrop's contents, also for a level without a backdrop."""
    return lv.backdrop if lv.backdrop is not None else _NoBackdrop()


def drop_backdrop(ctx, m, p=0.06):
    """Sometimes empty the model's backdrop; True if the level may do without."""
    if ctx.rng.random() >= p:
        return False
    m["btiles"], m["bprops"] = {}, {}
    ctx.count("no_backdrop")
    return True


def from_level(lv):
    m = {
        "vars": from_map(lv.variables), "sshot": bytes(lv.sshot),
        "tiles": {tuple(k): from_tile(t) for k, t in lv.tiles.items()},
        "props": {i: from_prop(*v) for i, v in lv.props.items()},
        "entities": {i: from_entity(*v) for i, v in lv.entities.items()},
        "btiles": {}, "bprops": {},
    }
    if lv.backdrop is not None:
        m["btiles"] = {tuple(k): from_tile(t) for k, t in lv.backdrop.tiles.items()}
        m["bprops"] = {i: from_prop(*v) for i, v in lv.backdrop.props.items()}
    return m


def write_level_bytes(lv, pre=b""):
    buf = io.BytesIO(pre)
    buf.seek(len(pre))
    with DFWriter(buf, noclose=True) as w:
        w.write_level(lv)
    return buf.getvalue()


def read_level_bytes(data, offset=0):
    buf = io.BytesIO(data)
    buf.seek(offset)
    with DFReader(buf, noclose=True) as r:
        return r.read_level()


# ---------------------------------------------------------------- replays
RAW_TO = {
    "X": lambda v: v - 1, "Y": lambda v: v - 1,
    "MOUSE_X": lambda v: v / 32767.0, "MOUSE_Y": lambda v: v / 32767.0,
    "MOUSE_STATE": lambda v: RP.MouseState(v),
}


def raw_to_repr(name, v):
    return RAW_TO.get(name, lambda x: x)(v)


def repr_default(name):
    return {"MOUSE_X": 0.0, "MOUSE_Y": 0.0, "MOUSE_STATE": RP.MouseState(0)}.get(name, 0)
