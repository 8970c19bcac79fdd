"""Tile geometry, written from the documented shapes and independent of
dustmaker's own tables.

Coordinates are half tiles, y grows downwards, a tile spans [0, 2] x [0, 2].
The corners of a shape are listed clockwise starting at the top left; the side
with index i in clockwise order (TOP, RIGHT, BOTTOM, LEFT) runs from corner i
to corner i + 1.  A side shorter than a full tile does not exist.
"""

TOP, BOTTOM, LEFT, RIGHT = 0, 1, 2, 3
CW = (TOP, RIGHT, BOTTOM, LEFT)

VERTS = {
    0: ((0, 0), (2, 0), (2, 2), (0, 2)),
    1: ((0, 0), (2, 1), (2, 2), (0, 2)),
    2: ((0, 1), (2, 2), (2, 2), (0, 2)),
    3: ((0, 0), (2, 0), (1, 2), (0, 2)),
    4: ((0, 0), (1, 0), (0, 2), (0, 2)),
    5: ((0, 0), (2, 0), (2, 2), (0, 1)),
    6: ((0, 0), (2, 0), (2, 1), (0, 0)),
    7: ((1, 0), (2, 0), (2, 2), (0, 2)),
    8: ((2, 0), (2, 0), (2, 2), (1, 2)),
    9: ((0, 1), (2, 0), (2, 2), (0, 2)),
    10: ((0, 2), (2, 1), (2, 2), (0, 2)),
    11: ((0, 0), (2, 0), (2, 2), (1, 2)),
    12: ((1, 0), (2, 0), (2, 2), (2, 2)),
    13: ((0, 0), (2, 0), (2, 1), (0, 2)),
    14: ((0, 0), (2, 0), (2, 0), (0, 1)),
    15: ((0, 0), (1, 0), (2, 2), (0, 2)),
    16: ((0, 0), (0, 0), (1, 2), (0, 2)),
    # slopes keep a top and a bottom side
    17: ((0, 0), (2, 2), (2, 2), (0, 2)),
    18: ((0, 0), (2, 0), (2, 0), (0, 2)),
    19: ((0, 0), (2, 0), (2, 2), (0, 0)),
    20: ((0, 2), (2, 0), (2, 2), (0, 2)),
}
BY_POINTS = {frozenset(v): s for s, v in VERTS.items()}
assert len(BY_POINTS) == 21


def side_ends(shape, side):
    """The two corners of a side in clockwise order."""
    i = CW.index(side)
    v = VERTS[shape]
    return v[i], v[(i + 1) % 4]


def exists(shape, side):
    a, b = side_ends(shape, side)
    return abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1


SIDES = {s: tuple(d for d in range(4) if exists(s, d)) for s in VERTS}
EDGE_AT = {s: {side_ends(s, d): d for d in SIDES[s]} for s in VERTS}


def flush(shape, side):
    """The side exists and lies on the tile's border square."""
    if not exists(shape, side):
        return False
    a, b = side_ends(shape, side)
    return a[0] == b[0] or a[1] == b[1]


# the eight symmetries as integer 2x2 matrices, named by what they do
ORIENT = {
    "id": (1, 0, 0, 1), "cw": (0, -1, 1, 0), "half": (-1, 0, 0, -1), "ccw": (0, 1, -1, 0),
    "h": (-1, 0, 0, 1), "v": (1, 0, 0, -1), "diag": (0, 1, 1, 0), "anti": (0, -1, -1, 0),
}


def compose(a, b):
    """First b, then a."""
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3])


def mirrored(o):
    return o[0] * o[3] - o[1] * o[2] < 0


def inverse(o):
    for p in ORIENT.values():
        if compose(p, o) == ORIENT["id"]:
            return p
    raise ValueError(o)


def turn_point(o, p):
    """Move a point of the tile square with the tile turned about its centre."""
    x, y = p[0] - 1, p[1] - 1
    return (o[0] * x + o[1] * y + 1, o[2] * x + o[3] * y + 1)


def turn_shape(o, shape):
    return BY_POINTS[frozenset(turn_point(o, p) for p in VERTS[shape])]


def mirror_edge(e):
    """Edge data as seen with clockwise and counter-clockwise exchanged."""
    e = dict(e)
    for k in ("caps", "fcaps"):
        e[k] = (e[k][1], e[k][0])
    for k in ("angles", "fangles"):
        e[k] = (-e[k][1], -e[k][0])
    return e


def turn_tile(o, t, blank):
    """Plain tile model turned by o; sides that do not exist get blank()."""
    shape = turn_shape(o, t["shape"])
    edges = [None] * 4
    for d in SIDES[t["shape"]]:
        a, b = side_ends(t["shape"], d)
        a, b = turn_point(o, a), turn_point(o, b)
        e = t["edges"][d]
        if mirrored(o):
            a, b, e = b, a, mirror_edge(e)
        edges[EDGE_AT[shape][(a, b)]] = dict(e)
    assert all((edges[d] is not None) == exists(shape, d) for d in range(4))
    return {**t, "shape": shape, "edges": [e if e is not None else blank() for e in edges]}
