"""Hypothesis strategies producing plain JSON specs."""
from hypothesis import strategies as st


def milli(lo, hi):
    """Multiples of 0.001 in [lo, hi] (given in units)."""
    return st.integers(int(round(lo * 1000)), int(round(hi * 1000))).map(lambda n: n / 1000.0)


def coord(r=6.0):
    return milli(-r, r)


SIZE = st.one_of(milli(0.1, 3.0), st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0]))
SMALL = milli(0.1, 1.5)


def leaf_shape(planes=True, kinds=None):
    kinds = list(kinds or ["sphere", "cyl", "par", "box"] + (["plane"] if planes else []))

    def mk(kind):
        if kind == "sphere":
            return SIZE.map(lambda r: dict(kind="sphere", p=[r]))
        if kind == "cyl":
            return st.tuples(SIZE, coord(2.0), SIZE).map(lambda t: dict(kind="cyl", p=[t[0], t[1], round(t[1] + t[2], 6)]))
        if kind == "par":
            return st.tuples(milli(0.1, 2.5), SIZE).map(lambda t: dict(kind="par", p=[t[0], t[1]]))
        if kind == "box":
            return st.tuples(coord(2.0), coord(2.0), coord(2.0), SIZE, SIZE, SIZE, st.integers(0, 7)).map(_box)
        return st.tuples(SIZE, SIZE).map(lambda t: dict(kind="plane", p=[t[0], t[1]]))
    return st.sampled_from(kinds).flatmap(mk)


def _box(t):
    lo = list(t[:3])
    hi = [round(a + b, 6) for a, b in zip(t[:3], t[3:6])]
    for i in range(3):  # corners may be given in any order
        if t[6] >> i & 1:
            lo[i], hi[i] = hi[i], lo[i]
    return dict(kind="box", p=lo + hi)


ANGLE = st.one_of(
    st.sampled_from([0.0, 30.0, 45.0, 90.0, 180.0, 270.0, 360.0, -90.0, -45.0, 60.0]),
    milli(-200.0, 200.0),
)
RANGLE = milli(-7.0, 7.0)
def weighted(*pairs):
    """One strategy out of (weight, strategy) pairs; st.one_of drops repeated members, so it cannot express weights."""
    pick = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(pick).flatmap(lambda i: pairs[i][1])


FACTOR = st.one_of(milli(0.4, 2.5), st.sampled_from([0.5, 1.0, 2.0]), milli(0.97, 1.03))

_ROT = [
    st.tuples(st.sampled_from(["rx", "ry", "rz"]), ANGLE).map(list),
    st.tuples(st.sampled_from(["rxr", "ryr", "rzr"]), RANGLE).map(list),
]
_MOVE = [
    st.tuples(st.just("move"), coord(4), coord(4), coord(4)).map(list),
    st.tuples(st.sampled_from(["mx", "my", "mz"]), coord(4)).map(list),
]
_SCALE = [
    st.tuples(st.just("scale"), FACTOR, FACTOR, FACTOR).map(list),
    st.tuples(st.sampled_from(["sx", "sy", "sz", "sall"]), FACTOR).map(list),
]
_USCALE = [st.tuples(st.just("sall"), FACTOR).map(list)]


@st.composite
def matrix_op(draw, mirror=False):
    """A well conditioned matrix transform: rotation, shear, stretch and shift; mirror: possibly a mirror image."""
    import numpy as np
    from .geo import axis_rotation
    v = np.array([draw(milli(-1, 1)) for _ in range(3)])
    n = np.linalg.norm(v)
    r = axis_rotation(v / n, draw(RANGLE)) if n > 0.05 else np.eye(3)
    s = np.eye(3)
    s[0, 1], s[0, 2], s[1, 2] = [draw(milli(-0.5, 0.5)) for _ in range(3)]
    m = np.eye(4)
    m[:3, :3] = r @ s @ np.diag([draw(milli(0.5, 2)) for _ in range(3)])
    if mirror and draw(st.integers(0, 2)) == 0:
        m[:3, draw(st.integers(0, 2))] *= -1
    m[:3, 3] = [draw(coord(3)) for _ in range(3)]
    return ["tf", [float(x) for x in np.round(m, 9).reshape(-1)]]


def an_op(scale=True, shear=False, rigid=False):
    opts = list(_ROT) + list(_MOVE)
    if not rigid and scale:
        opts += _SCALE
    if shear:
        opts.append(matrix_op(mirror=shear == "mirror"))
    return st.one_of(opts)


RIGID_OP = st.one_of(_ROT + _MOVE)
MOVE_OP = st.one_of(_MOVE)
SIMILAR_OP = st.one_of(_ROT + _MOVE + _USCALE)


def ops(max_size=4, **kw):
    return st.lists(an_op(**kw), max_size=max_size).map(_limit_scale)


def _limit_scale(lst):
    """Drops scalings that would take the accumulated factor out of [0.1, 10]."""
    acc, out = [1.0, 1.0, 1.0], []
    for op in lst:
        f = None
        if op[0] == "scale":
            f = op[1:4]
        elif op[0] == "sall":
            f = [op[1]] * 3
        elif op[0] in ("sx", "sy", "sz"):
            f = [op[1] if a == op[0][1] else 1.0 for a in "xyz"]
        if f:
            hi, lo = max(f), min(f)
            nxt = [max(acc) * hi, min(acc) * lo]
            if nxt[0] > 10 or nxt[1] < 0.1:
                continue
            acc = [max(acc) * hi, min(acc) * lo, 1.0]
        out.append(op)
    return out


def leaf(planes=True, max_ops=3, shear=False, kinds=None):
    return st.tuples(leaf_shape(planes, kinds), ops(max_ops, shear=shear)).map(
        lambda t: dict(k="leaf", kind=t[0]["kind"], p=t[0]["p"], ops=t[1]))


@st.composite
def near_leaf(draw, planes=True, kinds=None):
    """A leaf placed close to the origin so that combined leaves overlap."""
    shp = draw(leaf_shape(planes, kinds))
    o = draw(st.lists(st.one_of(_ROT), max_size=1))
    if draw(st.booleans()):
        o = o + draw(st.lists(st.one_of(_SCALE), max_size=1))
    mv = ["move"] + [draw(coord(1.5)) for _ in range(3)]
    return dict(k="leaf", kind=shp["kind"], p=shp["p"], ops=_limit_scale(o + [mv]))


@st.composite
def tree(draw, depth=3, planes=True, node_ops=True, force_csg=True):
    """A CSG tree spec.  Flat rectangles are never (part of) the subtracted operand."""
    def rec(level, allow_plane):
        if level <= 0 or (level < depth and draw(st.integers(0, 2)) == 0):
            return draw(near_leaf(planes=allow_plane))
        op = draw(st.sampled_from(["union", "intersect", "difference", "difference"]))
        left = rec(level - 1, allow_plane)
        right = rec(level - 1, allow_plane and op != "difference")
        o = draw(st.lists(st.one_of(_MOVE + _ROT + (_USCALE if level == depth else [])), max_size=2)) if node_ops and draw(st.booleans()) else []
        return dict(k="csg", op=op, l=left, r=right, ops=_limit_scale(o))
    d = draw(st.integers(1, depth)) if force_csg else draw(st.integers(0, depth))
    depth = d
    return rec(d, planes)


@st.composite
def comb(draw, lo=4, hi=14, max_later=2):
    """A union of many small leaves in a row along x (in random order and nesting), often cut or drilled by
    a bigger shape: a ray along the row has many crossings."""
    n = draw(st.integers(lo, hi))
    items = []
    for i in range(n):
        kind = draw(st.sampled_from(["sphere", "box", "cyl"]))
        a, b = draw(milli(0.15, 0.45)), draw(milli(0.15, 0.6))
        p = [a] if kind == "sphere" else [-a, -b, -b, a, b, b] if kind == "box" else [b, -a, a]
        o = [["ry", 90.0]] if kind == "cyl" else []
        items.append(dict(k="leaf", kind=kind, p=p, ops=o + [["move", float(i) - (n - 1) / 2, draw(milli(-0.1, 0.1)), draw(milli(-0.1, 0.1))]]))
    items = list(draw(st.permutations(items)))
    while len(items) > 1:
        how = draw(st.integers(0, 2))
        i = 0 if how == 0 else draw(st.integers(0, len(items) - 2))
        items[i:i + 2] = [dict(k="csg", op="union", l=items[i], r=items[i + 1], ops=[])]
    t = items[0]
    extra = draw(st.sampled_from(["", "", "difference", "intersect", "minuend", "union"]))
    if extra:
        c = [draw(milli(-n / 2, n / 2)), draw(milli(-0.5, 0.5)), draw(milli(-0.5, 0.5))]
        big = draw(st.sampled_from([dict(kind="sphere", p=[draw(milli(0.6, 6))]), dict(kind="box", p=[-draw(milli(0.5, 6)), -1.5, -1.5, draw(milli(0.5, 6)), 1.5, 1.5])]))
        big = dict(k="leaf", ops=[["move"] + c], **big)
        l, r = (big, t) if extra == "minuend" else (t, big)
        t = dict(k="csg", op="difference" if extra == "minuend" else extra, l=l, r=r, ops=[])
    t = dict(t, ops=draw(st.lists(st.one_of(_MOVE + _ROT + _USCALE), max_size=2).map(_limit_scale)) if t["k"] == "csg" else t["ops"])
    t["later"] = draw(later(t, max_later)) if draw(st.integers(0, 2)) == 0 else []
    return t


def paths(spec, prefix=""):
    out = [prefix]
    if spec["k"] == "csg":
        out += paths(spec["l"], prefix + "l") + paths(spec["r"], prefix + "r")
    return out


@st.composite
def later(draw, spec, max_size=3):
    """Transforms applied to the whole, a part, or a part of a part after construction."""
    ps = paths(spec)
    n = draw(st.integers(0, max_size))
    return [[draw(st.sampled_from(ps)), draw(st.one_of(_MOVE + _ROT + _MOVE))] for _ in range(n)]


@st.composite
def moved_tree(draw, depth=3, planes=True, max_later=3):
    s = draw(tree(depth=depth, planes=planes))
    s = dict(s)
    s["later"] = draw(later(s, max_later))
    return s


@st.composite
def sheets(draw, max_later=1):
    """Two or three plates of 2e-5 to 1e-2 thickness close to (or inside) each other, and sometimes something ordinary:
    the solid is much thinner than the distances the rays travel."""
    th = draw(st.sampled_from([2e-5, 5e-5, 1e-4, 3e-4, 1e-3, 1e-2]))

    def plate():
        a, b, h = draw(milli(0.4, 2)), draw(milli(0.4, 2)), th * draw(st.sampled_from([0.5, 0.5, 0.8, 2.0]))
        z = th * draw(st.sampled_from([0.0, 0.0, 0.25, 0.5, 1.5, -1.0]))
        kind = draw(st.sampled_from(["box", "box", "cyl"]))
        p = [a, z - h, z + h] if kind == "cyl" else [-a, -b, z - h, a, b, z + h]
        return dict(k="leaf", kind=kind, p=p, ops=[["move", draw(milli(-0.5, 0.5)), draw(milli(-0.5, 0.5)), 0.0]])
    t = plate()
    for _ in range(draw(st.integers(1, 2))):
        other = plate() if draw(st.integers(0, 3)) else draw(near_leaf(planes=False))
        l, r = (t, other) if draw(st.booleans()) else (other, t)
        t = dict(k="csg", op=draw(st.sampled_from(["union", "union", "intersect", "difference"])), l=l, r=r, ops=[])
    t["ops"] = _limit_scale(draw(st.lists(st.one_of(_MOVE + _ROT + _USCALE), max_size=2)))
    t["later"] = draw(later(t, max_later))
    return t


# ------------------------------------------------------------------ rays
# a ray spec: dict(o=[3], mode=..., ...) resolved against a reference solid by rays.resolve
FAR = st.sampled_from([1] * 12 + [30, 300, 3000])  # the start is moved away from the target by this factor


def ray_spec():
    aimed = st.fixed_dictionaries(dict(
        leaf=st.integers(0, 7), tgt=st.tuples(milli(-1.15, 1.15), milli(-1.15, 1.15), milli(-1.15, 1.15)).map(list),
        o=st.tuples(coord(8), coord(8), coord(8)).map(list), far=FAR))
    pair = st.fixed_dictionaries(dict(  # through two leaves (possibly the same one)
        leaf=st.integers(0, 15), tgt=st.tuples(milli(-0.9, 0.9), milli(-0.9, 0.9), milli(-0.9, 0.9)).map(list),
        leaf2=st.integers(0, 15), tgt2=st.tuples(milli(-0.9, 0.9), milli(-0.9, 0.9), milli(-0.9, 0.9)).map(list), back=milli(0.0, 12.0)))
    inside = st.fixed_dictionaries(dict(
        leaf=st.integers(0, 7), src=st.tuples(milli(-1.0, 1.0), milli(-1.0, 1.0), milli(-1.0, 1.0)).map(list),
        d=st.tuples(milli(-1, 1), milli(-1, 1), milli(-1, 1)).map(list)))
    axis = st.fixed_dictionaries(dict(
        leaf=st.integers(0, 7), tgt=st.tuples(milli(-1.1, 1.1), milli(-1.1, 1.1), milli(-1.1, 1.1)).map(list),
        axis=st.integers(0, 5), frame=st.sampled_from(["local", "world"]), back=milli(0.0, 9.0),
        tilt=st.sampled_from([0.0, 0.0, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-10, 1e-14]), taxis=st.integers(0, 1)))
    return st.one_of(aimed, aimed, inside, axis, pair)


def wavelength(lo=0.36, hi=0.9):
    """Wavelengths in um, to the nanometre or much finer."""
    return st.one_of(milli(lo, hi), st.integers(int(lo * 1e7), int(hi * 1e7)).map(lambda n: n / 1e7))


MANY = st.one_of(st.integers(20, 300), st.integers(20, 300), st.integers(20, 300), st.integers(700, 2500))
FILL = st.tuples(st.integers(1, 25), MANY).map(lambda t: t[1] if t[0] == 25 else 0)


def ray_specs(lo=1, hi=10, many=25, upto=300):
    """lo..hi rays; about once in `many` cases the batch is filled up with displaced copies to up to `upto` rays."""
    rs = st.lists(ray_spec(), min_size=lo, max_size=hi)
    if not many:
        return rs
    return st.tuples(rs, st.integers(1, many), st.integers(20, upto)).map(lambda t: _filled(t[0], t[2]) if t[1] == many else t[0])


def _filled(rs, n):
    """The copies come before the last ray (of two or more), so that the batch ends with a ray of its own."""
    return rs[:-1] + [dict(fill=n)] + rs[-1:] if len(rs) > 1 else rs + [dict(fill=n)]


def crowd_specs(lo=2, hi=6, upto=160):
    """A large batch every time."""
    return st.tuples(st.lists(ray_spec(), min_size=lo, max_size=hi), st.integers(60, upto)).map(lambda t: _filled(*t))
