"""C25: drawings of components in the xy and xz views."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from checks.c10 import leaf_points
from vlib import gen, geo, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx.g3d import renderers

RULE = "non-trivial = at least five decided pixels show a component and five show nothing"
ASSUMPTIONS = ["components whose bounding volume is not finite (empty intersections) are not drawn", "pixels within one pixel of an outline are not decided"]
AXES = {"xy": (0, 1, 2, -1.0), "xz": (0, 2, 1, 1.0)}  # right, up, depth axis, sign of the viewing direction


def shifted(spec):
    out = []
    for c in spec["comps"]:
        c = dict(c)
        mv = [["move"] + spec["shift"]]
        if "lens" in c:
            c["ops"] = c["ops"] + mv
        else:
            c["tree"] = dict(c["tree"], ops=c["tree"].get("ops", []) + mv)
        out.append(c)
    return system.System(dict(comps=out, sources=[]))


def drawn(spec, s):
    """Draws the scene; (image, extent with the lower left corner first)."""
    kw = dict(resolution=spec["res"])
    if spec["bounds"] is not None:
        b = np.array(spec["bounds"], dtype=float) + np.array(spec["shift"])
        kw["bounds"] = (b.min(axis=0), b.max(axis=0))
    if not (spec["view"] == "xy" and spec["default"]):
        kw["view"] = spec["view"]
    if not (spec["shaded"] and spec["default"]):
        kw["shaded"] = spec["shaded"]
    objs = s.objs[0] if spec["single"] and len(s.objs) == 1 else tuple(s.objs) if spec["single"] else s.objs
    fig, ax = plt.subplots()
    other = fig.add_axes([0.8, 0.8, 0.1, 0.1])
    if spec["axis"]:
        plt.sca(other)
        kw["axis"] = ax
    else:
        plt.sca(ax)
    with sut("draw"):
        renderers.draw(objs, **kw)
        require(len(other.images) == 0, "the drawing went to another axis than the one asked for")
        require(len(ax.images) == 1, "drawing placed %d images on the axis", len(ax.images))
        im = ax.images[0]
        img, ext = np.array(im.get_array(), dtype=float), [float(x) for x in im.get_extent()]
        require(img.ndim == 3 and img.shape[2] == 4, "the image has shape %s", img.shape)
    if im.origin == "lower":
        img = img[::-1]
    return img, ext, kw.get("bounds")


def flat(mat):
    return np.array(list(mat[1:4]) + [1.0])


def check_bounds(spec, ctx):
    """Explicit bounds decide which region is shown, whatever is drawn."""
    spec = dict(spec, bounds=spec["bounds"] or [[-1.0, -0.5, -1.5], [1.5, 1.0, 1.0]])
    a, b, dp, sg = AXES[spec["view"]]
    ext = []
    for extra in (False, True):
        q = spec
        if extra:
            # one more component, somewhere else or around the others
            r, at = spec["extra"]
            t = dict(k="leaf", kind="sphere", p=[r], ops=[["move"] + at], mat=["flat", 0.0, 0.5, 1.0])
            q = dict(spec, comps=spec["comps"] + [dict(tree=t)] if spec["after"] else [dict(tree=t)] + spec["comps"])
        s = shifted(q)
        with sut("bounding volumes"):
            if not all(np.isfinite(np.asarray(c.bounding_volume.axis_spans)).all() for c in s.objs):
                ctx.label("skip-empty-component")
                return
        try:
            img, e, bounds = drawn(q, s)
        finally:
            plt.close("all")
        ext.append(e)
    m = 1e-9 * (1 + np.abs(ext[0]).max())
    lo, hi = bounds
    require(ext[0][0] <= lo[a] + m and ext[0][1] >= hi[a] - m and ext[0][2] <= lo[b] + m and ext[0][3] >= hi[b] - m, "extent %s does not contain the bounds %s x %s", ext[0], (lo[a], hi[a]), (lo[b], hi[b]))
    require(np.abs(np.array(ext[0]) - ext[1]).max() <= m, "with the bounds %s x %s the extent is %s, with another component in the scene %s", (lo[a], hi[a]), (lo[b], hi[b]), ext[0], ext[1])
    ctx.nt(True)


def check(spec, ctx):
    s = shifted(spec)
    with sut("bounding volumes"):
        if not all(np.isfinite(np.asarray(c.bounding_volume.axis_spans)).all() for c in s.objs):
            ctx.label("skip-empty-component")
            return
    try:
        img, ext, bounds = drawn(spec, s)
    finally:
        plt.close("all")
    a, b, dp, sg = AXES[spec["view"]]
    require(np.isfinite(ext).all() and ext[0] < ext[1] and ext[2] < ext[3], "extent of the image is %s", ext)
    rows, cols = img.shape[:2]
    require(1 <= rows and 1 <= cols and max(rows, cols) <= 2 * spec["res"] and max(rows, cols) >= spec["res"] // 2, "resolution %d gives an image of %d x %d pixels", spec["res"], cols, rows)
    pw, ph = (ext[1] - ext[0]) / cols, (ext[3] - ext[2]) / rows
    pts, lo, hi = box(s)
    if bounds is not None:
        blo, bhi = bounds
    elif pts is not None:
        blo, bhi = pts.min(axis=0), pts.max(axis=0)
    else:
        blo, bhi = np.array([ext[0] if k == a else ext[2] for k in range(3)]), np.array([ext[1] if k == a else ext[3] for k in range(3)])
    m = 1e-6 * (1 + np.abs(ext).max())
    require(ext[0] <= blo[a] + m and ext[1] >= bhi[a] - m and ext[2] <= blo[b] + m and ext[3] >= bhi[b] - m,
            "extent %s of the image does not contain %s x %s", ext, (blo[a], bhi[a]), (blo[b], bhi[b]))
    # reference on a grid that reaches two pixels beyond the image
    top = (hi[dp] + 7.0) if sg < 0 else (lo[dp] - 7.0)
    d = np.zeros(3)
    d[dp] = sg

    def look(u, w):
        o = np.zeros(3)
        o[a], o[b], o[dp] = u, w, top
        return s.nearest(o, d)

    def state(q):
        return "?" if q is None else "none" if q == "none" else (id(q[2]), tuple(q[3].mat) if q[3].mat is not None else None)
    P = 2
    us = [ext[0] + (j + 0.5) * pw for j in range(-P, cols + P)]
    ws = [ext[3] - (i + 0.5) * ph for i in range(-P, rows + P)]
    g = [[state(look(u, w)) for u in us] for w in ws]

    def sampled(i, j):
        """What is at the exact place the image's pixel may have been sampled at: its centre, or corner to corner."""
        out = []
        for u, w in ((ext[0] + (j + 0.5) * pw, ext[3] - (i + 0.5) * ph), (ext[0] + (ext[1] - ext[0]) * (j / (cols - 1) if cols > 1 else 0.5), ext[3] - (ext[3] - ext[2]) * (i / (rows - 1) if rows > 1 else 0.5)),
                     (ext[0] + (ext[1] - ext[0]) * (j / (cols - 1) if cols > 1 else 0), ext[3] - (ext[3] - ext[2]) * (i / (rows - 1) if rows > 1 else 0))):
            for e in (-1e-7, 0, 1e-7):
                out.append(state(look(u + e * pw, w + e * ph)))
        return out
    r = 1 if spec["shaded"] else 2
    seen = empty = 0
    solid = [[None] * cols for _ in range(rows)]
    for i in range(rows):
        for j in range(cols):
            near = {g[i + P + y][j + P + x] for y in range(-r, r + 1) for x in range(-r, r + 1)}
            if "?" in near:
                continue
            px = img[i, j]
            where = "%s view: pixel row %d of %d, column %d of %d, around %s" % (spec["view"], i, rows, j, cols, (us[j + P], ws[i + P]))
            if near == {"none"}:
                solid[i][j] = False
                # (outlines spread one pixel around the change they mark)
                places = [(i, j)] if spec["shaded"] else [(i + y, j + x) for y in range(-2, 3) for x in range(-2, 3)]
                if px[3] != 0 and all(set(sampled(*q)) == {"none"} for q in places):
                    require(False, "%s: nothing projects there but the image has %s", where, px.tolist())
                empty += 1
                continue
            if "none" in near:
                continue
            solid[i][j] = True
            seen += 1
            if not spec["shaded"]:
                continue
            if px[3] == 0 and "none" not in sampled(i, j) and "?" not in sampled(i, j):
                require(False, "%s: a component projects there but the image is transparent", where)
            if len(near) == 1 and set(sampled(i, j)) == near:
                e = flat(next(iter(near))[1])
                require(px[3] == 0 or np.abs(px - e).max() < 1e-9, "%s: the component in front is %s, the image has %s", where, e.tolist(), px.tolist())
                ctx.label("colour")
    if not spec["shaded"]:
        # an outline lies between a place clearly inside and a place clearly outside of the same row or column
        for lines, pix in ((solid, lambda i, j: img[i, j]), ([list(c) for c in zip(*solid)], lambda i, j: img[j, i])):
            for i, line in enumerate(lines):
                known = [(j, x) for j, x in enumerate(line) if x is not None]
                for (j0, x0), (j1, x1) in zip(known, known[1:]):
                    if x0 != x1:
                        require(any(pix(i, j)[3] != 0 for j in range(j0, j1 + 1)), "%s view: no outline between a component and the empty surroundings (line %d, pixels %d to %d)", spec["view"], i, j0, j1)
                        ctx.label("outline")
    ctx.label("shown", seen)
    ctx.label("empty", empty)
    ctx.nt(seen >= 5 and empty >= 5)


US = [[x, y, z] for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)]


def box(s):
    """Extent of points that belong to the components, and of the corners of their leaves."""
    pts, corners = [], []
    for c in s.comps:
        for lf in c.ref.leaves():
            pts += [x for x in leaf_points(lf, US) if c.ref.contains(x, -1e-9)]
            lo, hi = geo.extents(lf.kind, lf.p)
            corners += [lf.m[:3, :3] @ np.array([(lo, hi)[k & 1][0], (lo, hi)[k >> 1 & 1][1], (lo, hi)[k >> 2][2]]) + lf.m[:3, 3] for k in range(8)]
    corners = np.array(corners)
    pts = np.array(pts) if pts else None
    return pts, corners.min(axis=0), corners.max(axis=0)


@st.composite
def thin(draw, mat):
    """A plate, rod or sheet much smaller in one or two directions."""
    t = draw(st.sampled_from([1e-2, 1e-3, 1e-5, 1e-8]))
    size = [draw(gen.milli(0.2, 3)) for _ in range(3)]
    for i in draw(st.sampled_from([(0,), (1,), (2,), (0, 1), (0, 2), (1, 2)])):
        size[i] = t
    kind = draw(st.sampled_from(["box", "box", "plane", "cyl"]))
    if kind == "box":
        leaf = dict(k="leaf", kind="box", p=[-x / 2 for x in size] + [x / 2 for x in size], ops=[])
    elif kind == "plane":
        leaf = dict(k="leaf", kind="plane", p=[max(size[0], 0.05), max(size[1], 0.05)], ops=[[draw(st.sampled_from(["rx", "ry"])), draw(st.sampled_from([0.0, 90.0, 45.0, 180.0, 3.0]))]])
    else:
        leaf = dict(k="leaf", kind="cyl", p=[max(size[0], 0.05), -t / 2, t / 2], ops=[[draw(st.sampled_from(["rx", "ry"])), draw(st.sampled_from([0.0, 90.0, 45.0, 180.0]))]])
    leaf["ops"] = leaf["ops"] + [["move"] + [draw(gen.coord(3)) for _ in range(3)]]
    leaf["mat"] = draw(mat)
    return dict(tree=leaf)


@st.composite
def solo(draw, mat):
    return dict(tree=dict(draw(gen.leaf(max_ops=3)), mat=draw(mat)))


@st.composite
def scene(draw, shaded=True):
    mat = st.tuples(st.just("flat"), gen.milli(0, 1), gen.milli(0, 1), gen.milli(0, 1)).map(list)
    if draw(st.booleans()):  # close together, so that they fill the picture
        comps = draw(st.lists(gen.near_leaf().flatmap(lambda t: mat.map(lambda m: dict(tree=dict(t, mat=m)))), min_size=1, max_size=3))
    else:
        comps = draw(st.lists(st.one_of(system.comp(mat, depth=2, lens=True), solo(mat), thin(mat)), min_size=1, max_size=3))
    for c in comps:
        if "lens" in c:
            c["lens"] = dict(c["lens"], mat=draw(mat))
    far = st.one_of(gen.coord(8), st.sampled_from([0.0, -5.0, -20.0, 40.0, -300.0, 1000.0, -1000.0]))
    bounds = None
    if draw(st.integers(0, 3)) == 0:
        bounds = [[draw(gen.coord(3)) for _ in range(3)] for _ in range(2)]
        for i in range(3):  # a box of at least 0.5
            if abs(bounds[0][i] - bounds[1][i]) < 0.5:
                bounds[1][i] = bounds[0][i] + 1.5
    return dict(comps=comps, shift=[draw(far) for _ in range(3)], view=draw(st.sampled_from(["xy", "xz"])), res=draw(st.integers(8, 26)), bounds=bounds,
                shaded=shaded, default=draw(st.booleans()), single=draw(st.booleans()), axis=draw(st.booleans()))


@st.composite
def many(draw):
    n, step = draw(st.integers(13, 40)), [draw(st.sampled_from([1.5, 2.5, -2.0])), draw(gen.coord(1)), draw(gen.coord(1))]
    perm = draw(st.permutations([0, 1, 2]))
    mats = [["flat"] + [draw(gen.milli(0, 1)) for _ in range(3)] for _ in range(3)]
    comps = [dict(tree=dict(k="leaf", kind="sphere", p=[1.0], ops=[["move"] + [i * step[k] for k in perm]], mat=mats[i % 3])) for i in range(n)]
    return dict(comps=comps, shift=[0.0, 0.0, draw(gen.coord(8))], view=draw(st.sampled_from(["xy", "xz"])), res=draw(st.integers(20, 36)), bounds=None,
                shaded=draw(st.booleans()), default=draw(st.booleans()), single=draw(st.booleans()), axis=draw(st.booleans()))


FACETS = [
    Facet("shaded", lambda: scene(True), check, quick=640, thorough=8000, shards=8, rule="every pixel of small shaded drawings of 1-3 flat-coloured components"),
    Facet("bounds", lambda: st.tuples(scene(True), st.tuples(gen.milli(0.5, 20), st.lists(gen.milli(-9, 9), min_size=3, max_size=3)), st.booleans(), st.booleans()).map(lambda t: dict(t[0], extra=list(t[1]), after=t[2], shaded=t[3], res=min(t[0]["res"], 12))), check_bounds,
          quick=120, thorough=1500, shards=2, rule="drawings with explicit bounds, with and without one more component"),
    Facet("many", many, check, quick=24, thorough=300, shards=4, rule="13 to 40 small components in a row, shaded or outlined"),
    Facet("outline", lambda: scene(False), check, quick=480, thorough=6000, shards=8, rule="every pixel of small outline drawings"),
]
