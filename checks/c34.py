"""C34: flat shapes decide membership of points."""
import math
from fractions import Fraction as F

import numpy as np

from vlib import gen
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx.g3d import primitives

RULE = "non-trivial = points both inside and outside were decided"
ASSUMPTIONS = ["points within 1e-9 (relative) of a disk's rim are only required to be treated alike whichever way they are passed"]


def ref(spec, x, y):
    """True / False / None (on the rim within rounding)."""
    if spec["kind"] == "disk":
        r = F(spec["p"][0]) / (2 if spec["how"] == "diameter" else 1)
        q = F(x) ** 2 + F(y) ** 2
        if abs(q - r * r) <= r * r * F(1, 10 ** 9):
            return None
        return q <= r * r
    a, b = F(spec["p"][0]) / 2, F(spec["p"][1]) / 2
    return abs(F(x)) <= a and abs(F(y)) <= b  # halves and absolute values are exact


def make(spec):
    if spec["kind"] == "disk":
        if spec["how"] == "default":
            spec["p"] = [1.0]
            return primitives.Disk()
        if spec["how"] == "diameter":
            return primitives.Disk.from_diameter(spec["p"][0])
        return primitives.Disk(radius=spec["p"][0]) if spec["how"] == "kw" else primitives.Disk(spec["p"][0])
    if spec["how"] == "default":
        spec["p"] = [2.0, 2.0]
        return primitives.Rectangle()
    return primitives.Rectangle(x_length=spec["p"][0], y_length=spec["p"][1]) if spec["how"] == "kw" else primitives.Rectangle(spec["p"][0], spec["p"][1])


def check(spec, ctx):
    spec = dict(spec)
    with sut("shape"):
        s = make(spec)
        p = spec["p"]
        ax, ay = (p[0] / 2, p[1] / 2) if spec["kind"] == "rect" else (p[0], p[0])
        pts = []
        for how, u, v in spec["pts"]:
            if how == "rim" and spec["kind"] == "disk":  # close to the rim on both sides
                r = ax / (2 if spec["how"] == "diameter" else 1) * (1 + v * 1e-6)
                pts.append((r * math.cos(u), r * math.sin(u)))
            elif how == "edge":
                pts.append((math.copysign(ax, u), v * ay))
            elif how == "edge2":
                pts.append((u * ax, math.copysign(ay, v)))
            elif how == "corner":
                pts.append((math.copysign(ax, u), math.copysign(ay, v)))
            else:
                pts.append((u * ax, v * ay))
        own = len(pts)
        pts += [pts[i % own] for i in range(spec["fill"] - own)]  # a longer list of the same points decides each alike
        a = np.array(pts, dtype=float).T
        a0 = a.copy()
        got = np.asarray(s.point_in_shape(a))
        require(got.shape == (len(pts),), "membership of %d points has shape %s", len(pts), got.shape)
        require(np.array_equal(a, a0), "the points are changed")
        for i, (x, y) in enumerate(pts):
            e = ref(spec, x, y)
            g = bool(got[i])
            if e is None:
                ctx.label("rim")
            else:
                require(g == e, "%s %s: point (%r, %r) is %s", spec["kind"], p, x, y, "inside" if g else "outside")
                ctx.label("in" if e else "out")
            if i >= own:
                require(g == bool(got[i % own]), "%s %s: point (%r, %r) is decided differently within one list", spec["kind"], p, x, y)
                continue
            one = s.point_in_shape(np.array([x, y]))
            require(np.ndim(one) == 0 and bool(one) == g, "%s %s: point (%r, %r) alone gives %s, in a batch %s", spec["kind"], p, x, y, one, g)
            for sx, sy in ((-x, y), (x, -y), (-x, -y)):
                require(bool(s.point_in_shape(np.array([sx, sy]))) == g, "%s %s is not symmetric at (%r, %r)", spec["kind"], p, sx, sy)
    ctx.label(spec["kind"])
    ctx.nt(got.any() and not got.all())


SIZE = st.one_of(gen.milli(0.01, 20), st.sampled_from([1, 2, 3, 0.5, 1e-6, 1e6, 100]), st.floats(1e-3, 1e3))
PT = st.tuples(st.sampled_from(["in", "in", "edge", "edge2", "corner", "rim"]), st.one_of(gen.milli(-2, 2), st.sampled_from([1.0, -1.0, 0.0, 1.0000001, 0.9999999, 1 + 1e-10, 1 - 1e-10, -1 - 1e-12, 1 + 4e-16])), st.one_of(gen.milli(-2, 2), gen.milli(-2, 2), st.sampled_from([1 + 1e-10, 1 - 1e-10, -1 - 4e-16]))).map(list)
FACETS = [
    Facet("members", lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(["disk", "rect"]), p=st.lists(SIZE, min_size=2, max_size=2), how=st.sampled_from(["pos", "pos", "kw", "default", "diameter"]),
                                                        pts=st.lists(PT, min_size=1, max_size=40), fill=gen.FILL)), check, quick=1200, thorough=30000, rule="points on both sides", shards=2),
]
