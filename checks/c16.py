"""C16: paraxial focusing of lenses."""
import math

import numpy as np

from vlib import build, gen, geo, sim
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc
from pyrayt.utils import lensmakers_equation

RULE = "non-trivial = the lens has optical power and the ray crosses both of its surfaces"
ASSUMPTIONS = ["entry heights are 1/1000 of the smallest radius or aperture; slopes are compared to 1 part in 1000 of the sum of the surface powers"]


def abcd(r1, r2, t, n, h):
    """Height and slope after a lens in air for a collimated ray at height h (paraxial surface by surface)."""
    y, u = h, 0.0
    p1 = 0.0 if math.isinf(r1) else (n - 1) / r1
    p2 = 0.0 if math.isinf(r2) else (1 - n) / r2
    nu = u - y * p1
    y = y + t * nu / n
    nu = nu - y * p2
    return y, nu, abs(p1) + abs(p2)


def lens_of(s):
    from checks.c15 import clamp, make, ref_of
    s = clamp(s)
    obj, mat = make(s)
    _, r, ap = ref_of(s)
    return s, obj, r, ap


def check(spec, ctx):
    s = spec["lens"]
    with sut("create lens"):
        s, obj, r, ap = lens_of(s)
    wl = spec["wl"]
    n = sim.index_of(s["mat"] or ["n", 1.5], wl)
    radii = [abs(x) for x in r if not math.isinf(x)]
    wide = min(abs(a) / 2 for a in (ap if isinstance(ap, list) else [ap]))
    hs = [min([1e-3 * x for x in radii] + [(0.4 if radii and min(radii) > 60 else 1e-3) * wide]) * f for f in spec["h"]]
    if any(h * h / (2 * x) < 1e-13 * x + 1e-12 and min(radii) > 1e-4 * x and x > 60 for x in radii for h in hs):
        ctx.label("skip-too-flat")  # at these heights the sphere is within rounding of the plane through its vertex
        return
    O, D = [], []
    for h, az in zip(hs, spec["az"]):
        O.append([-s["t"] / 2 - spec["back"], h * math.cos(az), h * math.sin(az)])
        D.append([1.0, 0, 0])
    src = sim.FixedSource(np.array(O).T, np.array(D).T, wl)
    m = np.eye(4)
    if spec["flip"]:
        with sut("turn lens"):
            obj.rotate_z(180)
        r = [-r[1], -r[0]]
    for op in spec["ops"]:
        with sut("move system"):
            geo.apply_op(obj, op)
            geo.apply_op(src, op)
        m = geo.op_matrix(op) @ m
    t, res = sim.trace([src], [obj, sim.sky(600.0 * spec.get("unit", 1))])
    mi = np.linalg.inv(m)
    for k, h in enumerate(hs):
        rows = res.of(k)
        with sut("results"):
            require(len(rows) == 3, "ray %d at height %g: %d rows instead of 3 through a lens", k, h, len(rows))
        x = (mi[:3, :3] @ res.start[:, rows[2]] + mi[:3, 3])
        d = mi[:3, :3] @ res.tilt[:, rows[2]]
        d = d / np.linalg.norm(d)
        e = np.array([math.cos(spec["az"][k]), math.sin(spec["az"][k])])
        lat, slope = float(x[1:] @ e), float(d[1:] @ e) / d[0]
        # back to the exit vertex plane
        y_exit = lat + slope * (s["t"] / 2 - x[0])
        ye, ue, pw = abcd(r[0], r[1], s["t"], n, h)
        tol_u = 1e-3 * abs(h) * pw + 1e-9
        desc = "lens %s r=%s t=%s n=%.6f height %g" % (s["kind"], r, s["t"], n, h)
        require(abs(slope - ue) <= tol_u, "%s: exit slope %g, lensmaker's equation gives %g", desc, slope, ue)
        require(abs(y_exit - ye) <= 1e-3 * abs(h) + 1e-6, "%s: exit height %g, expected %g", desc, y_exit, ye)
        require(abs(float(d[1:] @ np.array([-e[1], e[0]]))) <= 1e-6 + tol_u, "%s: leaves the plane of incidence", desc)
        if pw and abs(ue) > 0.05 * abs(h) * pw and abs(ue) > 1e-6:
            bfl, fb = -ye / ue, -y_exit / slope
            require(abs(fb - bfl) <= 0.05 * abs(bfl) + 1e-3, "%s: crosses the axis %g behind the lens, back focal point at %g", desc, fb, bfl)
            ctx.label("focus-real" if bfl > 0 else "focus-virtual")
            with sut("focal length helper"):
                f = lensmakers_equation(r[0], r[1], n, s["t"])
                require(abs(f + h / slope) <= 0.03 * abs(f), "%s: focal length helper gives %g, entry height over exit slope is %g", desc, f, -h / slope)
        require(abs(res.index[rows[1]] - n) < 1e-9 and abs(res.index[rows[2]] - 1) < 1e-9, "%s: indices %s", desc, res.index[rows].tolist())
        ctx.nt(pw > 0)


def check_helper(spec, ctx):
    r1, r2, n, t = [math.inf if x == "inf" else x for x in spec["a"]]
    y, u, pw = abcd(r1, r2, t, n, 1.0)
    if abs(u) < 1e-3 * pw or pw == 0:
        return
    with sut("lensmakers_equation"):
        f = float(lensmakers_equation(r1, r2, n, t))
        require(abs(f - (-1.0 / u)) <= 1e-6 * abs(f), "lensmakers_equation(%s) = %g, paraxial focal length %g", spec["a"], f, -1.0 / u)
        k = spec["k"]
        g = float(lensmakers_equation(r1 * k, r2 * k, n, t * k))
        require(abs(g - k * f) <= 1e-6 * abs(g), "scaling the lens by %g changes the focal length from %g to %g", k, f, g)
        b = float(lensmakers_equation(-r2, -r1, n, t))
        require(abs(b - f) <= 1e-6 * abs(f), "turning the lens round changes the focal length from %g to %g", f, b)
    ctx.nt(True)


def strat():
    from checks.c15 import lens_spec
    return st.fixed_dictionaries(dict(
        lens=lens_spec(), wl=gen.milli(0.4, 0.8), h=st.lists(gen.milli(-1, 1).filter(lambda v: abs(v) > 0.1), min_size=2, max_size=2), az=st.lists(gen.milli(0, 6.3), min_size=2, max_size=2),
        back=gen.milli(0.5, 20), flip=st.booleans(), ops=st.one_of(st.just([]), st.lists(gen.SIMILAR_OP, max_size=2).map(gen._limit_scale))))


def strat_helper():
    mag = st.one_of(gen.milli(0.6, 60), st.sampled_from([1.0, 10.0, 100.0]))
    rad = st.one_of(mag, mag.map(lambda x: -x), st.just("inf"))
    return st.fixed_dictionaries(dict(a=st.tuples(rad, rad, gen.milli(1.1, 2.5), gen.milli(0, 3)).map(list), k=gen.milli(0.1, 10)))


FACETS = [
    Facet("trace", strat, check, quick=700, thorough=16000, shards=8, rule="two collimated rays near the axis at any azimuth through any placed lens, either way round", units=()),
    Facet("helper", strat_helper, check_helper, quick=1500, thorough=30000, shards=1, rule="focal length helper against surface-by-surface paraxial propagation"),
]
