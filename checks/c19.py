"""C19: equilateral prisms."""
import math

import numpy as np

from vlib import build, gen, geo, optics_ref as R, rays, sim, solid
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc
import pyrayt.materials as matl

RULE = "non-trivial = at least one ray robustly crosses the prism (deviation: every case)"


def make(spec):
    if spec["mat"] is None:
        return pc.equilateral_prism(spec["s"], spec["w"]), matl.glass["BK7"]
    mat = build.material(spec["mat"])
    return pc.equilateral_prism(spec["s"], spec["w"], material=mat), mat


def check(spec, ctx):
    s, w = spec["s"], spec["w"]
    with sut("create prism"):
        obj, mat = make(spec)
    ref = R.Poly(R.prism_planes(s, w))
    h = s * math.sqrt(3) / 2
    aim = geo.Leaf("box", [-s / 2, -w / 2, -h / 2, s / 2, w / 2, h / 2], np.eye(4))
    for op in spec["ops"]:
        with sut("move prism"):
            geo.apply_op(obj, op)
        ref.transform(geo.op_matrix(op))
        aim.transform(geo.op_matrix(op))
    o, d = rays.resolve([aim], spec["rays"])
    n = solid.compare(obj, ref, o, d, ctx, "prism(%g, %g)" % (s, w), lambda tag: mat)
    ctx.nt(n > 0)


def check_deviation(spec, ctx):
    s, w = spec["s"], spec["w"]
    with sut("create prism"):
        obj, mat = make(spec)
    h = s * math.sqrt(3) / 2
    wls = sorted(set(spec["wls"]))
    O, D, want = [], [], []
    m0 = spec["mat"] or ["glass", "BK7"]
    zc = spec["z"] * 0.4 * h  # height of the horizontal path inside
    half = (h / 2 - zc) / math.sqrt(3)  # |x| of the side faces at that height
    for wl in wls:
        n = sim.index_of(m0, wl)
        if n > 1.99:
            return
        th = math.asin(n / 2)  # incidence angle; the face normal points 30 degrees up from -x
        ang = th - math.radians(30)
        # inside direction +x meets the face normal (-cos30, 0, sin30) at 30 degrees; the incoming ray climbs by ang
        D.append([math.cos(ang), 0, math.sin(ang)])
        p = np.array([-half, spec["y"] * 0.45 * w, zc])
        O.append(p - spec["back"] * np.array(D[-1]))
        want.append(2 * th - math.radians(60))
    src = [sim.FixedSource(np.array(O[k]), np.array(D[k]), wl) for k, wl in enumerate(wls)]
    # the same rays, all wavelengths at the incidence of the first one, to compare deviations
    mix = sim.FixedSource(np.repeat(np.array(O[0]).reshape(3, 1), len(wls), axis=1), np.repeat(np.array(D[0]).reshape(3, 1), len(wls), axis=1), np.array(wls))
    for op in spec["ops"]:
        with sut("move system"):
            for x in [obj, mix] + src:
                geo.apply_op(x, op)
    t, res = sim.trace(src, [obj, sim.sky(600.0 * spec.get("unit", 1))], limit=8)
    with sut("results"):
        for k, wl in enumerate(wls):
            rows = res.of(k)
            require(len(rows) == 3, "prism(%g, %g): symmetric ray has %d rows", s, w, len(rows))
            a, b = res.tilt[:, rows[0]], res.tilt[:, rows[2]]
            dev = math.atan2(float(np.linalg.norm(np.cross(a, b))), float(a @ b))
            require(abs(dev - want[k]) <= 1e-6, "prism of %s at %g um: deviation %.6f deg, minimum deviation is %.6f deg", m0, wl, math.degrees(dev), math.degrees(want[k]))
            ctx.nt(True)
    t, res = sim.trace([mix], [obj, sim.sky(600.0 * spec.get("unit", 1))], limit=8)
    devs = []
    with sut("results"):
        for k in range(len(wls)):
            rows = res.of(k)
            if len(rows) != 3:
                return
            a, b = res.tilt[:, rows[0]], res.tilt[:, rows[2]]
            devs.append(math.atan2(float(np.linalg.norm(np.cross(a, b))), float(a @ b)))
    if m0[0] == "glass" and m0[1] != "ideal":
        for k in range(len(wls) - 1):
            if wls[k + 1] - wls[k] > 0.002:
                require(devs[k] > devs[k + 1], "prism of %s: deviation %g deg at %g um, %g deg at %g um", m0, math.degrees(devs[k]), wls[k], math.degrees(devs[k + 1]), wls[k + 1])
                ctx.label("dispersion")


MAT = st.one_of(st.none(), gen.milli(1.1, 1.95).map(lambda n: ["n", n]), st.sampled_from([["glass", "BK7"], ["glass", "SF5"], ["glass", "SF2"], ["glass", "ideal"]]))


def strat():
    return st.fixed_dictionaries(dict(s=gen.SIZE, w=gen.SIZE, mat=MAT, ops=gen.ops(3), rays=gen.ray_specs(5, 10)))


def strat_dev():
    return st.fixed_dictionaries(dict(
        s=gen.SIZE, w=gen.SIZE, mat=MAT, z=gen.milli(-1, 1), y=gen.milli(-1, 1), back=gen.milli(0.1, 10),
        wls=st.lists(gen.milli(0.4, 0.75), min_size=1, max_size=4), ops=st.lists(gen.SIMILAR_OP, max_size=2).map(gen._limit_scale)))


FACETS = [
    Facet("solid", strat, check, quick=1200, thorough=30000, shards=6, rule="any prism, placed; 5-10 rays: crossings, normals, materials", units=("s", "w")),
    Facet("deviation", strat_dev, check_deviation, quick=500, thorough=10000, shards=6, rule="symmetric rays at 1-4 wavelengths through placed prisms", units=("s", "w")),
]
