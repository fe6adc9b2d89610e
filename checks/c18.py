"""C18: baffles and apertures."""
import math

import numpy as np

from vlib import build, gen, geo, sim
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc
import pyrayt.materials as matl
from tinygfx import g3d as cg

RULE = "non-trivial = at least one ray is clearly absorbed and at least one clearly passes"


def radius(ap, y, z):
    """< 1 inside the outline, > 1 outside."""
    if not isinstance(ap, list):
        return math.hypot(y, z) / (ap / 2)
    a, b = abs(ap[0]) / 2, abs(ap[1]) / 2
    if ap[0] > 0:
        return max(abs(y) / a, abs(z) / b)
    return math.hypot(y / a, z / b)


def tup(ap):
    return tuple(ap) if isinstance(ap, list) else ap


def check(spec, ctx):
    size, hole = spec["size"], spec["hole"]
    with sut("create"):
        obj = pc.baffle(tup(size)) if hole is None else pc.aperture(tup(size), tup(hole))
    what = "baffle(%s)" % (size,) if hole is None else "aperture(%s, %s)" % (size, hole)
    O, D, expect = [], [], []
    outline = [size] + ([hole] if hole is not None else [])
    rs = list(spec["rays"])
    for i in range(len(rs), spec.get("fill", 0)):
        q = rs[i % len(spec["rays"])]
        rs.append(dict(q, of=i, u=1.3 * math.sin(1.7 * i), v=1.3 * math.sin(2.9 * i + 1)))
    for r in rs:
        ap = outline[r["of"] % len(outline)]
        hy, hz = (abs(ap[0]) / 2, abs(ap[1]) / 2) if isinstance(ap, list) else (ap / 2, ap / 2)
        p = np.array([0, r["u"] * hy, r["v"] * hz])
        d = np.array(r["d"], dtype=float)
        d[0] = d[0] if abs(d[0]) > 0.02 else 0.5
        d /= np.linalg.norm(d)
        O.append(p - r["back"] * d)
        D.append(d)
        ms = [radius(a, p[1], p[2]) for a in outline]
        if any(abs(m - 1) < 1e-4 for m in ms):
            expect.append(None)
        else:
            expect.append(ms[0] < 1 and (hole is None or ms[1] > 1))
    O, D = np.array(O).T, np.array(D).T
    m = np.eye(4)
    for op in spec["ops"]:
        with sut("move"):
            geo.apply_op(obj, op)
        m = geo.op_matrix(op) @ m
    src = sim.FixedSource(m[:3, :3] @ O + m[:3, 3:4], m[:3, :3] @ D)
    t, res = sim.trace([src], [obj, sim.sky(300.0 * spec.get("unit", 1))] if not spec["swap"] else [sim.sky(300.0 * spec.get("unit", 1)), obj], limit=5)
    n_abs = n_pass = 0
    with sut("results"):
        ids = {i for i, _ in obj.surface_ids}
        for _, srf in obj.surface_ids:
            if hole is None:
                require(srf.material is matl.absorber, "%s: surface material %r is not the absorber", what, srf.material)
        for k, ex in enumerate(expect):
            if ex is None:
                ctx.label("skip-edge")
                continue
            rows = res.of(k)
            require(len(rows) == 1, "%s: ray %d has %d rows", what, k, len(rows))
            hit = int(res.surface[rows[0]]) in ids
            p = O[:, k] + rs[k]["back"] * D[:, k]
            require(hit == ex, "%s: ray through (y, z) = (%g, %g) is %s", what, p[1], p[2], "absorbed" if hit else "not absorbed")
            require(np.abs(res.tilt[:, rows[0]] - m[:3, :3] @ D[:, k]).max() < 1e-9 and res.intensity[rows[0]] == 100 and res.index[rows[0]] == 1, "%s: passing ray is changed", what)
            if ex:
                e = (m @ np.append(p, 1.0))[:3]
                require(np.abs(res.end[:, rows[0]] - e).max() <= 1e-6, "%s: ray is absorbed at %s instead of %s", what, res.end[:, rows[0]].tolist(), e.tolist())
                n_abs += 1
            else:
                n_pass += 1
    ctx.label("absorbed", n_abs)
    ctx.label("passed", n_pass)
    ctx.nt(n_abs > 0 and n_pass > 0)


def outline():
    a = gen.milli(0.05, 4)
    return st.one_of(a, st.tuples(a, a).map(list), st.tuples(a, a).map(lambda t: [-t[0], -t[1]]))


def strat(hole):
    u = st.one_of(gen.milli(-1.4, 1.4), gen.milli(-1.02, 1.02), gen.milli(-0.9, 0.9))
    ray = st.fixed_dictionaries(dict(of=st.integers(0, 1), u=u, v=u, d=st.tuples(gen.milli(-1, 1), gen.milli(-1, 1), gen.milli(-1, 1)).map(list), back=gen.milli(0.001, 12)))
    return st.fixed_dictionaries(dict(size=outline(), hole=outline() if hole else st.none(), rays=st.lists(ray, min_size=5, max_size=12),
                                      ops=st.lists(gen.RIGID_OP, max_size=3), swap=st.booleans(), fill=gen.FILL))


FACETS = [
    Facet("baffle", lambda: strat(False), check, quick=700, thorough=20000, shards=6, rule="traces of 5-12 rays through chosen points of the baffle plane from both sides", units=("size", "hole")),
    Facet("aperture", lambda: strat(True), check, quick=900, thorough=20000, shards=6, rule="the same for apertures, points relative to the size or to the opening", units=("size", "hole")),
]
