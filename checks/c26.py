"""C26: Gooch shading."""
import math

import numpy as np

from vlib import gen
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.materials as matl
from tinygfx.g3d.materials import gooch
from tinygfx.g3d.materials.color import RGBAColor

RULE = "non-trivial = at least two lights or at least two points"


def ref(m, x, n, lights):
    r = 0.0
    for l in lights:
        v = [l[i] - x[i] for i in range(3)]
        d = math.sqrt(sum(c * c for c in v))
        r += 0.5 * (1 + sum(v[i] * n[i] for i in range(3)) / d)
    r /= len(lights)
    out = []
    for i in range(4):
        warm = (1 - m["alpha"]) * m["warm"][i] + m["alpha"] * m["base"][i]
        cool = (1 - m["beta"]) * m["cool"][i] + m["beta"] * m["base"][i]
        out.append(r * warm + (1 - r) * cool)
    return out


NAMED = {  # documented palette: base, warm, cool, alpha, beta
    "WHITE": dict(base=[1, 1, 1, 1], warm=[1, 0.5, 0, 1], cool=[0, 0, 1, 1], alpha=0.3, beta=0.3),
    "RED": dict(base=[1, 0, 0, 1], warm=[1, 0.5, 0, 1], cool=[0, 0, 1, 1], alpha=0.3, beta=0.3),
    "GREEN": dict(base=[0, 1, 0, 1], warm=[1, 0.5, 0, 1], cool=[0, 0, 1, 1], alpha=0.3, beta=0.3),
    "BLUE": dict(base=[0, 0, 1, 1], warm=[1, 1, 0, 1], cool=[0, 0, 1, 1], alpha=0.2, beta=0.3),
    "BLACK": dict(base=[0, 0, 0, 1], warm=[1, 0.5, 0, 1], cool=[0, 0, 1, 1], alpha=0.3, beta=0.3),
}


def check(spec, ctx):
    m = spec["mat"]
    with sut("create material"):
        if isinstance(m, str):
            obj = {"absorber": matl.absorber, "mirror": matl.mirror, "glassBK7": matl.glass["BK7"]}.get(m) or getattr(gooch, m)
            p = NAMED[{"absorber": "BLACK", "mirror": "BLUE", "glassBK7": "BLUE"}.get(m, m)]
        else:
            obj = gooch.GoochMaterial(base_color=RGBAColor(*m["base"]), warm_color=RGBAColor(*m["warm"]), cool_color=RGBAColor(*m["cool"]), alpha=m["alpha"], beta=m["beta"])
            p = m
            if spec.get("worn"):  # as the base of a user's traced material

                class Worn(matl.TracableMaterial):
                    def trace(self, surface, ray_set):
                        return ray_set
                obj = Worn(obj) if spec["worn"] == "positional" else Worn(base_material=obj)
                ctx.label("worn")
    pts, nrm, lights = [], [], spec["lights"]
    given = spec["pts"]
    if spec.get("many", 0):  # the same batch extended with displaced copies, every one with a normal of its own
        given = [[[c + 0.37 * (j // len(given)) for c in given[j % len(given)][0]], given[j % len(given)][1][j % 3:] + given[j % len(given)][1][:j % 3]] for j in range(spec.get("many", 0))]
        ctx.label("many")
    for x, n in given:
        if min(math.dist(x, l) for l in lights) < 0.05:
            continue
        k = math.sqrt(sum(c * c for c in n))
        n = [c / k for c in n] if k > 0.05 else [0.0, 0.0, 1.0]
        pts.append(x)
        nrm.append(n)
    if spec["align"] and pts:  # a point facing the first light, one facing away
        v = np.array(lights[0], dtype=float) - pts[0]
        nrm[0] = (v / np.linalg.norm(v) * spec["align"]).tolist()
    if not pts:
        return
    k = len(pts)
    rays = np.zeros((2, 4, k))
    rays[0, :3], rays[0, 3], rays[1, 0] = np.array(pts, dtype=float).T, 1.0, 1.0
    N = np.vstack((np.array(nrm, dtype=float).T, np.zeros(k)))
    L = np.vstack((np.array(lights, dtype=float).T, np.ones(len(lights))))
    with sut("shade"):
        a = rays.copy(), N.copy(), (L[:, 0].copy() if len(lights) == 1 and spec["flat"] else L.copy())
        b = [z.copy() for z in a]
        c = np.asarray(obj.shade(*a), dtype=float)
        require(all(np.array_equal(u, v) for u, v in zip(a, b)), "shading modifies its arguments")
        require(c.shape == (4, k), "colours have shape %s for %d points", c.shape, k)
        for i in range(k):
            e = ref(p, pts[i], nrm[i], lights)
            require(np.abs(c[:, i] - e).max() <= 1e-9, "point %d of %d with normal %s and lights %s: colour %s, expected %s", i, k, nrm[i], lights, c[:, i].tolist(), e)
        one = np.asarray(obj.shade(rays[..., :1].copy(), N[:, :1].copy(), L.copy()))
        require(np.abs(one[:, 0] - c[:, 0]).max() <= 1e-9, "colour depends on other points in the batch")
        perm = np.asarray(obj.shade(rays.copy(), N.copy(), L[:, ::-1].copy()))
        require(np.abs(perm - c).max() <= 1e-9, "colour depends on the order of the lights")
        if len(lights) == 1:
            far = L.copy()
            far[:3, 0] = np.array(pts[0]) + 3.0 * (far[:3, 0] - np.array(pts[0]))
            require(np.abs(np.asarray(obj.shade(rays.copy(), N.copy(), far))[:, 0] - c[:, 0]).max() <= 1e-9, "colour depends on the distance to the light")
            if spec["align"]:
                shade = [(1 - p["alpha"]) * w + p["alpha"] * q for w, q in zip(p["warm"], p["base"])] if spec["align"] > 0 else [(1 - p["beta"]) * w + p["beta"] * q for w, q in zip(p["cool"], p["base"])]
                require(np.abs(c[:, 0] - shade).max() <= 1e-9, "colour facing %s the light is %s, expected %s", "" if spec["align"] > 0 else "away from", c[:, 0].tolist(), shade)
    ctx.label("lights-%d" % len(lights))
    ctx.nt(k > 1 or len(lights) > 1)


def strat():
    c = gen.milli(0, 1)
    col = st.tuples(c, c, c, c).map(list)
    mat = st.one_of(st.fixed_dictionaries(dict(base=col, warm=col, cool=col, alpha=c, beta=c)), st.sampled_from(sorted(NAMED) + ["absorber", "mirror", "glassBK7"]))
    v = st.tuples(gen.coord(4), gen.coord(4), gen.coord(4)).map(list)
    u = st.tuples(gen.milli(-1, 1), gen.milli(-1, 1), gen.milli(-1, 1)).map(list)
    return st.fixed_dictionaries(dict(mat=mat, pts=st.lists(st.tuples(v, u).map(list), min_size=1, max_size=5), lights=gen.weighted((9, st.lists(v, min_size=1, max_size=4)), (1, st.lists(v, min_size=5, max_size=20))),
        many=gen.weighted((45, st.just(0)), (5, st.integers(6, 300)), (1, st.integers(600, 3000))), flat=st.booleans(), worn=st.sampled_from([None, None, None, "positional", "keyword"]), align=st.sampled_from([0, 0, 1, -1])))


FACETS = [Facet("shade", strat, check, quick=2500, thorough=80000, shards=4, rule="random materials, 1-5 points (now and then up to 3000), 1-4 lights (now and then up to 20) against a scalar reference")]
