"""C03: Snell's law with index bookkeeping."""
import math

import numpy as np

from vlib import gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx import g3d as cg

RULE = "non-trivial = a decided refraction at an index step (vector facet: at least two rays with different fates or indices)"
ASSUMPTIONS = ["angles within 1e-6 of the critical angle and grazing contacts are skipped and counted"]


def unit(v):
    v = np.array(v, dtype=float)
    n = np.linalg.norm(v)
    return v / n if n > 1e-3 else np.array([1.0, 0, 0])


def check_vector(spec, ctx):
    D, N, A, B = [], [], [], []
    qs = list(spec["rays"])
    for i in range(len(qs), spec.get("fill", 0)):  # more rays: the same ones seen from turned normals
        q = dict(qs[i % len(spec["rays"])])
        q["v"] = [q["v"][0] + math.sin(1.7 * i), q["v"][1] + math.sin(2.9 * i), q["v"][2] + math.sin(4.3 * i)]
        qs.append(q)
    for q in qs:
        n = unit(q["n"])
        if q.get("dn") is not None:  # nearly matched indices
            q = dict(q, n2=max(1.0, q["n1"] + q["dn"]))
        if q["mode"] == "angle":  # a chosen angle of incidence in a chosen plane
            p = np.cross(n, unit(q["v"]))
            p = unit(p) if np.linalg.norm(p) > 1e-3 else unit(np.cross(n, [0.3, 0.5, -0.7]))
            th = math.radians(q["th"])
            d = math.sin(th) * p + math.cos(th) * n * (1 if q["out"] else -1)
        elif q["mode"] == "critical":
            p = np.cross(n, unit(q["v"]))
            p = unit(p) if np.linalg.norm(p) > 1e-3 else unit(np.cross(n, [0.3, 0.5, -0.7]))
            n2 = spec["ng"] if q["out"] else q["n2"]
            s = min(1.0, n2 / q["n1"]) * (1 + q["eps"])
            s = min(s, 0.9999999)
            d = s * p + math.sqrt(1 - s * s) * n * (1 if q["out"] else -1)
        else:
            d = unit(q["v"])
        D.append(d)
        N.append(n)
        A.append(q["n1"])
        B.append(q["n2"])
    k = len(D)
    if not spec["arr"]:
        B = [B[0]] * k
    D, N = np.array(D).T, np.array(N).T
    if spec["rows"] == 4:
        D, N = np.vstack((D, np.zeros(k))), np.vstack((N, np.zeros(k)))
    scale = spec["len"]
    kw = {} if spec["ng"] == 1.0 else dict(n_global=spec["ng"])
    with sut("refract"):
        out, idx = cg.refract(D * scale, N.copy(), np.array(A), np.array(B) if spec["arr"] else B[0], **kw)
        out, idx = np.asarray(out, dtype=float), np.broadcast_to(np.asarray(idx, dtype=float), (k,))
        require(out.shape == D.shape, "refracted directions have shape %s for input shape %s", out.shape, D.shape)
    kinds = set()
    for i in range(k):
        d, n = D[:3, i], N[:3, i]
        c = float(d @ n)
        if abs(c) < 1e-6:
            continue
        n2 = spec["ng"] if c > 0 else B[i]
        r = sim.snell(d, n, A[i], n2)
        if r is None:
            ctx.label("skip-critical")
            continue
        what = "ray %d of %d: direction %s, normal %s, n1=%g, n2=%g" % (i, k, d.tolist(), n.tolist(), A[i], n2)
        require(np.abs(out[:3, i] - r[0]).max() <= 1e-8, "%s: refracted to %s, Snell's law gives %s", what, out[:3, i].tolist(), r[0].tolist())
        require(abs(idx[i] - r[1]) <= 1e-12, "%s: index afterwards %s, expected %s", what, idx[i], r[1])
        require(spec["rows"] == 3 or abs(out[3, i]) <= 1e-15, "%s: homogeneous part of the direction is %s", what, out[-1, i])
        tir = r[1] == A[i] and A[i] != n2
        kinds.add((tir, A[i], n2))
        ctx.label("tir" if tir else "in" if c < 0 else "out")
    ctx.nt(len(kinds) > 1)


def check_trace(spec, ctx):
    s = system.System(spec)
    t, res = s.trace()
    with sut("results"):
        for rid in sorted(set(res.id.tolist())):
            rows = res.of(rid)
            for a, b in zip(rows, rows[1:]):
                d, x = res.tilt[:, a], res.end[:, a]
                hit = s.leaf_hit(res.start[:, a], d, x, int(res.surface[a]))
                if hit is None:
                    ctx.label("skip-ambiguous")
                    continue
                c, leaf, ent = hit
                if leaf.mat in ("mirror", "absorber") or leaf.mat[0] in ("att", "half"):
                    continue
                n1, wl = float(res.index[a]), float(res.wavelength[a])
                nd, ni, _ = s.after_hit(leaf, ent, x, d, n1, wl, 100.0)
                if nd is None:
                    ctx.label("skip-edge")
                    continue
                what = "ray %d at %s going %s (%s %s glass %s, n1=%.6f, wavelength %g)" % (rid, x.tolist(), d.tolist(), "into" if ent else "out of", leaf.kind, leaf.mat, n1, wl)
                g = res.tilt[:, b]
                require(np.abs(g - nd).max() <= system.tol_dir(leaf), "%s: continues along %s, Snell's law gives %s", what, g.tolist(), nd.tolist())
                require(abs(res.index[b] - ni) <= 1e-9, "%s: index afterwards %s, expected %s", what, res.index[b], ni)
                require(res.wavelength[b] == res.wavelength[a] and res.intensity[b] == res.intensity[a], "%s: wavelength %s -> %s, intensity %s -> %s", what, wl, res.wavelength[b], res.intensity[a], res.intensity[b])
                n2 = sim.index_of(leaf.mat, wl) if ent else 1.0
                step = abs(n1 - n2) > 1e-6
                ctx.label(("tir" if ni == n1 else "in" if ent else "out") if step else "no-step")
                ctx.nt(step)


def strat_vector():
    v = st.tuples(gen.milli(-1, 1), gen.milli(-1, 1), gen.milli(-1, 1)).map(list)
    idx = st.one_of(gen.milli(1, 3), st.sampled_from([1.0, 1.5, 1.33, 2.0]))
    common = dict(n=v, v=v, n1=idx, n2=idx, dn=st.sampled_from([None] * 6 + [1e-2, -1e-2, 3e-3, -1e-3, 1e-4, 0.0]), out=st.booleans())
    ray = st.one_of(
        st.fixed_dictionaries(dict(common, mode=st.just("free"))),
        st.fixed_dictionaries(dict(common, mode=st.just("angle"), th=st.one_of(gen.milli(0, 89.9), st.sampled_from([0.0, 1e-4, 45.0, 60.0, 89.0])))),
        st.fixed_dictionaries(dict(common, mode=st.just("critical"), eps=st.sampled_from([-1e-1, -1e-2, -1e-3, -1e-4, -1e-5, -3e-6, 3e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1]))))
    return st.fixed_dictionaries(dict(
        rays=st.lists(ray, min_size=1, max_size=8), rows=st.sampled_from([3, 4]), arr=st.booleans(),
        len=st.sampled_from([1.0, 1.0, 0.25, 7.0]), ng=st.sampled_from([1.0, 1.0, 1.0, 1.33, 2.0]), fill=gen.FILL))


MAT = system.mats(["glass", "glass", "glass", "mirror"])

FACETS = [
    Facet("vector", strat_vector, check_vector, quick=4000, thorough=80000, shards=4, rule="1-8 directions per batch, free / chosen angle / near-critical, each with its own indices"),
    Facet("traced", lambda: system.scene(mat=MAT, ncomp=(1, 3), room_mat=st.just("mirror"), limit=st.integers(3, 10), source=system.fixed_source(3, 8, inten="bright")), check_trace, quick=1400, thorough=32000, shards=8, rule="glass components of any shape and placement, overlapping or not, mixed wavelengths", units=()),
]
