"""C04: mirrors reflect about the true surface normal."""
import numpy as np

from vlib import gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx import g3d as cg

RULE = "non-trivial = at least one decided reflection off-normal (vector facet: a batch of at least two)"
ASSUMPTIONS = ["reflections within 1/1000 of an edge or at grazing incidence below 1e-4 are skipped and counted"]


def check_vector(spec, ctx):
    V = np.array(spec["v"], dtype=float).T
    n = [np.array(x, dtype=float) for x in spec["n"]]
    n = [x / np.linalg.norm(x) if np.linalg.norm(x) > 1e-3 else np.array([0.0, 0, 1]) for x in n]
    N = np.array(n).T[:, : V.shape[1]]
    N = N[:, np.resize(np.arange(N.shape[1]), V.shape[1])]
    k = V.shape[1]
    if spec["rows"] == 4:
        V, N = np.vstack((V, np.zeros(k))), np.vstack((N, np.zeros(k)))
    form = spec["form"]
    if form == "single":
        V, N = V[:, 0], N[:, 0]
    elif form == "onenormal":
        N = N[:, 0]
    with sut("reflect"):
        out = np.asarray(cg.reflect(V.copy(), N.copy()), dtype=float)
        back = np.asarray(cg.reflect(out.copy(), N.copy()), dtype=float)
        require(out.shape == V.shape, "reflecting vectors of shape %s gives shape %s", V.shape, out.shape)
    VV, OO, BB = [a.reshape(len(V), -1) for a in (V, out, back)]
    NN = np.tile(N.reshape(len(V), -1), (1, VV.shape[1]))[:, : VV.shape[1]] if N.ndim == 1 else N
    for i in range(VV.shape[1]):
        v, o, m = VV[:, i], OO[:, i], NN[:, i]
        sc = 1e-12 * (1 + np.abs(v).max())
        e = v - 2 * (v @ m) * m
        what = "vector %d of %d: %s about %s" % (i, VV.shape[1], v.tolist(), m.tolist())
        require(np.abs(o - e).max() <= sc, "%s reflects to %s, mirror image is %s", what, o.tolist(), e.tolist())
        require(abs(np.linalg.norm(o) - np.linalg.norm(v)) <= sc, "%s: length changes", what)
        require(np.abs(BB[:, i] - v).max() <= 10 * sc, "%s: reflecting twice gives %s", what, BB[:, i].tolist())
    ctx.label("form-" + form)
    ctx.nt(VV.shape[1] > 1)


def check_trace(spec, ctx):
    s = system.System(spec)
    t, res = s.trace()
    with sut("results"):
        for rid in sorted(set(res.id.tolist())):
            rows = res.of(rid)
            for a, b in zip(rows, rows[1:]):
                d, x = res.tilt[:, a], res.end[:, a]
                hit = s.leaf_hit(res.start[:, a], d, x, int(res.surface[a]))
                if hit is None:
                    ctx.label("skip-ambiguous")
                    continue
                c, leaf, ent = hit
                if leaf.mat != "mirror":
                    continue
                nd = s.after_hit(leaf, ent, x, d, 1.0, 0.5, 100.0)[0]
                if nd is None:
                    ctx.label("skip-edge")
                    continue
                what = "ray %d at %s going %s meets a %s mirror" % (rid, x.tolist(), d.tolist(), leaf.kind)
                require(np.abs(res.tilt[:, b] - nd).max() <= system.tol_dir(leaf), "%s: continues along %s, mirror image is %s", what, res.tilt[:, b].tolist(), nd.tolist())
                for f in ("wavelength", "index", "intensity"):
                    u, w = getattr(res, f)[a], getattr(res, f)[b]
                    require(u == w, "%s: %s changes from %s to %s", what, f, u, w)
                ctx.label("hit-%s-%s" % (leaf.kind, "front" if ent else "back"))
                ctx.nt(np.abs(nd + d).max() > 1e-3)


def strat_vector():
    v = st.tuples(gen.milli(-3, 3), gen.milli(-3, 3), gen.milli(-3, 3)).map(list)
    return st.fixed_dictionaries(dict(v=st.lists(v, min_size=1, max_size=7), n=st.lists(v, min_size=1, max_size=7), rows=st.sampled_from([3, 4]), form=st.sampled_from(["batch", "batch", "single", "onenormal"])))


MAT = system.mats(["mirror", "mirror", "mirror", "glass"])

FACETS = [
    Facet("vector", strat_vector, check_vector, quick=4000, thorough=60000, shards=2, rule="single vectors, batches with one normal, batches with their own normals", units=()),
    Facet("traced", lambda: system.scene(mat=MAT, ncomp=(1, 3), room_mat=st.just("mirror"), limit=st.integers(3, 10), source=system.fixed_source(3, 8, inten="bright"), lens=False), check_trace, quick=1400, thorough=32000, shards=8, rule="mirror components of any shape, combination and placement, met from both sides", units=()),
]
