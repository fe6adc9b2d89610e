"""C07: surface normals."""
import numpy as np

from vlib import build, gen, geo, rays
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

EDGE = 1e-4  # points closer than this (relative) to an edge are not decided
RULE = "non-trivial = at least one surface point away from edges on a transformed shape"


def surface_points(ref, o, d):
    """World points on the surface (entry and exit of each ray) away from edges, with the reference normal."""
    pts, nrm = [], []
    for i in range(o.shape[1]):
        stt, r = ref.robust(o[:, i], d[:, i])
        if stt != "hit":
            continue
        for t in r[:2]:
            x = o[:, i] + t * d[:, i]
            n = ref.world_normal(x, EDGE)
            if n is not None:
                pts.append(x)
                nrm.append(n)
            if ref.kind == "plane":
                break
    return np.array(pts).T.reshape(3, -1), np.array(nrm).T.reshape(3, -1)


def check(spec, ctx):
    s = spec["leaf"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"])
    if spec.get("mag"):  # the whole arrangement, rays included, at another order of magnitude
        s = dict(s, ops=s["ops"] + [["sall", 10.0 ** spec["mag"]]])
        ref = geo.build_ref(s)
        o = o * 10.0 ** spec["mag"]
        ctx.label("magnitude")
    pts, nrm = surface_points(ref, o, d)
    n = pts.shape[1]
    ctx.label("kind-" + s["kind"])
    if n == 0:
        ctx.label("no-point")
        return
    ctx.label("points", n)
    h = np.vstack((pts, np.ones(n)))
    scale = np.linalg.cond(ref.m[:3, :3])
    tol = 1e-6 * max(1.0, scale)
    with sut("normals"):
        obj = build.Built(s).root
        got = np.asarray(obj.get_world_normals(h.copy()), dtype=float)
        require(got.shape == (4, n), "normals have shape %s for %d points", got.shape, n)
        require(np.all(got[3] == 0), "homogeneous part of a normal is not zero: %s", got[3].tolist())
        require(np.allclose(np.linalg.norm(got, axis=0), 1, atol=1e-9), "normals are not unit vectors: %s", np.linalg.norm(got, axis=0).tolist())
        err = np.abs(got[:3] - nrm).max(axis=0)
        i = int(np.argmax(err))
        require(err[i] <= tol, "%s %s: normal at %s is %s, expected %s", s["kind"], s["p"], pts[:, i].tolist(), got[:3, i].tolist(), nrm[:, i].tolist())
        # the bare shape's normals at the same points, and a long list of them
        if spec.get("mass", 0) > n:
            h = np.tile(h, (1, -(-spec["mass"] // n)))[:, :spec["mass"]]
            long = np.asarray(obj.get_world_normals(h.copy()), dtype=float)
            require(long.shape == h.shape, "normals have shape %s for %d points", long.shape, h.shape[1])
            for j in range(0, h.shape[1], n):
                w = min(n, h.shape[1] - j)
                require(np.abs(long[:, j:j + w] - got[:, :w]).max() <= 1e-9, "normals at points %d to %d of %d differ from the same points alone", j, j + w, h.shape[1])
            ctx.label("mass")
        local = np.asarray(obj.to_object_coordinates(h), dtype=float)
        bare = np.asarray(obj.primitive.normal(local.copy()), dtype=float)
        require(bare.shape == h.shape and np.all(bare[3] == 0), "normals of the bare shape have shape %s and last components %s", bare.shape, bare[3].tolist()[:9])
        require(np.abs(np.linalg.norm(bare, axis=0) - 1).max() <= 1e-9, "normals of the bare shape are not unit vectors")
        turned = np.linalg.inv(ref.m[:3, :3]).T @ bare[:3]
        turned /= np.linalg.norm(turned, axis=0)
        for j in range(0, h.shape[1], n):
            w = min(n, h.shape[1] - j)
            require(np.abs(turned[:, j:j + w] - nrm[:, :w]).max() <= tol, "the bare shape's normal at %s is %s, turned into the world it is not the outward normal", local[:3, j].tolist(), bare[:3, j].tolist())
        h = h[:, :n]
        # outward: a small step along the normal leaves the solid, a step against it enters
        if s["kind"] != "plane":
            lo, hi = geo.extents(ref.kind, ref.p)
            step = 1e-4 * float(np.min(hi - lo)) * float(np.linalg.svd(ref.m[:3, :3], compute_uv=False)[-1])
            for j in range(n):
                require(not ref.contains(pts[:, j] + step * got[:3, j]), "normal at %s does not point outwards", pts[:, j].tolist())
                require(ref.contains(pts[:, j] - step * got[:3, j]), "normal at %s does not point outwards", pts[:, j].tolist())
        # single points
        one = np.asarray(obj.get_world_normals(h[:, :1].copy()))
        require(np.allclose(one[:, 0], got[:, 0], atol=1e-9), "normal of one point alone %s differs from the batch %s", one[:, 0].tolist(), got[:, 0].tolist())
        flat = np.asarray(obj.get_world_normals(h[:, 0].copy()))
        require(flat.shape == (4,) and np.allclose(flat, got[:, 0], atol=1e-9), "normal of a bare point %s differs from the batch %s", flat.tolist(), got[:, 0].tolist())
        rev = np.asarray(obj.get_world_normals(h[:, ::-1].copy()))
        require(np.allclose(rev[:, ::-1], got, atol=1e-9), "normals depend on the order of the points")
        # inversion
        obj.invert_normals()
        inv = np.asarray(obj.get_world_normals(h.copy()))
        require(np.allclose(inv, -got, atol=1e-12), "inverting the normals does not flip the sign")
        if spec["move"] is not None:
            geo.apply_op(obj, spec["move"])
        obj.reset_normals()
        if spec["move"] is None:
            back = np.asarray(obj.get_world_normals(h.copy()))
            require(np.allclose(back, got, atol=1e-12), "resetting the normals does not restore them")
        else:
            t = geo.op_matrix(spec["move"])
            h2 = t @ h
            ref2 = geo.build_ref(s)
            ref2.transform(t)
            back = np.asarray(obj.get_world_normals(h2))
            for j in range(n):
                e = ref2.world_normal(h2[:3, j], EDGE)
                if e is not None:
                    require(np.allclose(back[:3, j], e, atol=tol), "after a move the normal at %s is %s, expected %s", h2[:3, j].tolist(), back[:3, j].tolist(), e.tolist())
    ctx.nt(bool(s["ops"]))


def strat():
    return st.fixed_dictionaries(dict(
        leaf=gen.leaf(shear="mirror", max_ops=4), rays=gen.ray_specs(4, 8), mag=gen.weighted((5, st.just(0)), (1, st.integers(-6, 6))),
        move=st.one_of(st.none(), gen.an_op()), mass=gen.FILL))


def edge_strat():
    """Points next to the edges (a cap's rim, the edges of a box, the end of a tube)."""
    near = st.one_of(st.sampled_from([1, -1]).flatmap(lambda s: st.sampled_from([0.999, 0.9995, 0.998, 0.9993, 0.995]).map(lambda u: s * u)), gen.milli(-1, 1), st.just(0.0))
    ray = st.fixed_dictionaries(dict(leaf=st.just(0), tgt=st.tuples(near, near, near).map(list), axis=st.integers(0, 5), frame=st.just("local"), back=gen.milli(0, 9),
                                     tilt=st.sampled_from([0.0, 0.0, 1e-2, 1e-4]), taxis=st.integers(0, 1)))
    return st.fixed_dictionaries(dict(leaf=gen.leaf(shear="mirror", max_ops=3), rays=st.lists(ray, min_size=4, max_size=8), move=st.one_of(st.none(), gen.an_op())))


FACETS = [
    Facet("edges", edge_strat, check, quick=1200, thorough=20000, shards=4, rule="points within 5e-3 to 5e-4 of the edges of a random placed shape", units=()),
    Facet("points", strat, check, quick=3200, thorough=80000, shards=8, rule="entry and exit points of 4-8 rays on a random placed shape", units=()),
]
