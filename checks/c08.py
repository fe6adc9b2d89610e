"""C08: compound objects are hit on the boundary of their Boolean solid."""
import numpy as np

from vlib import build, gen, geo, rays
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

RULE = "non-trivial = at least one ray robustly crosses the compound solid and at least one leaf boundary crossing is hidden by the Boolean operation on some ray"


def compare(tree, built, o, d, ctx):
    """Compares all crossings; returns (rays with crossings, rays with a hidden leaf crossing)."""
    obj = built.root
    with sut("intersect"):
        hits, ids = obj.intersect(rays.homogeneous(o, d))
        hits, ids = np.asarray(hits, dtype=float), np.asarray(ids)
        require(hits.ndim == 2 and hits.shape == ids.shape and hits.shape[1] == o.shape[1],
                "result shapes %s and %s for %d rays", hits.shape, ids.shape, o.shape[1])
    crossed = hidden = 0
    for i in range(o.shape[1]):
        ref = geo.crossings(tree, o[:, i], d[:, i])
        if ref is None:
            ctx.label("skip-ambiguous")
            continue
        got = hits[:, i]
        keep = np.isfinite(got)
        t, s = got[keep], ids[:, i][keep]
        n_leaf = sum(1 for lf in tree.leaves() if lf.interval(o[:, i], d[:, i]) is not None)
        ctx.label("ray-crossings-%d" % min(len(ref), 8))
        if ref:
            crossed += 1
        if 2 * n_leaf > len(ref):
            hidden += 1
        exp = [round(e[0], 9) for e in ref]
        require(len(t) == len(ref), "ray from %s along %s: crossings at %s reported, the solid is crossed at %s",
                o[:, i].tolist(), d[:, i].tolist(), t.tolist(), exp)
        require(np.all(np.diff(t) >= 0) and np.all(keep[: len(t)]), "crossings not in ascending order: %s", got.tolist())
        for j, (te, tol, leaf, ent) in enumerate(ref):
            require(abs(t[j] - te) <= tol + 1e-8 * (1 + abs(te)), "ray from %s along %s: crossings at %s reported, the solid is crossed at %s",
                    o[:, i].tolist(), d[:, i].tolist(), t.tolist(), exp)
            require(s[j] == built.id_of(leaf.tag), "crossing at %s is attributed to surface %s, it lies on %s (%s)",
                    te, s[j], built.id_of(leaf.tag), leaf.kind)
    return crossed, hidden


def check(spec, ctx):
    s = spec["tree"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"], unit=False)
    with sut("build and move"):
        built = build.Built(s)
    ids = sorted(i for i, _ in built.root.surface_ids)
    with sut("surface ids"):
        require(ids == sorted(built.id_of(lf.tag) for lf in ref.leaves()), "surface list %s does not match the leaves", ids)
    c, h = compare(ref, built, o, d, ctx)
    ctx.label("leaves-%d" % len(ref.leaves()))
    if s.get("later"):
        ctx.label("moved-after")
    ctx.nt(c > 0 and h > 0)


def check_pair(spec, ctx):
    """Same, interleaving: after every later operation the crossings are compared again (stale state)."""
    s = dict(spec["tree"])
    later = s.pop("later", [])
    ref = geo.build_ref(s)
    with sut("build"):
        built = build.Built(s)
    total_c = total_h = 0
    for step in [None] + later:
        if step is not None:
            path, op = step
            with sut("move part"):
                geo.apply_op(built.nodes[path], op)
            geo.subtree(ref, path).transform(geo.op_matrix(op))
        o, d = rays.resolve(ref, spec["rays"], unit=False)
        c, h = compare(ref, built, o, d, ctx)
        total_c, total_h = total_c + c, total_h + h
    ctx.label("history-%d" % len(later))
    ctx.nt(total_c > 0 and len(later) > 0)


def check_batch(spec, ctx):
    s = spec["tree"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"])
    n = o.shape[1]
    build.raise_ids()
    with sut("batch"):
        built = build.Built(s)
        obj = built.root
        full_t, full_s = [np.asarray(x) for x in obj.intersect(rays.homogeneous(o, d))]
        for i in range(n):
            if geo.crossings(ref, o[:, i], d[:, i]) is None:
                continue
            t, sid = [np.asarray(x) for x in obj.intersect(rays.homogeneous(o[:, i:i + 1], d[:, i:i + 1]))]
            a, b = np.isfinite(full_t[:, i]), np.isfinite(t[:, 0])
            require(np.allclose(full_t[a, i], t[b, 0], rtol=1e-9, atol=1e-9) if a.sum() == b.sum() else False,
                    "ray %d gives %s in a batch of %d but %s alone", i, full_t[:, i].tolist(), n, t[:, 0].tolist())
            require(np.array_equal(full_s[a, i], sid[b, 0]), "ray %d is attributed to %s in a batch but %s alone", i, full_s[:, i].tolist(), sid[:, 0].tolist())
    compare(ref, built, o, d, ctx)
    ctx.nt(bool(np.isfinite(full_t).any()) and n > 1)


FACETS = [
    Facet("trees", lambda: st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=3), rays=gen.ray_specs(4, 9))), check,
          quick=1600, thorough=40000, shards=8, rule="trees of up to 8 leaves, transforms at every level before and after combining", units=()),
    Facet("pairs", lambda: st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=1), rays=gen.ray_specs(4, 9))), check,
          quick=1600, thorough=40000, shards=4, rule="two leaves", units=()),
    Facet("comb", lambda: st.fixed_dictionaries(dict(tree=gen.comb(), rays=gen.ray_specs(4, 9))), check,
          quick=400, thorough=10000, rule="a row of 4-14 leaves united in any order and cut by a bigger shape: many crossings per ray", units=(), shards=4),
    Facet("sheets", lambda: st.fixed_dictionaries(dict(tree=gen.sheets(), rays=gen.ray_specs(6, 12))), check,
          quick=600, thorough=16000, rule="two or three plates of 2e-5 to 1e-2 thickness, united, intersected or subtracted", units=(), shards=4),
    Facet("histories", lambda: st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=3, max_later=4), rays=gen.ray_specs(3, 6))), check_pair,
          quick=600, thorough=16000, shards=4, rule="crossings compared after every later transform", units=()),
    Facet("crowd", lambda: st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=2), rays=gen.crowd_specs(upto=110))), check, quick=60, thorough=1500, shards=4, rule="batches of 60 to 110 rays"),
    Facet("batch", lambda: st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=2), rays=gen.ray_specs(3, 8))), check_batch,
          quick=300, thorough=8000, shards=2, rule="each ray alone against the batch, with high object numbers", units=()),
]
