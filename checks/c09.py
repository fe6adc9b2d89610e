"""C09: normals of compound objects point out of the compound solid."""
import numpy as np

from vlib import build, gen, geo, rays
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

RULE = "non-trivial = at least one crossing lies on a surface whose outward direction is reversed by a difference, or the object is nested (histories, invert: at least one crossing away from edges)"


def points(tree, o, d):
    """Robust crossings away from edges: list of (ray, leaf, point, expected outward normal of the compound solid)."""
    out = []
    for i in range(o.shape[1]):
        ref = geo.crossings(tree, o[:, i], d[:, i])
        for t, tol, leaf, entering in ref or []:
            x = o[:, i] + t * d[:, i]
            n = leaf.world_normal(x)
            if n is None:
                continue
            c = float(n @ d[:, i]) / float(np.linalg.norm(d[:, i]))
            if abs(c) < 1e-3:
                continue
            flip = (c > 0) == entering
            out.append((i, leaf, x, -n if flip else n, flip))
    return out


def probe(built, pts, d, sign, ctx, what=""):
    lut = dict(built.root.surface_ids)
    rev = 0
    for i, leaf, x, n, flip in pts:
        s = lut[built.id_of(leaf.tag)]
        got = np.asarray(s.get_world_normals(np.append(x, 1.0).reshape(4, 1)), dtype=float)[:, 0]
        tol = 1e-6 * max(1.0, float(np.linalg.cond(leaf.m[:3, :3])))
        exp = sign * n
        if leaf.kind == "plane":  # a sheet has two sides: only the direction up to sign is determined
            require(min(np.abs(got[:3] - n).max(), np.abs(got[:3] + n).max()) <= tol, "%snormal of a rectangle at %s is %s, expected +-%s", what, x.tolist(), got.tolist(), n.tolist())
            continue
        require(got[3] == 0 and np.abs(got[:3] - exp).max() <= tol,
                "%snormal of %s at %s is %s, the outward normal of the compound solid is %s", what, leaf.kind, x.tolist(), got.tolist(), exp.tolist())
        rev += bool(flip)
        ctx.label("crossing")
    return rev


def check(spec, ctx):
    s = spec["tree"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"])
    with sut("normals of compound object"):
        built = build.Built(s)
        pts = points(ref, o, d)
        rev = probe(built, pts, d, 1.0, ctx)
    ctx.label("reversed", rev)
    ctx.nt(rev > 0 or (len(ref.leaves()) > 2 and len(pts) > 0))


def check_invert(spec, ctx):
    s = spec["tree"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"])
    with sut("normals of compound object"):
        built = build.Built(s)
        state = 1.0
        total = 0
        for op in spec["ops"]:
            if op == "invert":
                built.root.invert_normals()
                state = -1.0
            elif op == "reset":
                built.root.reset_normals()
                state = 1.0
            else:
                geo.apply_op(built.nodes[""], op)
                t = geo.op_matrix(op)
                ref.transform(t)
                o = t[:3, :3] @ o + t[:3, 3:4]
                d = t[:3, :3] @ d
            pts = points(ref, o, d)
            total += len(pts)
            probe(built, pts, d, state, ctx, "after %s: " % spec["ops"])
    ctx.nt(total > 0)


def strat(depth, later=3):
    return st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=depth, max_later=later), rays=gen.ray_specs(4, 9)))


FACETS = [
    Facet("nested", lambda: strat(3), check, quick=1600, thorough=40000, shards=8, rule="trees of up to 8 leaves with transforms at every level", units=()),
    Facet("pairs", lambda: strat(1), check, quick=1200, thorough=20000, shards=4, rule="two leaves", units=()),
    Facet("comb", lambda: st.fixed_dictionaries(dict(tree=gen.comb(), rays=gen.ray_specs(4, 9))), check, quick=300, thorough=8000, shards=4, rule="a row of 4-14 leaves cut by a bigger shape", units=()),
    Facet("invert", lambda: st.fixed_dictionaries(dict(
        tree=gen.moved_tree(depth=3, max_later=1), rays=gen.ray_specs(3, 6),
        ops=st.lists(st.one_of(st.sampled_from(["invert", "invert", "reset"]), gen.RIGID_OP), min_size=1, max_size=5))),
        check_invert, quick=700, thorough=16000, shards=4, rule="sequences of inverting, resetting and moving", units=()),
]
