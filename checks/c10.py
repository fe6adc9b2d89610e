"""C10: bounding volumes."""
import numpy as np

from vlib import build, gen, geo
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

RULE = "non-trivial = at least one sampled point belongs to the object and a transform is applied (tight: a transform is applied)"

U = st.tuples(gen.milli(-1, 1), gen.milli(-1, 1), gen.milli(-1, 1)).map(list)


def leaf_points(leaf, us):
    """World points inside the leaf: the box point pulled radially inside the shape, plus the extreme points."""
    lo, hi = geo.extents(leaf.kind, leaf.p)
    c, h = 0.5 * (lo + hi), 0.5 * (hi - lo)
    out = []
    ext = [[s if i == j else 0.0 for j in range(3)] for i in range(3) for s in (-1.0, 1.0)]
    for u in list(us) + ext:
        u = np.array(u, dtype=float)
        x = c + h * u
        if leaf.kind == "sphere":
            n = np.linalg.norm(u)
            x = c + h * u / n if n > 0 else c
        elif leaf.kind == "cyl":
            n = np.hypot(u[0], u[1])
            if n > 0:
                x[:2] = c[:2] + h[:2] * u[:2] / n
        elif leaf.kind == "par":
            n = np.hypot(u[0], u[1])
            r = np.sqrt(4 * leaf.p[0] * x[2])
            x[:2] = r * u[:2] / n if n > 0 else 0
        mid = c if leaf.kind != "par" else np.array([0, 0, 0.6 * leaf.p[1]])
        x = mid + 0.999 * (x - mid)
        out.append(leaf.m[:3, :3] @ x + leaf.m[:3, 3])
    return out


def spans(obj, what):
    bv = obj.bounding_volume
    pts = np.asarray(bv.bounding_points, dtype=float)
    require(pts.shape == (4, 8), "%s: bounding volume has points of shape %s", what, pts.shape)
    lo, hi = pts[:3].min(axis=1), pts[:3].max(axis=1)
    sp = np.asarray(bv.axis_spans, dtype=float)
    require(np.array_equal(np.nan_to_num(sp[:, 0], posinf=1e300), np.nan_to_num(lo, posinf=1e300)) and np.array_equal(np.nan_to_num(sp[:, 1], posinf=1e300), np.nan_to_num(hi, posinf=1e300)),
            "%s: corner points %s and axis spans %s of the bounding volume differ", what, pts.tolist(), sp.tolist())
    return lo, hi


def check(spec, ctx):
    s = dict(spec["tree"])
    later = s.pop("later", [])
    ref = geo.build_ref(s)
    with sut("build"):
        built = build.Built(s)
    inside_total = 0
    for k, step in enumerate([None] + later):
        if step is not None:
            with sut("transform"):
                geo.apply_op(built.nodes[step[0]], step[1])
            geo.subtree(ref, step[0]).transform(geo.op_matrix(step[1]))
        for path in built.nodes:
            node = geo.subtree(ref, path)
            with sut("bounding volume"):
                lo, hi = spans(built.nodes[path], "after step %d" % k)
            cand = [x for lf in node.leaves() for x in leaf_points(lf, spec["u"])]
            for x in cand:
                if not node.contains(x, -1e-9):
                    continue
                inside_total += 1
                m = 1e-7 * (1 + np.abs(x).max())
                require(np.all(x >= lo - m) and np.all(x <= hi + m),
                        "after step %d %s: point %s of part '%s' lies outside its bounding volume %s..%s", k, step, x.tolist(), path, lo.tolist(), hi.tolist())
    ctx.label("points", inside_total)
    ctx.label("leaves-%d" % len(ref.leaves()))
    ctx.nt(inside_total > 0 and (bool(later) or any(lf.m.tolist() != np.eye(4).tolist() for lf in ref.leaves())))


def check_tight(spec, ctx):
    s = dict(spec["leaf"])
    mag = 10.0 ** spec.get("mag", 0)  # everything at another order of magnitude
    if mag != 1.0:
        s["p"] = [([x * mag for x in v] if isinstance(v, list) else v * mag) for v in s["p"]]
        ctx.label("magnitude")
    ref = geo.Leaf(s["kind"], s["p"], np.eye(4))
    with sut("build"):
        obj = build.leaf(s)
    for op in [None] + spec["ops"]:
        if op is not None:
            if op[0] in ("move", "mx", "my", "mz"):
                op = op[:1] + [x * mag for x in op[1:]]
            with sut("transform"):
                require(geo.apply_op(obj, op) is obj, "operation does not return the object")
            ref.transform(geo.op_matrix(op))
        with sut("bounding volume"):
            lo, hi = spans(obj, str(op))
            lo2, hi2 = np.asarray(obj.bounding_box.axis_spans).T
            require(np.allclose(lo, lo2, atol=1e-12 * mag) and np.allclose(hi, hi2, atol=1e-12 * mag), "bounding box and bounding volume differ")
        a, b = geo.extents(s["kind"], s["p"])
        sc = np.diag(ref.m)[:3]
        ea, eb = a * sc + ref.m[:3, 3], b * sc + ref.m[:3, 3]
        tol = 1e-9 * (mag + np.abs(ea) + np.abs(eb))
        pad = tol.copy()
        if s["kind"] == "plane":
            pad[2] += 0.0101 * sc[2]
        require(np.all(np.abs(lo - ea) <= pad) and np.all(np.abs(hi - eb) <= pad),
                "%s %s: bounding volume %s..%s, the shape extends over %s..%s", s["kind"], s["p"], lo.tolist(), hi.tolist(), ea.tolist(), eb.tolist())
        require(np.all(lo <= ea + tol) and np.all(hi >= eb - tol), "bounding volume is smaller than the shape")
    ctx.label("kind-" + s["kind"])
    ctx.nt(bool(spec["ops"]))


FACETS = [
    Facet("trees", lambda: st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=3, max_later=4), u=st.lists(U, min_size=2, max_size=6))), check,
          quick=700, thorough=24000, shards=8, rule="every node of trees of up to 8 leaves after every later transform of any part", units=()),
    Facet("pairs", lambda: st.fixed_dictionaries(dict(tree=gen.moved_tree(depth=1, max_later=3), u=st.lists(U, min_size=2, max_size=6))), check,
          quick=500, thorough=16000, shards=4, rule="two leaves", units=()),
    Facet("single", lambda: st.fixed_dictionaries(dict(tree=st.tuples(gen.leaf(shear=True, max_ops=4), st.lists(gen.an_op(shear="mirror"), max_size=3)).map(
        lambda t: dict(t[0], later=[["", o] for o in t[1]])), u=st.lists(U, min_size=2, max_size=6))), check,
          quick=600, thorough=16000, shards=2, rule="single primitives with rotation and shear", units=()),
    Facet("tight", lambda: st.fixed_dictionaries(dict(leaf=gen.leaf_shape(), ops=st.lists(st.one_of(gen._MOVE + gen._SCALE), max_size=5).map(gen._limit_scale),
        mag=gen.weighted((3, st.just(0)), (1, st.integers(-10, 6))))), check_tight,
          quick=800, thorough=20000, shards=2, rule="unrotated primitives", units=()),
]
