"""C15: lenses are the documented solids."""
import math

import numpy as np

from vlib import build, gen, geo, optics_ref as R, rays, sim, solid
from vlib.core import Facet, require, sut
from hypothesis import assume, strategies as st

import pyrayt.components as pc
import pyrayt.materials as matl

RULE = "non-trivial = at least one ray robustly crosses the lens"
ASSUMPTIONS = ["concave surfaces have a radius larger than the aperture's half diagonal and the thickness is below 0.9 of the smallest radius"]


def make(s):
    kw = {}
    if s["ap"] is not None:
        kw["aperture"] = tuple(s["ap"]) if isinstance(s["ap"], list) else s["ap"]
    mat = build.material(s["mat"]) if s["mat"] is not None else matl.glass["ideal"]
    if s["mat"] is not None:
        kw["material"] = mat
    f = {"thick": pc.thick_lens, "biconvex": pc.biconvex_lens, "plano": pc.plano_convex_lens}[s["kind"]]
    args = [float("inf") if r == "inf" else r for r in s["r"]]
    return f(*(args + [s["t"]]), **kw), mat


def ref_of(s):
    ap = 1 if s["ap"] is None else s["ap"]
    r = [math.inf if x == "inf" else x for x in s["r"]]
    if s["kind"] == "biconvex":
        r = [abs(r[0]), -abs(r[1])]
    elif s["kind"] == "plano":
        r = [math.inf, -abs(r[0])]
    return R.thick(r[0], r[1], s["t"], ap), r, ap


def valid(s):
    ap = 1 if s["ap"] is None else s["ap"]
    rs = [x for x in s["r"] if x != "inf"]
    if any(s["t"] > 0.9 * abs(x) for x in rs):
        return False
    if s["kind"] == "thick":
        c = R.corner(ap)
        if s["r"][0] != "inf" and s["r"][0] < 0 and c > 0.95 * abs(s["r"][0]):
            return False
        if s["r"][1] != "inf" and s["r"][1] > 0 and c > 0.95 * abs(s["r"][1]):
            return False
        # a convex surface must not fold back inside the aperture next to a concave one
        if any(c > 0.95 * abs(x) for x in rs) and any((i == 0 and x != "inf" and x < 0) or (i == 1 and x != "inf" and x > 0) for i, x in enumerate(s["r"])):
            return False
    return True


def clamp(s):
    """Makes a generated spec valid by enlarging the radii."""
    s = dict(s)
    for _ in range(12):
        if valid(s):
            return s
        s["r"] = [x if x == "inf" else round(x * 1.7, 6) for x in s["r"]]
    return s


def rim_rays(s, ap, rim):
    """Rays in the lens' own frame, nearly along its axis, close to the outline of the aperture."""
    O, D = [], []
    for q in rim:
        if isinstance(ap, list) and ap[0] > 0:
            y, z = ap[0] / 2 * q["u"], ap[1] / 2 * (q["f"] if q["corner"] else q["v"])
            if q["swap"] and not q["corner"]:
                y, z = ap[0] / 2 * q["v"], ap[1] / 2 * q["u"]
        else:
            a, b = (abs(ap[0]) / 2, abs(ap[1]) / 2) if isinstance(ap, list) else (ap / 2, ap / 2)
            y, z = a * q["u"] * math.cos(3.2 * q["v"]), b * q["u"] * math.sin(3.2 * q["v"])
        d = np.array([q["dir"], q["tilt"][0], q["tilt"][1]])
        O.append(np.array([0.0, y, z]) - q["back"] * d)
        D.append(d)
    return np.array(O).T, np.array(D).T


def check(spec, ctx):
    s = clamp(spec["lens"])
    with sut("create lens"):
        obj, mat = make(s)
    ref, r, ap = ref_of(s)
    c = R.corner(ap)
    aim = geo.Leaf("box", [-s["t"] / 2 - 0.1, -c, -c, s["t"] / 2 + 0.1, c, c], np.eye(4))
    for op in spec["ops"]:
        with sut("move lens"):
            geo.apply_op(obj, op)
        ref.transform(geo.op_matrix(op))
        aim.transform(geo.op_matrix(op))
    if "rim" in spec:
        o, d = rim_rays(s, ap, spec["rim"])
        for op in spec["ops"]:
            m = geo.op_matrix(op)
            o, d = m[:3, :3] @ o + m[:3, 3:4], m[:3, :3] @ d
        d = d / np.linalg.norm(d, axis=0)
    else:
        o, d = rays.resolve([aim], spec["rays"])
    with sut("material"):
        for _, surf in obj.surface_ids:
            require(surf.material is mat, "%s lens: a surface has material %r instead of the requested one", s["kind"], surf.material)
        if s["mat"] is None:
            require(mat.index_at(0.5) == 1.5, "default glass index is %s", mat.index_at(0.5))
    n = solid.compare(obj, ref, o, d, ctx, "%s lens r=%s t=%s aperture=%s" % (s["kind"], s["r"], s["t"], s["ap"]), lambda tag: mat)
    ctx.label("kind-" + s["kind"])
    ctx.label("ap-" + ("default" if s["ap"] is None else "circle" if not isinstance(s["ap"], list) else "rect" if s["ap"][0] > 0 else "ellipse"))
    ctx.nt(n > 0)


def check_vertex(spec, ctx):
    """The optical axis meets the lens at x = -t/2 and t/2, facing -x and +x."""
    s = clamp(spec["lens"])
    with sut("create lens"):
        obj, mat = make(s)
        for sgn in (1.0, -1.0):
            o, d = np.array([[-sgn * spec["back"]], [0], [0]]), np.array([[sgn], [0], [0]])
            hits, ids = [np.asarray(a) for a in obj.intersect(rays.homogeneous(o, d))]
            t = hits[np.isfinite(hits[:, 0]), 0]
            x = np.sort(o[0, 0] + sgn * t)
            require(len(x) == 2 and np.abs(x - np.array([-s["t"] / 2, s["t"] / 2])).max() <= 1e-9 * (1 + spec["back"]),
                    "%s lens r=%s t=%s: the axis meets it at x = %s", s["kind"], s["r"], s["t"], x.tolist())
            lut = dict(obj.surface_ids)
            for j, tt in enumerate(t):
                nx = np.asarray(lut[ids[np.isfinite(hits[:, 0]), 0][j]].get_world_normals(np.array([[o[0, 0] + sgn * tt], [0], [0], [1.0]])))[:3, 0]
                require(np.abs(nx - np.array([-sgn if j == 0 else sgn, 0, 0])).max() < 1e-6, "%s lens: normal at the vertex is %s", s["kind"], nx.tolist())
    ctx.nt(True)


def lens_spec(kinds=("thick", "biconvex", "plano"), inf=True):
    mag = st.one_of(gen.milli(0.6, 6), st.sampled_from([1.0, 2.0, 5.0, 10.0, 40.0, 100.0, 1000.0, 1e4, 1e5]))
    signed = st.tuples(mag, st.booleans()).map(lambda t: t[0] if t[1] else -t[0])
    rad = gen.weighted((4, signed), (1, st.just("inf"))) if inf else signed
    ap = st.one_of(
        st.none(), gen.milli(0.1, 2.0), gen.milli(0.1, 2.0), st.tuples(gen.milli(0.1, 2), gen.milli(0.1, 2)).map(list),
        st.tuples(gen.milli(0.1, 2), gen.milli(0.1, 2)).map(lambda t: [-t[0], -t[1]]))
    mat = st.one_of(st.none(), gen.milli(1.2, 2.5).map(lambda n: ["n", n]), st.sampled_from([["glass", "BK7"], ["glass", "SF5"], ["glass", "SF2"], ["glass", "ideal"]]))
    return st.sampled_from(list(kinds)).flatmap(lambda k: st.fixed_dictionaries(dict(
        kind=st.just(k), r=st.lists(rad, min_size=1 if k == "plano" else 2, max_size=1 if k == "plano" else 2), t=gen.milli(0.02, 1.2), ap=ap, mat=mat)))


def rim_strat():
    near = st.tuples(st.one_of(gen.milli(0.9, 1.05), st.sampled_from([0.99, 0.995, 1.005, 1.01])), st.sampled_from([1, -1])).map(lambda t: t[0] * t[1])
    ray = st.fixed_dictionaries(dict(u=near, f=near, v=gen.milli(-1, 1), corner=st.booleans(), swap=st.booleans(), dir=st.sampled_from([1.0, -1.0]),
                                     tilt=st.tuples(st.one_of(st.just(0.0), gen.milli(-0.2, 0.2)), st.one_of(st.just(0.0), gen.milli(-0.2, 0.2))).map(list), back=gen.milli(0, 6)))
    return st.fixed_dictionaries(dict(lens=lens_spec(), ops=gen.ops(2), rim=st.lists(ray, min_size=5, max_size=10)))


FACETS = [
    Facet("rim", rim_strat, check, quick=1000, thorough=24000, shards=8, rule="rays within 10%% of the outline of the aperture".replace("%%", "%"), units=()),
    Facet("solid", lambda: st.fixed_dictionaries(dict(lens=lens_spec(), ops=gen.ops(2), rays=gen.ray_specs(5, 10))), check, quick=2000, thorough=50000, shards=8,
          rule="any lens, aperture and glass, placed; 5-10 rays: crossings, normals, materials", units=()),
    Facet("vertices", lambda: st.fixed_dictionaries(dict(lens=lens_spec(), back=gen.milli(2, 9))), check_vertex, quick=500, thorough=10000, shards=2, rule="rays on the optical axis", units=()),
]
