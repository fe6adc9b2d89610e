"""C17: mirrors are the documented surfaces and focus as documented."""
import math

import numpy as np

from vlib import build, gen, geo, optics_ref as R, rays, sim, solid
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc
import pyrayt.materials as matl

RULE = "non-trivial = at least one ray robustly meets the mirror"
ASSUMPTIONS = ["spherical mirrors have a positive radius larger than the aperture's farthest point from the axis; thickness is positive except for plane mirrors"]


def corner_from_axis(s):
    off = s["off"] or [0, 0]
    if isinstance(s["ap"], list):
        return math.hypot(abs(off[0]) + abs(s["ap"][0]) / 2, abs(off[1]) + abs(s["ap"][1]) / 2)
    return math.hypot(*off) + (1 if s["ap"] is None else s["ap"]) / 2


def clamp(s):
    s = dict(s)
    if s["kind"] == "sphere" and s["r"] != "inf":
        off = s["off"] or [0, 0]
        need = max(math.hypot(*off) + R.corner(1 if s["ap"] is None else s["ap"]), corner_from_axis(s)) / 0.9
        if s["r"] < need:
            s["r"] = round(need * (1 + s["r"] / 10), 6)
    if s["kind"] != "plane" and s["t"] < 0.02:
        s["t"] = 0.02
    return s


def make(s):
    kw = {}
    if s["ap"] is not None:
        kw["aperture"] = tuple(s["ap"]) if isinstance(s["ap"], list) else s["ap"]
    if s["off"] is not None:
        kw["off_axis"] = tuple(s["off"])
    mat = matl.mirror
    if s["mat"] is not None:
        mat = build.material(s["mat"])
        kw["material"] = mat
    if s["kind"] == "plane":
        o = pc.plane_mirror(s["t"], **kw)
    elif s["kind"] == "sphere":
        o = pc.spherical_mirror(math.inf if s["r"] == "inf" else s["r"], s["t"], **kw)
    else:
        o = pc.parabolic_mirror(s["f"], s["t"], **kw)
    return o, mat


def ref_of(s):
    ap = 1 if s["ap"] is None else s["ap"]
    off = s["off"] or [0.0, 0.0]
    if s["kind"] == "plane" or (s["kind"] == "sphere" and s["r"] == "inf"):
        if s["t"] == 0:
            return None, lambda tag: True
        return R.slab(ap, -s["t"], 0.0, off), lambda tag: True
    far = corner_from_axis(s)
    if s["kind"] == "sphere":
        r = s["r"]
        front = r - math.sqrt(r * r - far * far)
        n = geo.Node("difference", R.slab(ap, -s["t"], front + 0.02 * r, off, "side"), R.ball(r, r, "mirror"))
    else:
        f = s["f"]
        front = far * far / (4 * f) - f
        pad = 0.1 * (far * far / (4 * f) + 0.1)
        par = geo.Leaf("par", [f, front + f + 4 * pad], geo.op_matrix(["mx", -f]) @ R.AX, "mirror")
        n = geo.Node("difference", R.slab(ap, -f - s["t"], front + pad, off, "side"), par)
    return n, lambda tag: tag == "mirror"


def describe(s):
    return "%s mirror %s" % (s["kind"], {k: v for k, v in s.items() if k != "kind"})


def aim_box(s):
    c = R.corner(1 if s["ap"] is None else s["ap"])
    off = s["off"] or [0, 0]
    x1 = 0.1
    if s["kind"] == "sphere" and s["r"] != "inf":
        x1 = s["r"] - math.sqrt(s["r"] ** 2 - corner_from_axis(s) ** 2) + 0.05
    x0 = -s["t"] - 0.1
    if s["kind"] == "par":
        x0 = -s["f"] - s["t"] - 0.1
        x1 = corner_from_axis(s) ** 2 / (4 * s["f"]) - s["f"] + 0.05
    return geo.Leaf("box", [x0, off[0] - c, off[1] - c, x1, off[0] + c, off[1] + c], np.eye(4))


def check(spec, ctx):
    s = clamp(spec["mirror"])
    with sut("create mirror"):
        obj, mat = make(s)
    ref, is_mirror = ref_of(s)
    aim = aim_box(s)
    o, d = rays.resolve([aim], spec["rays"])
    ctx.label("kind-" + s["kind"])
    if ref is None:  # zero thickness: both faces coincide in the plane x = 0
        ap = 1 if s["ap"] is None else s["ap"]
        off = s["off"] or [0.0, 0.0]
        n = 0
        with sut("intersect"):
            hits = np.asarray(obj.intersect(rays.homogeneous(o, d))[0], dtype=float)
            for i in range(o.shape[1]):
                if abs(d[0, i]) < 1e-4:
                    continue
                t = -o[0, i] / d[0, i]
                p = o[:, i] + t * d[:, i]
                y, z = p[1] - off[0], p[2] - off[1]
                m = max(abs(y) / (abs(ap[0]) / 2), abs(z) / (abs(ap[1]) / 2)) if isinstance(ap, list) and ap[0] > 0 else (
                    math.hypot(y / (abs(ap[0]) / 2), z / (abs(ap[1]) / 2)) if isinstance(ap, list) else math.hypot(y, z) / (ap / 2))
                if abs(m - 1) < 1e-5:
                    continue
                got = hits[np.isfinite(hits[:, i]), i]
                if m > 1:
                    require(len(got) == 0, "%s: ray crossing the plane outside the aperture meets it at %s", describe(s), got.tolist())
                else:
                    require(len(got) > 0 and np.abs(got - t).max() <= 1e-7 * (1 + abs(t)), "%s: ray crosses the plane at %g, reported %s", describe(s), t, got.tolist())
                    n += 1
        ctx.nt(n > 0)
        return
    for op in spec["ops"]:
        with sut("move mirror"):
            geo.apply_op(obj, op)
        t = geo.op_matrix(op)
        ref.transform(t)
        o = t[:3, :3] @ o + t[:3, 3:4]
        d = t[:3, :3] @ d
    n = solid.compare(obj, ref, o, d, ctx, describe(s), lambda tag: mat if is_mirror(tag) else matl.absorber)
    ctx.nt(n > 0)


def line_distance(x, d, p):
    v = p - x
    return float(np.linalg.norm(v - (v @ d) * d))


def check_focus(spec, ctx):
    """Traces rays parallel to the axis (parabola) or from the centre (sphere)."""
    s = clamp(spec["mirror"])
    with sut("create mirror"):
        obj, mat = make(s)
    ap = 1 if s["ap"] is None else s["ap"]
    off = s["off"] or [0.0, 0.0]
    hy, hz = (abs(ap[0]) / 2, abs(ap[1]) / 2) if isinstance(ap, list) else (ap / 2, ap / 2)
    ell = not (isinstance(ap, list) and ap[0] > 0)
    O, D, inside = [], [], []
    far = corner_from_axis(s)
    for u, v in spec["pts"]:
        y, z = off[0] + u * hy, off[1] + v * hz
        m = math.hypot(u, v) if ell else max(abs(u), abs(v))
        if abs(m - 1) < 1e-3:
            continue
        if s["kind"] == "par":
            O.append([far * far / (4 * s["f"]) - s["f"] + spec["back"], y, z])
            D.append([-1.0, 0, 0])
        else:
            c = np.array([s["r"], 0, 0])
            rho = math.hypot(y, z)
            if rho > 0.94 * s["r"]:
                continue
            p = np.array([s["r"] - math.sqrt(s["r"] ** 2 - rho * rho), y, z])
            O.append(c.tolist())
            D.append(((p - c) / np.linalg.norm(p - c)).tolist())
        inside.append(m < 1)
    if not O:
        return
    src = sim.FixedSource(np.array(O).T, np.array(D).T)
    m = np.eye(4)
    for op in spec["ops"]:
        with sut("move system"):
            geo.apply_op(obj, op)
            geo.apply_op(src, op)
        m = geo.op_matrix(op) @ m
    t, res = sim.trace([src], [obj, sim.sky(800.0 * max(spec.get("unit", 1), s.get("r", 1) / 100, s.get("f", 1) / 50))], limit=3)
    focus = m[:3, 3] if s["kind"] == "par" else (m @ np.array([s["r"], 0, 0, 1.0]))[:3]
    sc = abs(np.linalg.det(m[:3, :3])) ** (1 / 3)
    with sut("results"):
        ids = {i for i, _ in obj.surface_ids}
        for k, ins in enumerate(inside):
            rows = res.of(k)
            hit = int(res.surface[rows[0]]) in ids
            if s["kind"] == "par" or ins:
                require(hit == ins, "%s: ray through (%s) %s the mirror", describe(s), spec["pts"], "misses" if ins else "meets")
            if not ins or not hit:
                ctx.label("outside")
                continue
            require(len(rows) >= 2, "%s: a ray meeting the mirror is not reflected (%d rows)", describe(s), len(rows))
            x, d = res.start[:, rows[1]], res.tilt[:, rows[1]]
            dist = line_distance(x, d, focus)
            size = sc * (far + (s["f"] if s["kind"] == "par" else s["r"]) + far * far / (4 * s.get("f", 1)))
            require(dist <= 2e-6 * (1 + size), "%s: a reflected ray passes the focus at %s at a distance of %g", describe(s), focus.tolist(), dist)
            require((focus - x) @ d > 0, "%s: a reflected ray leads away from the focus", describe(s))
            ctx.label("focused")
            ctx.nt(True)


def mirror_spec(kinds):
    ap = st.one_of(
        st.none(), gen.milli(0.1, 3), st.tuples(gen.milli(0.1, 3), gen.milli(0.1, 3)).map(list),
        st.tuples(gen.milli(0.1, 3), gen.milli(0.1, 3)).map(lambda t: [-t[0], -t[1]]))
    off = st.one_of(st.none(), st.none(), st.tuples(gen.coord(2.5), gen.coord(2.5)).map(list))
    base = dict(ap=ap, off=off, t=st.one_of(gen.milli(0.02, 2), gen.milli(0.02, 2)), mat=st.sampled_from([None, None, None, ["half", 0.5]]))

    def mk(k):
        b = dict(base, kind=st.just(k))
        if k == "plane":
            b["t"] = st.one_of(gen.milli(0.02, 2), gen.milli(0.02, 2), st.just(0))
        if k == "sphere":
            b["r"] = st.one_of(gen.milli(0.3, 10), gen.milli(0.3, 10), gen.milli(0.3, 10), st.sampled_from([30.0, 300.0, 3000.0, 3e4, 1e5]), st.just("inf"))
        if k == "par":
            b["f"] = gen.weighted((6, gen.milli(0.2, 6)), (1, st.sampled_from([20.0, 200.0, 2000.0, 2e4])))
        return st.fixed_dictionaries(b)
    return st.sampled_from(kinds).flatmap(mk)


def strat():
    return st.fixed_dictionaries(dict(mirror=mirror_spec(["plane", "sphere", "par", "sphere", "par"]), ops=gen.ops(2), rays=gen.ray_specs(5, 9)))


def strat_focus():
    def fin(s):
        return dict(s, r=7.0) if s.get("r") == "inf" else s
    u = gen.milli(-1.2, 1.2)
    return st.fixed_dictionaries(dict(mirror=mirror_spec(["sphere", "par"]).map(fin), pts=st.lists(st.tuples(u, u).map(list), min_size=4, max_size=10),
                                      back=gen.milli(0.1, 20), ops=st.lists(gen.SIMILAR_OP, max_size=2).map(gen._limit_scale)))


FACETS = [
    Facet("solid", strat, check, quick=1600, thorough=40000, shards=8, rule="any mirror, aperture, off-axis point; crossings, normals and which surfaces reflect or absorb", units=()),
    Facet("focus", strat_focus, check_focus, quick=700, thorough=16000, shards=6, rule="traces through parabolic and spherical mirrors", units=()),
]
