"""C11: transform algebra of every placeable object."""
import math

import numpy as np

from vlib import build, gen, geo
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt
import pyrayt.components as pc
from tinygfx import g3d as cg

RULE = "non-trivial = at least two accepted operations, or an operation that must be rejected after at least one accepted one"

KINDS = ["world", "sphere", "cyl", "par", "box", "plane", "union", "difference", "group", "camera", "line", "circle", "cone", "wedge", "lamp", "slamp", "lens", "mirror", "prism", "baffle"]


def make(kind):
    """A new object and the starting object-to-world matrix (taken from the object for finished components)."""
    f = {
        "world": cg.WorldObject, "sphere": lambda: cg.Sphere(1.5), "cyl": lambda: cg.Cylinder(1, -1, 2), "par": lambda: cg.Paraboloid(1, 2),
        "box": lambda: cg.Cuboid((-1, -2, 0), (1, 1, 3)), "plane": lambda: cg.XYPlane(2, 3),
        "union": lambda: cg.csg.union(cg.Sphere(1), cg.Sphere(1).move_x(1)),
        "difference": lambda: cg.csg.difference(cg.Cuboid(), cg.Sphere(1)),
        "group": lambda: cg.ObjectGroup([cg.Sphere(1)]), "camera": lambda: cg.OrthographicCamera(4, 2.0, 1.0),
        "line": lambda: pc.LineOfRays(2), "circle": lambda: pc.CircleOfRays(2), "cone": lambda: pc.ConeOfRays(10), "wedge": lambda: pc.WedgeOfRays(20),
        "lamp": lambda: pc.Lamp(1, 2, 10), "slamp": lambda: pc.StaticLamp(1, 2, 10),
        "lens": lambda: pc.biconvex_lens(10, 10, 1), "mirror": lambda: pc.parabolic_mirror(5, 1), "prism": lambda: pc.equilateral_prism(2, 1),
        "baffle": lambda: pc.baffle((1, 2)),
    }[kind]
    o = f()
    return o, np.array(o.get_world_transform(), dtype=float)


def apply(o, op):
    """Like geo.apply_op but also through keyword and default arguments."""
    k = op[0]
    if k == "kmove":
        return o.move(**op[1])
    if k == "kscale":
        return o.scale(**op[1])
    if k == "krot":
        return getattr(o, "rotate_" + op[1])(op[2], units=op[3])
    if k == "krotp":
        return getattr(o, "rotate_" + op[1])(op[2], op[3])
    return geo.apply_op(o, op)


def matrix(op):
    k = op[0]
    if k == "kmove":
        return geo.op_matrix(["move"] + [op[1].get(a, 0.0) for a in "xyz"])
    if k == "kscale":
        return geo.op_matrix(["scale"] + [op[1].get(a, 1.0) for a in "xyz"])
    if k in ("krot", "krotp"):
        return geo.op_matrix(["r" + op[1] + ("r" if op[3] == "rad" else ""), op[2]])
    return geo.op_matrix(op)


def rejected(op):
    k = op[0]
    if k in ("krot", "krotp"):
        return op[3] not in ("deg", "rad")
    if k == "scale":
        return min(op[1:4]) <= 0
    if k in ("sx", "sy", "sz", "sall"):
        return op[1] <= 0
    if k == "kscale":
        return any(v <= 0 for v in op[1].values())
    return False


def state(o):
    return [np.array(x, dtype=float) for x in (o.get_world_transform(), o.get_object_transform(), o.get_position(), o.get_orientation())]


class Bound:
    """How far rounding may carry each entry of the product of the operations (absolute matrices multiplied)."""

    def __init__(self, start):
        self.b, self.k = np.abs(start), 1.0

    def add(self, t):
        a = np.abs(t)
        if np.abs(t[:3, :3] - np.diag(np.diag(t[:3, :3]))).max() > 0:
            a[:3, :3] = np.maximum(a[:3, :3], np.linalg.norm(t[:3, :3], 2))
        self.b = a @ self.b
        self.k += 1

    def turned(self, angle):  # a large angle is itself only given to so many digits
        self.k += abs(angle)

    @property
    def tol(self):
        return 3e-14 * self.k * self.b + 1e-300


def angle_of(op):
    if op[0] in ("krot", "krotp"):
        return op[2] if op[3] == "rad" else math.radians(op[2])
    if op[0] in ("rx", "ry", "rz", "rxr", "ryr", "rzr"):
        return op[1] if len(op[0]) == 3 else math.radians(op[1])
    return 0.0


def check_state(o, m, acc, pts, what, bound):
    w, inv, pos, ori = state(o)
    require(w.shape == (4, 4) and np.all(np.abs(w - m) <= bound.tol), "%s: world transform is %s, the product of the operations is %s", what, w.tolist(), m.tolist())
    mi = np.linalg.inv(m)
    tol = 1e-9 * acc * (1 + np.abs(mi).max())
    require(np.abs(inv - mi).max() <= tol, "%s: object transform %s is not the inverse %s", what, inv.tolist(), mi.tolist())
    require(np.all(np.abs(pos - m[:, 3]) <= bound.tol[:, 3]), "%s: position %s, expected %s", what, pos.tolist(), m[:, 3].tolist())
    z = m[:, 2] / np.linalg.norm(m[:3, 2])
    require(np.abs(ori - z).max() <= 4 * bound.tol[:3, 2].max() / np.linalg.norm(m[:3, 2]) + 1e-15, "%s: orientation %s, expected %s", what, ori.tolist(), z.tolist())
    h = np.vstack((np.array(pts, dtype=float).T, np.ones(len(pts))))
    a = np.asarray(o.to_world_coordinates(h))
    require(np.abs(a - m @ h).max() <= 1e-8 * (1 + np.abs(m @ h).max()), "%s: world coordinates %s, expected %s", what, a.tolist(), (m @ h).tolist())
    b = np.asarray(o.to_object_coordinates(a))
    require(np.abs(b - h).max() <= 1e-7 * acc * (1 + np.abs(h).max()), "%s: converting coordinates to the world and back gives %s for %s", what, b.tolist(), h.tolist())
    c = np.asarray(o.to_object_coordinates(h))
    require(np.abs(c - mi @ h).max() <= 1e-7 * acc * (1 + np.abs(mi @ h).max()), "%s: object coordinates %s, expected %s", what, c.tolist(), (mi @ h).tolist())


def check(spec, ctx):
    with sut("create"):
        o, start = make(spec["kind"])
    m, done, rej = start, 0, 0
    rigid = abs(np.linalg.det(start[:3, :3]) - 1) < 1e-9
    acc, bound = 1.0, Bound(start)
    for op in spec["ops"]:
        what = "%s after %s" % (spec["kind"], spec["ops"])
        if rejected(op):
            with sut("state"):
                before = state(o)
            try:
                apply(o, op)
            except Exception:
                pass
            else:
                require(False, "%s: %s is accepted", spec["kind"], op)
            with sut("state"):
                after = state(o)
                require(all(np.array_equal(x, y) for x, y in zip(before, after)), "%s: a rejected %s changes the object", what, op)
            rej += done > 0
            ctx.label("rejected")
            continue
        with sut("operation %s" % op[0]):
            r = apply(o, op)
        require(r is o, "%s does not return the object", op)
        t = matrix(op)
        m = t @ m
        bound.add(t)
        bound.turned(angle_of(op))
        acc = max(acc, np.linalg.cond(m[:3, :3])) * 1.0
        rigid = rigid and np.allclose(t[:3, :3] @ t[:3, :3].T, np.eye(3), rtol=0, atol=1e-12)
        done += 1
        with sut("state"):
            check_state(o, m, acc, spec["pts"], what, bound)
    with sut("returned matrices"):
        a, b = o.get_world_transform(), o.get_object_transform()
        a[:], b[:] = 7.0, 7.0
        check_state(o, m, acc, spec["pts"], "%s after writing to the returned matrices" % spec["kind"], bound)
        if rigid:
            x, y, z, w = [float(v) for v in o.get_quaternion()]
            n = math.sqrt(x * x + y * y + z * z + w * w)
            rot = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
            require(abs(n - 1) < 1e-9 and np.abs(rot - m[:3, :3]).max() < 1e-8, "%s: quaternion %s does not describe the rotation %s", spec["kind"], [x, y, z, w], m[:3, :3].tolist())
            ctx.label("quaternion")
    ctx.label("kind-" + spec["kind"])
    ctx.nt(done >= 2 or rej > 0)


def bad_op():
    bad = st.one_of(st.sampled_from([0.0, -1.0, -0.5, 0]), gen.milli(-3, 0))
    good = gen.FACTOR
    return st.one_of(
        st.tuples(st.integers(0, 2), bad, good, good).map(lambda t: ["scale"] + [t[1] if i == t[0] else (t[2] if i == 2 else t[3]) for i in range(3)]),
        st.tuples(st.sampled_from(["sx", "sy", "sz", "sall"]), bad).map(list),
        st.tuples(st.sampled_from("xyz"), bad).map(lambda t: ["kscale", {t[0]: t[1]}]),
        st.tuples(st.sampled_from(["krot", "krotp"]), st.sampled_from("xyz"), gen.ANGLE, st.sampled_from(["degrees", "grad", "", "DEG", "turns", "Rad"])).map(list))


def kw_op():
    return st.one_of(
        st.tuples(st.sampled_from(["xy", "x", "z", "yz", "xyz", "y", ""]), gen.coord(3), gen.coord(3), gen.coord(3)).map(lambda t: ["kmove", {a: v for a, v in zip(t[0], t[1:])}]),
        st.tuples(st.sampled_from(["xy", "x", "z", "yz", "xyz", "y", ""]), gen.FACTOR, gen.FACTOR, gen.FACTOR).map(lambda t: ["kscale", {a: v for a, v in zip(t[0], t[1:])}]),
        st.tuples(st.sampled_from(["krot", "krotp"]), st.sampled_from("xyz"), gen.ANGLE, st.sampled_from(["deg"])).map(list),
        st.tuples(st.sampled_from(["krot", "krotp"]), st.sampled_from("xyz"), gen.RANGLE, st.sampled_from(["rad"])).map(list))


def limit(lst):
    """Keeps the accumulated scale within [0.05, 20]."""
    hi = lo = 1.0
    out = []
    for op in lst:
        if not rejected(op):
            s = np.linalg.svd(matrix(op)[:3, :3], compute_uv=False)
            if hi * s[0] > 20 or lo * s[-1] < 0.05:
                continue
            hi, lo = hi * s[0], lo * s[-1]
        out.append(op)
    return out


def slight_op():
    """Very small and rather large steps."""
    tiny = st.tuples(st.sampled_from([1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-9, 1e-11]), gen.milli(-9, 9)).map(lambda t: t[0] * t[1])
    big = st.tuples(gen.milli(-9, 9), st.sampled_from([1e3, 1e3, 1e6])).map(lambda t: t[0] * t[1])
    return st.one_of(
        st.tuples(st.sampled_from(["mx", "my", "mz"]), st.one_of(tiny, tiny, big)).map(list),
        st.tuples(st.just("move"), tiny, tiny, tiny).map(list),
        st.tuples(st.just("move"), big, tiny, tiny).map(list), st.tuples(st.just("move"), tiny, st.just(0.0), big).map(list),
        st.tuples(st.sampled_from(["rx", "ry", "rz", "rxr", "ryr", "rzr"]), tiny).map(list),
        st.tuples(st.sampled_from(["sx", "sy", "sz", "sall"]), tiny.map(lambda v: 1.0 + v / 10)).map(list))


def strat():
    op = st.one_of(gen.an_op(shear=True), gen.an_op(), kw_op(), bad_op(), slight_op())
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), ops=st.one_of(st.lists(op, min_size=1, max_size=7).map(limit), st.lists(st.one_of(gen.RIGID_OP, gen.RIGID_OP, gen.RIGID_OP, slight_op().filter(lambda o: o[0][0] != "s")), min_size=1, max_size=6)),
        pts=st.lists(st.tuples(gen.coord(5), gen.coord(5), gen.coord(5)).map(list), min_size=1, max_size=3)))


FACETS = [Facet("histories", strat, check, quick=3000, thorough=100000, shards=8, rule="up to 7 operations on any placeable object, the reference matrix compared after each")]
