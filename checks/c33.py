"""C33: points, vectors, rays and colours are named, live 4-vectors."""
import copy
import math

import numpy as np

from vlib import gen
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx import g3d as cg
from tinygfx.g3d import primitives, operations
from tinygfx.g3d.materials.color import RGBAColor

RULE = "non-trivial = at least three actions including a write after a view was taken, or at least two vectors"
ASSUMPTIONS = ["normalisation of vectors shorter than 1e-100 is not claimed"]
NUM = st.one_of(gen.milli(-50, 50), st.integers(-9, 9), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0, 1, -1, 1e-9, 1e9, 0.1, 1 / 3.0]))
KINDS = {"point": (cg.Point, "xyzw", 1.0), "vector": (cg.Vector, "xyzw", 0.0), "coord": (primitives.HomogeneousCoordinate, "xyzw", 0.0), "color": (RGBAColor, "rgba", 1.0)}


def same(a, b):
    return len(a) == len(b) and all(float(x) == float(y) for x, y in zip(a, b))


def build(kind, args, how):
    cls, names, last = KINDS[kind]
    n = min(len(args), 4 if kind in ("coord", "color") else 3)
    args = args[:n]
    kw = {}
    if how == "kw":
        obj = cls(**dict(zip(names, args)))
    elif how == "mixed":
        obj = cls(*args[: n // 2], **dict(list(zip(names, args))[n // 2:]))
    else:
        obj = cls(*args)
    return obj, [float(a) for a in args] + [0.0] * (3 - n) + ([last] if n < 4 else [])


def check_named(spec, ctx):
    cls, names, _ = KINDS[spec["kind"]]
    with sut("create"):
        o, m = build(spec["kind"], spec["args"], spec["how"])
        require(isinstance(o, cls) and isinstance(o, np.ndarray) and o.shape == (4,) and o.dtype == float, "%s(%s) is a %s of shape %s", spec["kind"], spec["args"], type(o).__name__, getattr(o, "shape", None))
        require(same(o, m), "%s(%s) holds %s, expected %s", spec["kind"], spec["args"], o.tolist(), m)
        views = [(o, m)]
        wrote = False
        for a in spec["acts"]:
            i = a[1] % len(views)
            x, mx = views[i]
            c = a[2] % 4
            v = float(a[3])
            if a[0] == "attr":
                setattr(x, names[c], a[3])
                mx[c] = v
                wrote = len(views) > 1
            elif a[0] == "item":
                x[c] = a[3]
                mx[c] = v
            elif a[0] == "view":  # a second name of the same memory
                views.append((x.view(cls), mx))
            elif a[0] == "copy":
                y = x.copy() if c < 2 else copy.deepcopy(x)
                require(isinstance(y, cls), "a copy of a %s is a %s", cls.__name__, type(y).__name__)
                views.append((y, list(mx)))
            elif a[0] == "norm" and spec["kind"] != "color":
                ln = math.sqrt(sum(t * t for t in mx[:3]))
                if ln < 1e-100 or ln > 1e100:
                    continue
                r = x.normalize()
                require(r is x, "normalize does not return the object itself")
                e = [t / ln for t in mx[:3]] + [mx[3]]
                require(all(abs(p - q) <= 1e-12 * (1 + abs(q)) for p, q in zip(x, e)), "normalize of %s gives %s", mx, x.tolist())
                mx[:] = [float(t) for t in x]
            elif a[0] == "new":  # another object never shares memory
                views.append(build(spec["kind"], spec["args"], spec["how"]))
            elif a[0] == "sum" and len(views) < 12:
                y = x + views[0][0]
                views.append((y, [p + q for p, q in zip(mx, views[0][1])]))
            elif a[0] == "times":
                y = 2.0 * x
                views.append((y, [2.0 * p for p in mx]))
            for x, mx in views:
                require(same(x, mx), "after %s: the object holds %s, expected %s", a, x.tolist(), mx)
                for k, nm in enumerate(names):
                    g = getattr(x, nm)
                    require(np.ndim(g) == 0 and float(g) == mx[k], "after %s: .%s is %s, expected %s", a, nm, g, mx[k])
    ctx.label(spec["kind"])
    ctx.nt(len(spec["acts"]) >= 3 and wrote)


def check_ray(spec, ctx):
    """Rays: two rows, each a live named coordinate; parts given at creation are copied."""
    with sut("ray"):
        p, d = cg.Point(*spec["p"]), cg.Vector(*spec["d"])
        how = spec["how"]
        r = cg.Ray(p, d) if how == "pos" else cg.Ray(origin=p, direction=d) if how == "kw" else cg.Ray(direction=d) if how == "d" else cg.Ray(p) if how == "o" else cg.Ray()
        m = [[float(x) for x in spec["p"]] + [1.0], [float(x) for x in spec["d"]] + [0.0]]
        if how == "four":  # parts of any kind keep all four of their components
            q = [float(spec["n"]), float(spec["acts"][0][3])]
            m[0][3], m[1][3] = q
            a, b = m[0], m[1]
            r = cg.Ray(*[(x, np.array(x), primitives.HomogeneousCoordinate(*x), tuple(x))[(spec["n"] + i) % 4] for i, x in enumerate((a, b))])
        elif how == "swapped":  # a vector as origin, a point as direction
            m[0][3], m[1][3] = 0.0, 1.0
            r = cg.Ray(cg.Vector(*spec["p"]), cg.Point(*spec["d"]))
        if how in ("d", "none"):
            m[0] = [0, 0, 0, 1.0]
        if how in ("o", "none"):
            m[1] = [1.0, 0, 0, 0]
        keep = [list(m[0]), list(m[1])]
        require(isinstance(r, np.ndarray) and r.shape == (2, 4), "a ray has shape %s", r.shape)
        other = cg.Ray()
        for a in spec["acts"]:
            row, c, v = a[1] % 2, a[2] % 4, a[3]
            part = "direction" if row else "origin"
            if a[0] == "attr":
                setattr(getattr(r, part), "xyzw"[c], v)
                m[row][c] = float(v)
            elif a[0] == "item":
                r[row, c] = v
                m[row][c] = float(v)
            elif a[0] == "set":
                vals = [v, c, v, row]
                setattr(r, part, cg.Vector(v, c, v) if row else cg.Point(v, c, v))
                m[row] = [float(v), float(c), float(v), 0.0 if row else 1.0]
            elif a[0] == "source":  # changing what the ray was made from
                p.x, d.y = v, v
            elif a[0] == "norm":
                ln = math.sqrt(sum(t * t for t in m[1][:3]))
                if ln < 1e-100 or ln > 1e100:
                    continue
                r.direction.normalize()
                e = [t / ln for t in m[1][:3]] + [m[1][3]]
                require(all(abs(x - y) <= 1e-12 for x, y in zip(r[1], e)), "normalised direction %s of %s", r[1].tolist(), m[1])
                m[1] = [float(t) for t in r[1]]
            require(same(r[0], m[0]) and same(r[1], m[1]), "after %s: the ray holds %s, expected %s", a, r.tolist(), m)
            for row, part in ((0, "origin"), (1, "direction")):
                g = getattr(r, part)
                require(same(g, m[row]) and all(float(getattr(g, "xyzw"[k])) == m[row][k] for k in range(4)), "after %s: %s is %s, expected %s", a, part, g.tolist(), m[row])
        require(other.tolist() == [[0, 0, 0, 1], [1, 0, 0, 0]] and cg.Ray().tolist() == [[0, 0, 0, 1], [1, 0, 0, 0]], "a default ray is %s after another ray was changed", cg.Ray().tolist())
        n = spec["n"]
        rays = [r] + [cg.Ray(cg.Point(i, 2 * i, -i), cg.Vector(1, i, 0)) for i in range(n)]
        b = np.asarray(primitives.bundle_rays(rays))
        require(b.shape == (2, 4, n + 1), "a bundle of %d rays has shape %s", n + 1, b.shape)
        for i, x in enumerate(rays):
            require(np.array_equal(b[:, :, i], np.asarray(x)), "column %d of the bundle is %s, the ray is %s", i, b[:, :, i].tolist(), x.tolist())
        z = cg.bundle_of_rays(n)
        e = np.zeros((2, 4, n))
        e[0, 3] = 1
        require(np.array_equal(np.asarray(z), e), "bundle_of_rays(%d) is %s", n, np.asarray(z).tolist())
        if n:
            z[spec["acts"][0][1] % 2, spec["acts"][0][2] % 4, n // 2] = 7.5  # bundles never share memory
            require(np.array_equal(np.asarray(cg.bundle_of_rays(n)), e), "bundle_of_rays(%d) is %s after an earlier bundle was changed", n, np.asarray(cg.bundle_of_rays(n)).tolist())
            before = [np.array(x) for x in rays]
            bundle = primitives.bundle_rays(rays)
            bundle[0] = 3.0
            require(all(np.array_equal(np.asarray(x), k) for x, k in zip(rays, before)), "writing to a bundle changes the rays it was made from")
    ctx.label(how)
    ctx.nt(len(spec["acts"]) >= 3)


def check_dot(spec, ctx):
    """Dot products along either axis; a single pair of vectors gives one number."""
    a, b = np.array(spec["a"], dtype=float), np.array(spec["b"], dtype=float)
    rows = spec["rows"]
    n = len(a) // rows
    a, b = a[: n * rows].reshape(rows, n), b[: n * rows].reshape(rows, n)
    if spec["layout"] == "t":
        a, b = np.asfortranarray(a), b.copy()
    elif spec["layout"] == "strided":
        a = np.repeat(a, 2, axis=1)[:, ::2]
    ka, kb = a.copy(), b.copy()
    with sut("element_wise_dot"):
        for axis in (0, 1):
            g = np.asarray(operations.element_wise_dot(a, b, axis=axis))
            e = [math.fsum(float(a[i, j]) * float(b[i, j]) for i in range(rows)) for j in range(n)] if axis == 0 else [math.fsum(float(a[i, j]) * float(b[i, j]) for j in range(n)) for i in range(rows)]
            require(g.shape == (len(e),), "axis %d of %s: shape %s", axis, a.shape, g.shape)
            for x, y in zip(g, e):
                require(abs(x - y) <= 1e-9 * (1 + np.abs(a).max() * np.abs(b).max() * max(n, rows)) * 1e-3, "axis %d: %s, expected %s", axis, g.tolist(), e)
        g = np.asarray(operations.element_wise_dot(a, b))
        require(np.allclose(g, [float(a[:, j] @ b[:, j]) for j in range(n)], rtol=1e-9, atol=1e-6), "default axis: %s", g.tolist())
        g = operations.element_wise_dot(a[:, 0], b[:, 0])
        require(np.ndim(g) == 0 and abs(float(g) - float(ka[:, 0] @ kb[:, 0])) <= 1e-9 * (1 + np.abs(a).max() * np.abs(b).max() * rows), "single pair: %s", g)
    require(np.array_equal(a, ka) and np.array_equal(b, kb), "the arguments are changed")
    ctx.label("rows-%d" % rows)
    ctx.nt(n >= 2)


ACT = st.tuples(st.sampled_from(["attr", "attr", "item", "view", "copy", "norm", "new", "sum", "times"]), st.integers(0, 5), st.integers(0, 3), NUM).map(list)
RACT = st.tuples(st.sampled_from(["attr", "attr", "item", "set", "source", "norm"]), st.integers(0, 1), st.integers(0, 3), NUM).map(list)
T3 = st.lists(NUM, min_size=3, max_size=3)
FACETS = [
    Facet("named", lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(KINDS)), args=st.lists(NUM, min_size=0, max_size=4), how=st.sampled_from(["pos", "kw", "mixed"]),
                                                      acts=st.lists(ACT, min_size=1, max_size=12))), check_named, quick=1200, thorough=20000, rule="three or more actions with a write while a second view exists", shards=2),
    Facet("ray", lambda: st.fixed_dictionaries(dict(p=T3, d=T3, how=st.sampled_from(["pos", "kw", "d", "o", "none", "four", "swapped"]), n=st.integers(0, 40), acts=st.lists(RACT, min_size=1, max_size=10))),
          check_ray, quick=800, thorough=15000, rule="three or more actions", shards=2),
    Facet("dot", lambda: st.integers(1, 60).flatmap(lambda n: st.fixed_dictionaries(dict(a=st.lists(gen.milli(-50, 50), min_size=4 * n, max_size=4 * n), b=st.lists(gen.milli(-50, 50), min_size=4 * n, max_size=4 * n),
                                                                                           rows=st.integers(1, 4), layout=st.sampled_from(["c", "t", "strided"])))), check_dot, quick=300, thorough=6000, rule="two or more columns", shards=1),
]
