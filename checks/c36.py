"""C36: global laws of geometrical optics on whole benches (no model of the geometry is used)."""
import math

import numpy as np

from vlib import build, gen, geo, sim
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc
from tinygfx import g3d as cg
from vlib.system import GLASS

RULE = "non-trivial = a ray with at least two refractions or reflections was compared"
ASSUMPTIONS = [
    "rays whose neighbours (1e-4 apart) meet other surfaces, that graze a surface or refract close to the critical angle are skipped and counted",
    "components of a bench do not overlap; one surface bounds the media glass and air only",
]


# ------------------------------------------------------------------ strategies
@st.composite
def lens(draw):
    a = draw(gen.milli(0.3, 1.5))  # aperture radius
    r = []
    for _ in range(2):
        k = draw(gen.milli(1.15, 8))
        r.append(draw(st.sampled_from(["inf", round(a * k, 6), round(-a * k, 6), round(a * k, 6), round(-a * k, 6)])))
    return dict(kind="lens", a=a, r=r, edge=draw(gen.milli(0.05, 0.8)), mat=draw(GLASS))


def part(symmetric):
    opts = [
        lens(), lens(), lens(),
        st.fixed_dictionaries(dict(kind=st.just("ball"), a=gen.milli(0.2, 1.5), mat=GLASS)),
        st.fixed_dictionaries(dict(kind=st.just("shell"), a=gen.milli(0.5, 1.5), in_=gen.milli(0.2, 0.9), mat=GLASS)),
        st.fixed_dictionaries(dict(kind=st.just("disk"), a=gen.milli(0.5, 1.5), t=gen.milli(0.05, 1), mat=GLASS)),
        st.fixed_dictionaries(dict(kind=st.just("dome"), a=gen.milli(0.5, 1.5), f=gen.milli(0.3, 2), mat=GLASS)),
        st.fixed_dictionaries(dict(kind=st.just("sphmirror"), a=gen.milli(0.5, 1.5), k=gen.milli(1.2, 6), sign=st.sampled_from([1, -1]), t=gen.milli(0.05, 0.5))),
        st.fixed_dictionaries(dict(kind=st.just("parmirror"), a=gen.milli(0.5, 1.5), f=gen.milli(0.3, 3), t=gen.milli(0.05, 0.5))),
        st.fixed_dictionaries(dict(kind=st.just("flatmirror"), a=gen.milli(0.5, 1.5), t=gen.milli(0.05, 0.5))),
    ]
    if not symmetric:
        opts += [
            st.fixed_dictionaries(dict(kind=st.just("prism"), a=gen.milli(0.5, 2), w=gen.milli(0.5, 3), mat=GLASS)),
            st.fixed_dictionaries(dict(kind=st.just("plate"), a=gen.milli(0.5, 1.5), t=gen.milli(0.05, 1), mat=GLASS)),
            st.fixed_dictionaries(dict(kind=st.just("rod"), a=gen.milli(0.2, 1), w=gen.milli(0.5, 3), mat=GLASS)),
            st.fixed_dictionaries(dict(kind=st.just("egg"), a=gen.milli(0.3, 1), s=st.one_of(*2 * [st.tuples(*3 * [gen.milli(0.6, 1.6)])], st.tuples(*3 * [gen.milli(0.98, 1.02)])).map(list), mat=GLASS)),
            st.fixed_dictionaries(dict(kind=st.just("eggmirror"), a=gen.milli(0.3, 1), s=st.one_of(*2 * [st.tuples(*3 * [gen.milli(0.6, 1.6)])], st.tuples(*3 * [gen.milli(0.98, 1.02)])).map(list))),
            st.fixed_dictionaries(dict(kind=st.just("halfball"), a=gen.milli(0.3, 1.5), cut=gen.milli(-0.8, 0.8), mat=GLASS)),
        ]
    return st.one_of(opts)


@st.composite
def bench(draw, symmetric=False, hi=5, pairs=2):
    n = draw(st.integers(1, hi))
    parts = []
    for _ in range(n):
        p = draw(part(symmetric))
        p["gap"] = draw(gen.milli(0.05, 2))
        p["flip"] = draw(st.booleans())
        p["roll"] = draw(gen.ANGLE)
        if not symmetric:
            p["turn"] = draw(st.lists(st.tuples(st.sampled_from(["rx", "ry", "rz"]), gen.ANGLE).map(list), max_size=3))
            p["off"] = [draw(gen.coord(0.5)), draw(gen.coord(0.5))]
        parts.append(p)
    rays = draw(st.lists(st.fixed_dictionaries(dict(
        to=st.integers(0, 4), at=st.tuples(gen.coord(0.9), gen.coord(0.9)).map(list), start=st.tuples(gen.coord(1), gen.coord(1)).map(list),
        back=gen.milli(0.1, 3), spread=st.sampled_from([0.2, 1, 1, 3]), wl=gen.wavelength(0.4, 0.8),
        da=st.lists(st.integers(-1000, 1000), min_size=12, max_size=12))), min_size=2, max_size=6))
    return dict(parts=parts, rays=rays, ops=draw(st.lists(gen.RIGID_OP, max_size=3)), order=draw(st.permutations(list(range(n)))), unit=draw(st.sampled_from([1, 1, 1, 1, 10, 0.2])))


# ------------------------------------------------------------------ building
def sag(r, a):
    return 0.0 if math.isinf(r) else r - math.copysign(math.sqrt(r * r - a * a), r)


def make(p, k):
    """Object centred near the origin with its axis on x, and the radius of a ball around the origin that holds it."""
    a = p["a"] * k
    kw = dict(material=build.material(p["mat"])) if "mat" in p else {}
    kind = p["kind"]
    if kind == "lens":
        r = [math.inf if x == "inf" else x * k for x in p["r"]]
        t = p["edge"] * k + max(0, sag(r[0], a)) + max(0, -sag(r[1], a))
        o = pc.thick_lens(r[0], r[1], t, aperture=2 * a, **kw)
        return o, math.hypot(a, t / 2 + max(0, -sag(r[0], a)) + max(0, sag(r[1], a)))
    if kind == "ball":
        return cg.Sphere(a, **kw), a
    if kind == "shell":
        return cg.csg.difference(cg.Sphere(a, **kw), cg.Sphere(a * p["in_"], **kw)), a
    if kind in ("disk", "rod"):
        h = (p["t"] if kind == "disk" else p["w"]) * k / 2
        return cg.Cylinder(a, -h, h, **kw).rotate_y(90), math.hypot(a, h)
    if kind == "dome":  # paraboloid closed by its own end face
        f = p["f"] * k
        h = a * a / (4 * f)
        o = cg.csg.intersect(cg.Paraboloid(f, 1.5 * h, **kw), cg.Cylinder(2 * a, -h, h, **kw)).move_z(-h / 2)
        return o.rotate_y(90), math.hypot(a, h)
    if kind == "sphmirror":
        r = a * p["k"] * p["sign"]
        s = abs(sag(r, a))
        return pc.spherical_mirror(r, p["t"] * k + (s if r < 0 else 0), aperture=2 * a), math.hypot(a, s + p["t"] * k + s)
    if kind == "parmirror":
        f = p["f"] * k
        o = pc.parabolic_mirror(f, p["t"] * k, aperture=2 * a).move_x(f)
        return o, math.hypot(a, p["t"] * k + (2 * a) ** 2 / (4 * f))
    if kind == "flatmirror":
        return pc.plane_mirror(p["t"] * k, aperture=2 * a), math.hypot(a, p["t"] * k)
    if kind == "prism":
        return pc.equilateral_prism(a, p["w"] * k, **kw), math.hypot(a, p["w"] * k / 2)
    if kind == "plate":
        return cg.Cuboid.from_sides(p["t"] * k, 2 * a, 2 * a, **kw), math.sqrt(2 * a * a + (p["t"] * k / 2) ** 2)
    if kind in ("egg", "eggmirror"):
        return cg.Sphere(a, material=build.material(p.get("mat", "mirror"))).scale(*p["s"]), a * max(p["s"])
    if kind == "halfball":
        o = cg.csg.intersect(cg.Sphere(a, **kw), cg.Cuboid((-2 * a, -2 * a, -2 * a), (p["cut"] * a, 2 * a, 2 * a), **kw))
        return o, a
    raise ValueError(kind)


class Bench:
    def __init__(self, spec):
        k = spec["unit"]
        self.k = k
        self.spec = spec
        self.m = geo.ops_matrix(spec["ops"])
        self.objs, self.centre, self.size = [], [], []
        x = 0.0
        with sut("build bench"):
            for p in spec["parts"]:
                o, rad = make(p, k)
                for op in p.get("turn", []):
                    geo.apply_op(o, op)
                if p["flip"]:
                    o.rotate_z(180)
                o.rotate_x(p["roll"])
                x += rad + p["gap"] * k
                c = [x] + [v * k for v in p.get("off", [0, 0])]
                o.move(*c)
                for op in spec["ops"]:
                    geo.apply_op(o, op)
                x += rad
                self.objs.append(o)
                self.centre.append(c)
                self.size.append(p["a"] * k)
        self.length = x
        self.sky_r = 4 * x + 20 * k + float(np.linalg.norm(self.m[:3, 3]))
        self.sky = sim.sky(self.sky_r)
        self.all = [self.objs[i] for i in spec["order"]] + [self.sky]

    def base(self):
        O, D, W = [], [], []
        for r in self.spec["rays"]:
            i = r["to"] % len(self.objs)
            c, a = np.array(self.centre[i]), self.size[i]
            s = np.array([-r["back"] * self.k, r["start"][0] * a * r["spread"], r["start"][1] * a * r["spread"]])
            e = c + np.array([0, r["at"][0] * a, r["at"][1] * a])
            s, e = (self.m[:3, :3] @ s + self.m[:3, 3]), (self.m[:3, :3] @ e + self.m[:3, 3])
            O.append(s)
            D.append((e - s) / np.linalg.norm(e - s))
            W.append(r["wl"])
        return np.array(O).T, np.array(D).T, np.array(W)

    def run(self, o, d, wl, limit):
        d = d / np.linalg.norm(d, axis=0)
        return sim.trace([sim.FixedSource(o, d, wl)], self.all, limit)[1]


LIMIT = 14
EPS = 1e-4


def path(res, rid, limit):
    rows = res.of(rid)
    ids = res.surface[rows].astype(int).tolist()
    return rows, ids, len(rows) < limit


def steep(res, rows):
    """Rows after which the ray turned by an interface met well away from grazing and total reflection: number of leading
    rows whose interactions are all steep, judged from the recorded momenta n d before and after."""
    for j in range(len(rows) - 1):
        a, b = rows[j], rows[j + 1]
        p, q = res.index[a] * res.tilt[:, a], res.index[b] * res.tilt[:, b]
        n = q - p
        s = np.linalg.norm(n)
        if s < 1e-9:  # nearly normal incidence, or no interface
            continue
        n = n / s
        if abs(n @ res.tilt[:, a]) < 0.08 or abs(n @ res.tilt[:, b]) < 0.08:
            return j + 1
    return len(rows)


def check_fermat(spec, ctx):
    b = Bench(spec)
    o, d, w = b.base()
    k = o.shape[1]
    scale = b.k
    O, D, W = [o], [d], [w]
    for e in (EPS, EPS / 2):
        for sgn in (1, -1):
            for grp in range(2):
                da = np.array([[v / 1000.0 for v in r["da"][6 * grp:6 * grp + 6]] for r in spec["rays"]]).T
                O.append(o + sgn * e * scale * da[:3])
                D.append(d + sgn * e * da[3:])
                W.append(w)
    O, D, W = np.hstack(O), np.hstack(D), np.hstack(W)
    D = D / np.linalg.norm(D, axis=0)
    res = b.run(O, D, W, LIMIT)
    compared = 0
    for i in range(k):
        rows0, ids0, _ = path(res, i, LIMIT)
        good = steep(res, rows0)
        for grp in range(2):
            fam = {}
            for ei in range(2):
                for si in range(2):
                    rid = k * (1 + ei * 4 + si * 2 + grp) + i
                    fam[ei, si] = (rid,) + path(res, rid, LIMIT)[:2]
            m = min([len(ids0), good] + [len(f[2]) for f in fam.values()])
            n_same = 0
            while n_same < m and all(f[2][n_same] == ids0[n_same] for f in fam.values()):
                n_same += 1
            if n_same < len(ids0):
                ctx.label("partly-skipped")
            resid = np.zeros((2, n_same))
            size = np.zeros((2, n_same))
            for ei in range(2):
                (rp, rowp, _), (rm, rowm, _) = fam[ei, 0], fam[ei, 1]
                lp = lm = 0.0
                xp, xm = O[:, rp], O[:, rm]
                start = float(res.index[rowp[0]] * (d[:, i] @ (xp - xm))) if n_same else 0.0
                for j in range(n_same):
                    a, c = rowp[j], rowm[j]
                    # lengths are measured between recorded ends: the surface offset lies on the ray itself
                    lp += res.index[a] * float(np.linalg.norm(res.end[:, a] - xp))
                    lm += res.index[c] * float(np.linalg.norm(res.end[:, c] - xm))
                    xp, xm = res.end[:, a], res.end[:, c]
                    r0 = rows0[j]
                    step = float(res.index[r0] * (res.tilt[:, r0] @ (xp - xm)))
                    resid[ei, j] = (lp - lm) - (step - start)
                    size[ei, j] = np.linalg.norm(xp - xm)
            for j in range(n_same):
                e = EPS / 2
                r1, r2 = abs(resid[0, j]), abs(resid[1, j])
                if size[1, j] > 50 * e * scale * 1.0 * (1 + b.length / scale):
                    ctx.label("strongly-spread")
                    break
                floor = 1e-6 * (size[1, j] + e * scale) + 1e-11 * (b.sky_r + b.length)
                # a quadratic path makes the difference vanish; a wrong one leaves a term linear in the displacement
                require(r2 <= floor or r2 <= 0.45 * r1 and r2 <= 0.05 * (size[1, j] + e * scale),
                        "ray %d: neighbouring rays' optical paths to hit %d (surface %d) differ by %.3g more than the wavefront allows (displacement %.3g, at double displacement %.3g)",
                        i, j, ids0[j], r2, size[1, j], r1)
                ctx.label("compared")
            compared = max(compared, n_same)
    ctx.label("hits-%d" % min(compared, 6))
    ctx.nt(compared >= 3)


def check_reverse(spec, ctx):
    b = Bench(spec)
    o, d, w = b.base()
    k = o.shape[1]
    e = EPS
    da = np.array([[v / 1000.0 for v in r["da"][:6]] for r in spec["rays"]]).T
    res = b.run(np.hstack([o, o + e * b.k * da[:3], o - e * b.k * da[:3]]), np.hstack([d, d + e * da[3:], d - e * da[3:]]), np.hstack([w, w, w]), LIMIT)
    back, want = [], []
    for i in range(k):
        rows, ids, done = path(res, i, LIMIT)
        if not done or not ids or ids[-1] != b.sky.get_id():
            ctx.label("absorbed-or-limit")
            continue
        if any(path(res, i + s * k, LIMIT)[1] != ids for s in (1, 2)) or steep(res, rows) < len(rows):
            ctx.label("not-decided")
            continue
        lens_ = np.linalg.norm(res.end[:, rows] - res.start[:, rows], axis=0)
        if lens_.min() < 1e-3 * b.k or abs(res.index[rows[-1]] - 1) > 1e-12:
            ctx.label("short-segment")
            continue
        last = rows[-1]
        # start the way back a little before the sky
        p = res.start[:, last] + 0.5 * (res.end[:, last] - res.start[:, last])
        back.append((p, -res.tilt[:, last], w[i]))
        want.append((i, rows, ids))
    if not back:
        return
    P = np.array([x[0] for x in back]).T
    Q = np.array([x[1] for x in back]).T
    wl = np.array([x[2] for x in back])
    n = P.shape[1]
    dd = da[:, [i for i, _, _ in want]]
    rev = b.run(np.hstack([P, P + e * b.k * dd[:3], P - e * b.k * dd[:3]]), np.hstack([Q, Q + e * dd[3:], Q - e * dd[3:]]), np.hstack([wl, wl, wl]), LIMIT)
    for j, (i, rows, ids) in enumerate(want):
        rr, rids, _ = path(rev, j, LIMIT)
        near = [path(rev, j + s * n, LIMIT) for s in (1, 2)]
        exp = ids[:-1][::-1]
        # the way back may end on a component behind the source
        if any(q[1][: len(exp)] != exp for q in near):
            if near[0][1][: len(exp)] == near[1][1][: len(exp)] == rids[: len(exp)]:
                pass  # all three agree on another path: judged below
            else:
                ctx.label("way-back-not-decided")
                continue
        require(rids[: len(exp)] == exp and len(rids) > len(exp), "ray %d meets surfaces %s; sent back along its last segment it meets %s", i, ids, rids)
        for q, row in enumerate(rr[: len(exp)]):
            f = rows[len(exp) - 1 - q]
            spread = float(np.linalg.norm(rev.end[:, near[0][0][q]] - rev.end[:, near[1][0][q]])) / (2 * e)
            tol = 1e-8 * (spread + b.sky_r + 1)
            err = float(np.linalg.norm(rev.end[:, row] - res.end[:, f]))
            require(err <= tol, "ray %d: the way back misses hit %d by %.3g (tolerance %.2g)", i, len(exp) - 1 - q, err, tol)
        row = rr[len(exp)]
        dspread = float(np.linalg.norm(rev.tilt[:, near[0][0][len(exp)]] - rev.tilt[:, near[1][0][len(exp)]])) / (2 * e) if all(len(q[0]) > len(exp) for q in near) else 1e3
        err = float(np.linalg.norm(rev.tilt[:, row] + d[:, i]))
        require(err <= 1e-8 * (1 + dspread * (1 + b.length)), "ray %d sent back leaves along %s, it came along %s (error %.3g)", i, (-rev.tilt[:, row]).tolist(), d[:, i].tolist(), err)
        for q in range(len(exp) + 1):
            f = rows[len(exp) - q]
            require(abs(rev.index[rr[q]] - res.index[f]) <= 1e-9, "ray %d: index %g on segment %d and %g on the way back", i, res.index[f], len(exp) - q, rev.index[rr[q]])
        ctx.label("returned-%d" % min(len(exp), 6))
        ctx.nt(len(exp) >= 2)


def check_skew(spec, ctx):
    b = Bench(spec)
    o, d, w = b.base()
    res = b.run(o, d, w, LIMIT)
    u = b.m[:3, :3] @ np.array([1.0, 0, 0])
    p0 = b.m[:3, 3]
    for i in range(o.shape[1]):
        rows = res.of(i)
        s0 = float(u @ np.cross(o[:, i] - p0, d[:, i]))
        cut = 0
        for j, r in enumerate(rows):
            n, t = float(res.index[r]), res.tilt[:, r]
            if j:
                # rounding of a grazing hit: the normal is off by the position error over its curvature only
                dl = float(np.linalg.norm(res.index[r] * t - res.index[rows[j - 1]] * res.tilt[:, rows[j - 1]]))
                cut += dl < 1e-9
            for x, what in ((res.start[:, r], "start"), (res.end[:, r], "end")):
                s = n * float(u @ np.cross(x - p0, t))
                tol = 1e-9 * (b.k + np.linalg.norm(x - p0) + np.linalg.norm(p0) + b.length) * (1 + j)
                require(abs(s - s0) <= tol, "ray %d: skewness %.9g at the %s of row %d, %.9g at the source (tolerance %.2g)", i, s, what, j, s0, tol)
        ctx.label("rows-%d" % min(len(rows), 6))
        ctx.nt(len(rows) >= 3 and abs(s0) > 1e-3 * b.k)


FACETS = [
    Facet("fermat", lambda: bench(), check_fermat, quick=640, thorough=9000, rule="at least three successive hits of neighbouring rays compared", shards=8),
    Facet("reverse", lambda: bench(), check_reverse, quick=640, thorough=9000, rule="a path with at least two interactions retraced", shards=8),
    Facet("skew", lambda: bench(symmetric=True, hi=6), check_skew, quick=480, thorough=8000, rule="a skew ray with at least two interactions", shards=8),
]
