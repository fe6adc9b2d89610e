"""C35: user-defined materials, sources and surfaces plug into a trace."""
import math

import numpy as np

from vlib import build, gen, geo, rays, sim
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl
from tinygfx import g3d as cg
from tinygfx.g3d import primitives

RULE = "non-trivial = at least two generations of calls of user code were matched with rows"
ASSUMPTIONS = ["user code does not change ray ids or generation numbers and does not move the rays"]
LOW = 0.1


class Recorder(matl.TracableMaterial):
    """Runs a small program on the rays it is given and keeps what came in and what it answered."""

    def __init__(self, prog, how, log):
        super().__init__()
        self.prog, self.how, self.log = prog, how, log

    def trace(self, surface, ray_set):
        given = np.array(ray_set, dtype=float)
        rs = ray_set if self.how == "same" else ray_set.copy()
        for op in self.prog:
            k = op[0]
            if k == "reverse":
                rs.rays[1] = -rs.rays[1]
            elif k == "steer":
                rs.rays[1] = np.array([op[1][0], op[1][1], op[1][2], 0.0])[:, np.newaxis]
            elif k == "bounce":
                n = surface.get_world_normals(rs.rays[0])
                rs.rays[1] = rs.rays[1] - 2 * n * np.sum(rs.rays[1] * n, axis=0)
            elif k == "glass":
                n = surface.get_world_normals(rs.rays[0])
                rs.rays[1], rs.index = cg.refract(rs.rays[1], n, rs.index, op[1])
            elif k == "scale":
                rs.intensity = rs.intensity * op[1]
            elif k == "inten":
                rs.intensity = op[1]
            elif k == "shift":
                rs.wavelength += op[1]
            elif k == "index":
                rs.index = op[1]
            elif k == "colour":  # absorb one band
                rs.rays[1, :, np.asarray(rs.wavelength) > op[1]] = 0
            elif k == "odd":
                rs.rays[1, :, np.asarray(rs.id) % 2 == 1] = 0
            elif k == "stretch":
                rs.rays[1] = rs.rays[1] * op[1]
            elif k == "fade":  # dimmer by wavelength and position in the batch does not matter
                rs.intensity = rs.intensity * (0.5 + 0.5 * np.cos(7 * np.asarray(rs.wavelength)) ** 2)
        self.log.append((surface, given, np.array(rs, dtype=float)))
        return rs


class UserSource(pc.Source):
    def __init__(self, s):
        super().__init__(wavelength=s["wl"][0])
        self.s = s
        self.calls = []

    def _local_ray_generation(self, n_rays):
        self.calls.append(n_rays)
        s = self.s
        k = n_rays if s["count"] == "asked" else s["count"]
        rs = pyrayt.RaySet(k)
        o, d = np.array(s["o"], dtype=float).T, np.array(s["d"], dtype=float).T
        rs.rays[0, :3] = np.resize(o.T, (k, 3)).T
        rs.rays[1, :3] = np.resize(d.T, (k, 3)).T
        rs.wavelength = np.resize(s["wl"], k)
        rs.intensity = np.resize(s["inten"], k)
        rs.index = np.resize(s["index"], k)
        if s["ids"]:
            rs.id = np.arange(k)[::-1] + 3
        return rs


OP = st.one_of(
    st.just(["reverse"]), st.tuples(st.just("steer"), st.lists(gen.milli(-1, 1), min_size=3, max_size=3).filter(lambda v: max(map(abs, v)) > 0.1)).map(list), st.just(["bounce"]), st.just(["bounce"]),
    st.tuples(st.just("glass"), gen.milli(1.05, 2.5)).map(list), st.tuples(st.just("scale"), gen.milli(0.01, 1.5)).map(list), st.tuples(st.just("inten"), st.sampled_from([100.0, 1.0, 0.1, 0.11, 0.09, 5.0])).map(list),
    st.tuples(st.just("shift"), gen.milli(-0.02, 0.05)).map(list), st.tuples(st.just("index"), gen.milli(1, 3)).map(list), st.tuples(st.just("colour"), gen.milli(0.4, 0.8)).map(list), st.just(["odd"]),
    st.tuples(st.just("stretch"), gen.milli(0.1, 5)).map(list), st.just(["fade"]))
PROGRAM = st.fixed_dictionaries(dict(prog=st.lists(OP, max_size=3), how=st.sampled_from(["same", "same", "new"])))
V3 = st.lists(gen.milli(-1, 1), min_size=3, max_size=3).filter(lambda v: max(map(abs, v)) > 0.05)
SRC = st.fixed_dictionaries(dict(
    o=st.lists(st.lists(gen.coord(5), min_size=3, max_size=3), min_size=1, max_size=6), d=st.lists(V3, min_size=1, max_size=6), wl=st.lists(gen.milli(0.4, 0.8), min_size=1, max_size=3),
    inten=st.lists(st.one_of(gen.milli(0.05, 200), st.sampled_from([100.0, 0.1, 0.05])), min_size=1, max_size=3), index=st.lists(st.sampled_from([1.0, 1.0, 1.5, 1.33]), min_size=1, max_size=2),
    count=st.sampled_from(["asked", "asked", "asked", 1, 3, 7, 40]), ids=st.booleans(), ops=st.lists(gen.RIGID_OP, max_size=2), scale=st.sampled_from([None, None, 2.0]), aim=st.one_of(st.none(), gen.ray_specs(1, 6), gen.ray_specs(1, 6, many=40, upto=60))))


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    comps = []
    for _ in range(n):
        t = dict(draw(gen.leaf(max_ops=3)) if draw(st.booleans()) else draw(gen.moved_tree(depth=2, max_later=1)))
        t["ops"] = t.get("ops", []) + [["move"] + [draw(gen.coord(5)) for _ in range(3)]]
        comps.append(t)
    progs = draw(st.lists(PROGRAM, min_size=1, max_size=4))
    which = draw(st.lists(st.integers(-1, 5), min_size=8, max_size=8))
    return dict(comps=comps, progs=progs, which=which, lib=draw(st.sampled_from(["mirror", "absorber", ["n", 1.5]])), sources=draw(st.lists(SRC, min_size=1, max_size=3)),
                n=draw(st.one_of(st.integers(1, 8), st.sampled_from([30, 100]))), limit=draw(st.integers(1, 8)), room=draw(st.sampled_from([True, True, True, False])))


def placed(s):
    m = geo.ops_matrix(s["ops"])
    return np.diag([s["scale"]] * 3 + [1.0]) @ m if s["scale"] else m


def leaves(obj, out):
    ch = getattr(obj, "children", None)
    for sid, s in obj.surface_ids:
        out.append(s)
    return out


def row_of(res, r):
    return dict(x=res.end[:, r], s=res.start[:, r], d=res.tilt[:, r], intensity=res.intensity[r], wavelength=res.wavelength[r], index=res.index[r])


F8 = ("generation", "intensity", "wavelength", "index", "id")


def check(spec, ctx):
    log = []
    with sut("build"):
        mats = [Recorder(p["prog"], p["how"], log) for p in spec["progs"]]
        lib = build.material(spec["lib"])
        objs, recs = [], {}
        i = 0
        for c in spec["comps"]:
            b = build.Built(dict(c))
            for s in leaves(b.root, []):
                w = spec["which"][i % len(spec["which"])]
                i += 1
                if w < 0:
                    s.material = lib
                else:
                    s.material = mats[w % len(mats)]
                    recs[s.get_id()] = s
            objs.append(b.root)
        if spec["room"]:
            r = cg.Sphere(20, material=mats[0])
            recs[r.get_id()] = r
            objs.append(r)
        sky = sim.sky(300.0)
        objs.append(sky)
        srcs = []
        sources = []
        refs = [geo.build_ref(c) for c in spec["comps"]]
        for s in spec["sources"]:
            s = dict(s)
            if s["aim"]:
                o, d = rays.resolve(refs, s["aim"], unit=True)
                mi = np.linalg.inv(placed(s))
                s["o"], s["d"] = (mi[:3, :3] @ o + mi[:3, 3:4]).T.tolist(), (mi[:3, :3] @ d).T.tolist()
            sources.append(s)
            u = UserSource(s)
            for op in s["ops"]:
                geo.apply_op(u, op)
            if s["scale"]:
                u.scale_all(s["scale"])
            srcs.append(u)
    t, res = sim.trace(srcs, objs, spec["limit"], spec["n"])
    # sources: asked once for the set number, and the first generation is what they gave, placed
    base = 0
    for u, s in zip(srcs, sources):
        require(u.calls == [spec["n"]], "a source was asked for %s rays, the tracer is set to %d", u.calls, spec["n"])
        k = spec["n"] if s["count"] == "asked" else s["count"]
        m = placed(s)
        o, d = np.resize(s["o"], (k, 3)).T, np.resize(s["d"], (k, 3)).T
        o, d = m[:3, :3] @ o + m[:3, 3:4], m[:3, :3] @ d
        d = d / np.linalg.norm(d, axis=0)
        wl, inten, index = np.resize(s["wl"], k), np.resize(s["inten"], k), np.resize(s["index"], k)
        for j in range(k):
            rows = res.of(base + j)
            if len(rows) == 0:
                require(inten[j] < LOW, "ray %d of a user source (intensity %g) has no row although a sphere surrounds everything", base + j, inten[j])
                continue
            r = rows[0]
            require(inten[j] >= LOW, "ray %d of intensity %g was traced", base + j, inten[j])
            require(np.abs(res.start[:, r] - o[:, j]).max() <= 1e-9 * (1 + np.abs(o[:, j]).max()) and np.abs(res.tilt[:, r] - d[:, j]).max() <= 1e-9, "ray %d starts at %s along %s, the source gave %s along %s", base + j, res.start[:, r].tolist(), res.tilt[:, r].tolist(), o[:, j].tolist(), d[:, j].tolist())
            require(res.wavelength[r] == wl[j] and res.intensity[r] == inten[j] and res.index[r] == index[j] and res.generation[r] == 0, "ray %d: wavelength %g intensity %g index %g, the source gave %g %g %g", base + j, res.wavelength[r], res.intensity[r], res.index[r], wl[j], inten[j], index[j])
        base += k
    require(res.n == 0 or res.id.max() < base, "row of ray %s, the sources emitted %d rays", res.id.max() if res.n else None, base)
    # user materials: given exactly the rays that reached their surface
    seen = {}
    for surface, given, answer in log:
        require(any(surface is s for s in recs.values()), "trace of a user material was given the surface %s it is not attached to", getattr(surface, "get_id", lambda: surface)())
        require(given.ndim == 2 and given.shape[0] == 13 and given.shape[1] > 0, "trace was given rays of shape %s", given.shape)
        for c in range(given.shape[1]):
            key = (int(given[12, c]), int(given[8, c]))
            require(key not in seen, "ray %d was handed to user materials twice in generation %d", *key)
            seen[key] = (surface, given[:, c], answer[:, c])
    used, gens = set(), set()
    for rid in range(base):
        rows = res.of(rid)
        for q, r in enumerate(rows):
            sid = int(res.surface[r])
            key = (rid, int(res.generation[r]))
            if sid not in recs:
                require(key not in seen, "ray %d, generation %d ends on surface %d without a user material, but one was called", key[0], key[1], sid)
                continue
            require(key in seen, "ray %d reaches surface %d in generation %d but its material was not called", rid, sid, key[1])
            used.add(key)
            gens.add(key[1])
            surface, g, a = seen[key]
            require(surface is recs[sid], "ray %d reaches surface %d, its material was called with surface %s", rid, sid, surface.get_id())
            v = row_of(res, r)
            require(np.abs(g[:3] - v["x"]).max() <= 1e-9 * (1 + np.abs(v["x"]).max()) and g[3] == 1, "ray %d, generation %d: the material was given position %s, the row ends at %s", rid, key[1], g[:4].tolist(), v["x"].tolist())
            ln = np.linalg.norm(g[4:7])
            require(ln > 0 and np.abs(g[4:7] / ln - v["d"]).max() <= 1e-9 and g[7] == 0, "ray %d, generation %d: the material was given direction %s, the ray travels along %s", rid, key[1], g[4:8].tolist(), v["d"].tolist())
            for nm, i in (("intensity", 9), ("wavelength", 10), ("index", 11)):
                require(g[i] == v[nm], "ray %d, generation %d: the material was given %s %r, the row has %r", rid, key[1], nm, g[i], v[nm])
            ln = np.linalg.norm(a[4:7])
            if 1e-9 < ln < 1e-3:  # very short answers: whether they count as a direction is not claimed
                ctx.label("short-answer")
                continue
            alive = ln > 1e-9 and a[9] >= LOW and key[1] + 1 < spec["limit"]
            if not alive:
                require(q == len(rows) - 1, "ray %d goes on after generation %d: answered direction %s, intensity %g, limit %d", rid, key[1], a[4:7].tolist(), a[9], spec["limit"])
                continue
            require(q + 1 < len(rows), "ray %d stops after generation %d although its material answered direction %s and intensity %g", rid, key[1], a[4:7].tolist(), a[9])
            w = row_of(res, rows[q + 1])
            require(np.abs(a[4:7] / ln - w["d"]).max() <= 1e-9, "ray %d: the material answered direction %s in generation %d, the next row has tilt %s", rid, a[4:7].tolist(), key[1], w["d"].tolist())
            for nm, i in (("intensity", 9), ("wavelength", 10), ("index", 11)):
                require(a[i] == w[nm], "ray %d: the material answered %s %r in generation %d, the next row has %r", rid, nm, a[i], key[1], w[nm])
            gap = w["s"] - v["x"]
            require(np.linalg.norm(gap - (gap @ w["d"]) * w["d"]) <= 1e-9 * (1 + np.abs(v["x"]).max()) and -1e-9 <= gap @ w["d"] <= 1e-5 * max(1.0, ln), "ray %d: generation %d starts at %s, the previous row ends at %s", rid, key[1] + 1, w["s"].tolist(), v["x"].tolist())
    for key, (surface, g, a) in seen.items():
        require(key in used or g[9] < LOW, "a user material was called for ray %d in generation %d, which has no row there", *key)
    ctx.label("calls-%d" % min(len(log), 6))
    ctx.label("rows", len(used))
    ctx.nt(len(gens) >= 2)


# ------------------------------------------------------------------ user-defined surfaces
class BallPrimitive(primitives.SurfacePrimitive):
    def __init__(self, radius):
        super().__init__()
        self.r = radius
        self.bounding_points = np.array([[x, y, z, 1.0] for x in (-radius, radius) for y in (-radius, radius) for z in (-radius, radius)]).T

    def intersect(self, rays):
        rays = np.atleast_3d(rays)
        o, d = rays[0, :3], rays[1, :3]
        a, b, c = np.sum(d * d, axis=0), np.sum(o * d, axis=0), np.sum(o * o, axis=0) - self.r ** 2
        disc = b * b - a * c
        s = np.sqrt(np.maximum(disc, 0))
        # far crossing first: the order is not promised to the tracer
        return np.where(disc >= 0, np.vstack(((-b + s) / a, (-b - s) / a)), np.inf)

    def normal(self, x):
        n = np.array(x, dtype=float)
        n[3] = 0
        return n / np.linalg.norm(n, axis=0)


class UserBall(cg.TracerSurface):
    surface = BallPrimitive

    def __init__(self, radius, material=matl.absorber):
        super().__init__((radius,), material=material)


class SlabPrimitive(primitives.SurfacePrimitive):
    """Axis-aligned block given by half sides."""

    def __init__(self, x, y, z):
        super().__init__()
        self.h = np.array([x, y, z], dtype=float)
        self.bounding_points = np.array([[a * x, b * y, c * z, 1.0] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)]).T

    def intersect(self, rays):
        rays = np.atleast_3d(rays)
        o, d = rays[0, :3], rays[1, :3]
        h = self.h[:, np.newaxis]
        with np.errstate(all="ignore"):
            t1, t2 = (-h - o) / d, (h - o) / d
        flat = np.abs(d) < 1e-14
        lo = np.where(flat, np.where(np.abs(o) <= h, -np.inf, np.inf), np.minimum(t1, t2)).max(axis=0)
        hi = np.where(flat, np.where(np.abs(o) <= h, np.inf, -np.inf), np.maximum(t1, t2)).min(axis=0)
        return np.where(lo <= hi, np.vstack((lo, hi)), np.inf)

    def normal(self, x):
        p = np.array(x, dtype=float)
        q = p[:3] / self.h.reshape((3,) + (1,) * (p.ndim - 1))
        i = np.abs(q).argmax(axis=0)
        n = np.zeros_like(p)
        if p.ndim == 1:
            n[i] = np.sign(q[i])
        else:
            j = np.arange(p.shape[1])
            n[i, j] = np.sign(q[i, j])
        return n


class UserSlab(cg.TracerSurface):
    surface = SlabPrimitive

    def __init__(self, x, y, z, material=matl.absorber):
        super().__init__((x, y, z), material=material)


class ShellPrimitive(primitives.SurfacePrimitive):
    """Hollow ball: a ray may cross it four times."""

    def __init__(self, outer, inner):
        super().__init__()
        self.balls = [BallPrimitive(outer), BallPrimitive(inner)]
        self.bounding_points = self.balls[0].bounding_points

    def intersect(self, rays):
        return np.vstack([b.intersect(rays) for b in self.balls])[[1, 3, 0, 2]]

    def normal(self, x):
        p = np.array(x, dtype=float)
        away = np.sqrt(np.sum(p[:3] ** 2, axis=0)) > 0.5 * (self.balls[0].r + self.balls[1].r)
        return self.balls[0].normal(p) * np.where(away, 1.0, -1.0)


class UserShell(cg.TracerSurface):
    surface = ShellPrimitive

    def __init__(self, outer, inner, material=matl.absorber):
        super().__init__((outer, inner), material=material)


def listed(cls, how):
    """The shape with an intersect method of its own: crossings from far to near, or with an empty row between them."""
    class Own(cls):
        def intersect(self, rays):
            hits, ids = super().intersect(rays)
            hits, ids = np.asarray(hits)[::-1], np.asarray(ids)[::-1]
            if how == "gaps":
                hits = np.insert(hits, [0, 1], np.inf, axis=0)
                ids = np.insert(ids, [0, 1], self.get_id(), axis=0)
            return hits, ids
    return Own


@st.composite
def surf_case(draw):
    def one():
        s = dict(kind=draw(st.sampled_from(["ball", "slab", "shell"])), p=[draw(gen.milli(0.3, 2)) for _ in range(3)], ops=draw(gen.ops(3)))
        return s
    comps = []
    for _ in range(draw(st.integers(1, 3))):
        c = dict(a=one(), mat=draw(st.sampled_from([["n", 1.5], "mirror", "absorber", ["n", 1.8]])), at=[draw(gen.coord(4)) for _ in range(3)])
        if draw(st.booleans()):
            c["b"] = one()
            c["op"] = draw(st.sampled_from(["union", "intersect", "difference"]))
        else:
            c["a"]["listed"] = draw(st.sampled_from([None, "down", "gaps"]))
        comps.append(c)
    return dict(comps=comps, rays=draw(gen.ray_specs(2, 8, many=30, upto=60)), limit=draw(st.integers(2, 7)), ops=draw(gen.ops(2)))


def solid_of(spec, user):
    def leaf(s, mat):
        p = s["p"]
        own = (lambda cls: listed(cls, s["listed"])) if s.get("listed") else (lambda cls: cls)
        if s["kind"] == "ball":
            o = own(UserBall)(p[0], material=mat) if user else cg.Sphere(p[0], material=mat)
        elif s["kind"] == "shell":
            if user:
                o = own(UserShell)(p[0], inner(p), material=mat)
            else:
                o = cg.csg.difference(cg.Sphere(p[0], material=mat), cg.Sphere(inner(p), material=mat))
        else:
            o = own(UserSlab)(*p, material=mat) if user else cg.Cuboid([-x for x in p], p, material=mat)
        for op in s["ops"]:
            geo.apply_op(o, op)
        return o

    def inner(p):
        return p[0] * (0.3 + 0.3 * p[1])

    def ref(s, mat):
        p = s["p"]
        if s["kind"] == "shell":
            return dict(k="csg", op="difference", l=dict(k="leaf", kind="sphere", p=[p[0]], ops=[], mat=mat), r=dict(k="leaf", kind="sphere", p=[inner(p)], ops=[], mat=mat), ops=s["ops"])
        return dict(k="leaf", kind="sphere", p=[p[0]], ops=s["ops"], mat=mat) if s["kind"] == "ball" else dict(k="leaf", kind="box", p=[-x for x in p] + list(p), ops=s["ops"], mat=mat)
    objs, ids, trees = [], [], []
    for c in spec["comps"]:
        m = build.material(c["mat"])
        a = leaf(c["a"], m)
        o, l, tr = a, [a], ref(c["a"], c["mat"])
        if "b" in c:
            b = leaf(c["b"], m)
            o = getattr(cg.csg, c["op"])(a, b)
            l.append(b)
            tr = dict(k="csg", op=c["op"], l=tr, r=ref(c["b"], c["mat"]), ops=[])
        o.move(*c["at"])
        for op in spec["ops"]:
            geo.apply_op(o, op)
        objs.append(o)
        ids.extend([i for i, _ in x.surface_ids] for x in l)
        tr["ops"] = list(tr["ops"]) + [["move"] + list(c["at"])] + list(spec["ops"])
        trees.append(tr)
    return objs, ids, trees


def check_surface(spec, ctx):
    from vlib.system import System
    with sut("build with user-defined surfaces"):
        uo, uid, trees = solid_of(spec, True)
    with sut("build with library surfaces"):
        lo, lid, _ = solid_of(spec, False)
    sysm = System(dict(comps=[dict(tree=t) for t in trees], sources=[], limit=spec["limit"], n=1))
    o, d = rays.resolve(sysm.refs, spec["rays"], unit=True)
    sky = sim.sky(300.0)
    k = o.shape[1]
    res = []
    for objs in (uo, lo):
        with sut("trace with user-defined surfaces" if objs is uo else "trace with library surfaces"):
            df = pyrayt.RayTracer(sim.FixedSource(o, d), list(objs) + [sky], generation_limit=spec["limit"]).trace()
            res.append(sim.Res(df))
    name = [{i: n for n, q in enumerate(l) for i in q} for l in (uid, lid)]
    for n in name:
        n[sky.get_id()] = "sky"
    best = 0
    for i in range(k):
        r = [x.of(i) for x in res]
        s = [[name[q].get(int(v), "?") for v in res[q].surface[r[q]]] for q in (0, 1)]
        amp = 1.0
        last = None
        n = 0
        for n in range(max(len(r[0]), len(r[1]))):
            if n >= len(r[1]) or n >= len(r[0]):
                short = 0 if n >= len(r[0]) else 1
                q, rr = res[1 - short], r[1 - short][n]
                ob, db = q.start[:, rr], q.tilt[:, rr]
                # undecided continuation only
                near = nearest_lib(sysm, ob, db, last)
                require(near is None or amp > 1e6, "ray %d: surfaces %s with user-defined shapes, %s with the library's", i, s[0], s[1])
                ctx.label("undecided")
                break
            a, b = r[0][n], r[1][n]
            if nearest_lib(sysm, res[1].start[:, b], res[1].tilt[:, b], last) is None or amp > 1e5:
                ctx.label("undecided")
                break
            require(s[0][n] == s[1][n], "ray %d, generation %d: meets surface %s with user-defined shapes, %s with the library's", i, n, s[0][: n + 1], s[1][: n + 1])
            leng = float(np.linalg.norm(res[1].end[:, b] - res[1].start[:, b]))
            nr = nearest_lib(sysm, res[1].start[:, b], res[1].tilt[:, b], last)
            if nr == "none":
                cos, size = 1.0, 1e3
                if s[1][n] == "sky":
                    best = max(best, n + 1)
                    break
            else:
                from vlib.system import min_size
                nn = nr[3].world_normal(res[1].end[:, b])
                cos = abs(float(nn @ res[1].tilt[:, b])) if nn is not None else 0.0
                size = max(min_size(nr[3]), 1e-3)
                last = nr[3]
            if cos < 1e-3:
                ctx.label("undecided")
                break
            amp *= (1 + leng) / cos
            tol = 1e-9 * amp * (1 + leng + float(np.abs(res[1].end[:, b]).max()))
            require(np.abs(res[0].end[:, a] - res[1].end[:, b]).max() <= tol and np.abs(res[0].tilt[:, a] - res[1].tilt[:, b]).max() <= tol and abs(res[0].index[a] - res[1].index[b]) <= 1e-12,
                    "ray %d, generation %d: %s along %s with user-defined shapes, %s along %s with the library's", i, n, res[0].end[:, a].tolist(), res[0].tilt[:, a].tolist(), res[1].end[:, b].tolist(), res[1].tilt[:, b].tolist())
            amp *= (1 + 4.0 / (size * cos)) / cos
            best = max(best, n + 1)
    ctx.label("gens-%d" % min(best, 6))
    ctx.nt(best >= 2)


def nearest_lib(sysm, o, d, last):
    return sysm.nearest(o, d, last)


FACETS = [
    Facet("plugins", case, check, quick=2000, thorough=16000, rule="two or more generations of calls", shards=8),
    Facet("surfaces", surf_case, check_surface, quick=1000, thorough=9000, rule="two or more generations compared", shards=8),
]
