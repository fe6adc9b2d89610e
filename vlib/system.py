"""Generated optical systems and a per-ray reference for one step of a trace."""
import json
import math

import numpy as np
from hypothesis import strategies as st

from . import build, gen, geo, rays, sim
from .core import require, sut

import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl

NEAR = 2e-5  # crossings closer than this to the start of a segment are not decided
SOURCES = {"line": pc.LineOfRays, "circle": pc.CircleOfRays, "cone": pc.ConeOfRays, "wedge": pc.WedgeOfRays}


# ------------------------------------------------------------------ strategies
GLASS = st.one_of(
    gen.milli(1.05, 2.6).map(lambda n: ["n", n]), st.one_of(*3 * [gen.milli(1.05, 2.6)], gen.milli(1.001, 1.02)).map(lambda n: ["n", n]), st.sampled_from([["glass", "BK7"], ["glass", "SF5"], ["glass", "SF2"], ["glass", "ideal"]]),
    st.tuples(gen.milli(0.2, 1.5), gen.milli(0, 0.3), gen.milli(0, 1), gen.milli(0.001, 0.02), gen.milli(0.01, 0.05), gen.milli(90, 120)).map(lambda t: ["sell"] + list(t)))
LOSS = st.one_of(st.tuples(st.sampled_from(["att", "half"]), st.sampled_from([0.5, 0.25, 0.1, 0.03, 0.9, 0.01])).map(list),
                 st.tuples(st.sampled_from(["att", "half"]), gen.milli(0.005, 1.0)).map(list))
PLAIN = st.one_of(GLASS, GLASS, st.just("mirror"), st.just("mirror"), st.just("absorber"))


def mats(kinds):
    opts = {"glass": GLASS, "mirror": st.just("mirror"), "absorber": st.just("absorber"), "loss": LOSS}
    return st.one_of([opts[k] for k in kinds])


@st.composite
def comp(draw, mat=PLAIN, depth=2, mixed=True, lens=True, max_later=2, planes=True):
    if lens and draw(st.integers(0, 5)) == 0:
        from checks.c15 import lens_spec
        s = draw(lens_spec())
        return dict(lens=s, ops=draw(gen.ops(3)))
    if draw(st.booleans()):
        t = dict(draw(gen.leaf(planes=planes, max_ops=3)))
    else:
        t = dict(draw(gen.moved_tree(depth=depth, planes=planes, max_later=max_later)))
    common = draw(mat)

    def rec(s):
        s = dict(s)
        if s["k"] == "leaf":
            s["mat"] = draw(mat) if mixed and draw(st.integers(0, 3)) == 0 else common
        else:
            s["l"], s["r"] = rec(s["l"]), rec(s["r"])
        return s
    later = t.pop("later", [])
    t = rec(t)
    if later:
        t["later"] = later
    if draw(st.booleans()):
        t["ops"] = t.get("ops", []) + [["move"] + [draw(gen.coord(5)) for _ in range(3)]]
    return dict(tree=t)


@st.composite
def twin(draw, c, mat):
    """Nearly the same component again, a little before, behind or beside the given one."""
    c = json.loads(json.dumps(c))
    mv = ["move"] + [draw(st.one_of(gen.milli(-0.02, 0.02), st.just(0.0))) for _ in range(3)]
    if "lens" in c:
        c["ops"] = c["ops"] + [mv]
        return c

    def paint(t):
        if t["k"] == "leaf":
            t["mat"] = draw(mat)
        else:
            paint(t["l"])
            paint(t["r"])
    c["tree"]["ops"] = c["tree"].get("ops", []) + [mv]
    paint(c["tree"])
    return c


@st.composite
def swarm(draw, mat, lo=10, hi=30, span=3.0):
    """Many small balls and boxes, each a component of its own."""
    near = gen.milli(-span, span)
    out = []
    for x, y, z, r, box in draw(st.lists(st.tuples(near, near, near, gen.milli(0.2, 0.7), st.booleans()), min_size=lo, max_size=hi)):
        leaf = dict(k="leaf", kind="box", p=[-r, -r, -r, r, r, r]) if box else dict(k="leaf", kind="sphere", p=[r])
        out.append(dict(tree=dict(leaf, ops=[["move", x, y, z]], mat=draw(mat))))
    return out


@st.composite
def room(draw, mat=None):
    """An enclosing shell, so that rays keep bouncing inside."""
    m = draw(mat if mat is not None else st.sampled_from(["mirror", "mirror", "absorber"]))
    r = draw(gen.milli(18, 30))
    shape = draw(st.sampled_from(["box", "sphere"]))
    leaf = dict(k="leaf", kind="box", p=[-r, -r, -r, r, r, r], ops=[], mat=m) if shape == "box" else dict(k="leaf", kind="sphere", p=[r * 1.3], ops=[], mat=m)
    if draw(st.booleans()):
        leaf["ops"] = [["rx", draw(gen.ANGLE)], ["mz", draw(gen.coord(3))]]
    return dict(tree=leaf)


def wavelengths():
    """Up to four wavelengths, at times a narrow line (all within 1e-6 to 1e-3 um of each other)."""
    narrow = st.tuples(gen.wavelength(), st.sampled_from([1e-6, 1e-5, 1e-4]), st.lists(st.integers(0, 9), min_size=2, max_size=4)).map(lambda t: [round(t[0] + t[1] * i, 9) for i in t[2]])
    return gen.weighted((3, st.lists(gen.wavelength(), min_size=1, max_size=4)), (1, narrow))


def fixed_source(lo=2, hi=7, wl=True, inten=False, ops=True):
    return st.fixed_dictionaries(dict(
        kind=st.just("fixed"), rays=gen.ray_specs(lo, hi, many=60, upto=120),
        wl=wavelengths() if wl else st.just([0.633]),
        inten=st.none() if not inten else st.one_of(st.none(), st.lists(st.one_of(gen.milli(0.2, 120), gen.milli(100, 5000), st.sampled_from([1e5, 300.0])), min_size=1, max_size=4)) if inten == "bright" else
        st.lists(gen.weighted((4, gen.milli(0.05, 120)), (4, st.sampled_from([100.0, 1.0, 0.1, 0.2, 0.05, 10.0])), (1, gen.milli(100, 5000))), min_size=1, max_size=4),
        ops=st.lists(gen.RIGID_OP, max_size=2) if ops else st.just([])))


def lib_source():
    return st.sampled_from(["line", "circle", "cone", "wedge"]).flatmap(lambda k: st.fixed_dictionaries(dict(
        kind=st.just(k), p=gen.milli(0.2, 4) if k in ("line", "circle") else gen.milli(2, 120), wl=st.one_of(st.none(), gen.wavelength()),
        ops=gen.ops(3))))


@st.composite
def scene(draw, mat=PLAIN, ncomp=(1, 3), source=None, nsrc=(1, 1), rooms=True, room_mat=None, depth=2, limit=None, **kw):
    comps = draw(st.lists(comp(mat, depth=depth, **kw), min_size=ncomp[0], max_size=ncomp[1]))
    if comps and draw(st.integers(0, 11)) == 0:
        comps.insert(draw(st.integers(0, len(comps))), draw(twin(comps[draw(st.integers(0, len(comps) - 1))], mat)))
    if draw(st.integers(0, 29)) == 29:
        comps += draw(swarm(mat))
    if rooms and draw(st.integers(0, 2)) > 0:
        comps.insert(draw(st.integers(0, len(comps))), draw(room(room_mat)))
    src = draw(st.lists(source if source is not None else fixed_source(), min_size=nsrc[0], max_size=nsrc[1]))
    return dict(comps=comps, sources=src, n=draw(st.integers(1, 6)), limit=draw(limit if limit is not None else st.integers(1, 9)))


# ------------------------------------------------------------------ building
class Comp:
    """One component: the object of the code under test and its reference solid."""

    def __init__(self, s):
        if "lens" in s:
            from checks.c15 import clamp, make, ref_of
            q = clamp(s["lens"])
            self.obj, m = make(q)
            self.ref = ref_of(q)[0]
            self.mat = q["mat"] if q["mat"] is not None else ["n", 1.5]
            for op in s["ops"]:
                geo.apply_op(self.obj, op)
                self.ref.transform(geo.op_matrix(op))
            for lf in self.ref.leaves():
                lf.mat = self.mat
            self.by_id = {}
        else:
            b = build.Built(s["tree"])
            self.obj, self.ref, self.built = b.root, geo.build_ref(s["tree"]), b
            self.by_id = {b.id_of(lf.tag): lf for lf in self.ref.leaves()}
        self.ids = set(i for i, _ in self.obj.surface_ids)


def entering(leaf, d, ent):
    """A flat rectangle is entered when met against its own +z axis."""
    return bool(leaf.minv[2, :3] @ d < 0) if leaf.kind == "plane" else ent


class System:
    def __init__(self, spec):
        self.spec = spec
        with sut("build components"):
            self.comps = [Comp(c) for c in spec["comps"]]
        self.refs = [c.ref for c in self.comps]
        self.far = spec.get("far")
        if self.far:  # the whole system a long way from the origin
            for c in self.comps:
                with sut("move components"):
                    c.obj.move(*self.far)
                c.ref.transform(geo.op_matrix(["move"] + list(self.far)))
        with sut("build sources"):
            self.sources = [self.source(s) for s in spec["sources"]]
        self.owner = {i: c for c in self.comps for i in c.ids}

    def source(self, s):
        if s["kind"] == "fixed":
            o, d = self.aimed(s)
            k = o.shape[1]
            m = geo.ops_matrix(s["ops"])
            mi = np.linalg.inv(m)
            src = sim.FixedSource(mi[:3, :3] @ o + mi[:3, 3:4], mi[:3, :3] @ d, np.resize(s["wl"], k), None if s["inten"] is None else np.resize(s["inten"], k))
        else:
            kw = {} if s["wl"] is None else dict(wavelength=s["wl"])
            src = SOURCES[s["kind"]](s["p"], **kw)
        for op in s["ops"]:
            geo.apply_op(src, op)
        if self.far and s["kind"] != "fixed":
            src.move(*self.far)
        return src

    def aimed(self, s):
        """World rays of a fixed source."""
        return rays.resolve(self.refs, s["rays"], unit=True)

    @property
    def objs(self):
        return [c.obj for c in self.comps]

    def trace(self, limit=None, order=None):
        t, res = sim.trace(self.sources, self.objs, self.spec["limit"] if limit is None else limit, self.spec["n"])
        return t, res

    # -------------------------------------------------------------- reference
    def nearest(self, o, d, after=None):
        """First boundary point ahead: None (not decided) | "none" | (t, tol, Comp, leaf, entering)."""
        best, second = None, math.inf
        for c in self.comps:
            cr = geo.crossings(c.ref, o, d)
            if cr is None:
                return None
            for t, tol, leaf, ent in cr:
                if abs(t) < NEAR:
                    if after is not None and leaf is after and -5e-6 < t < 0:
                        continue
                    return None
                if t <= 0:
                    continue
                if best is None or t < best[0]:
                    second = best[0] if best is not None and best[2] is not c else second
                    best = (t, tol, c, leaf, ent)
                elif c is not best[2]:
                    second = min(second, t)
        if best is None:
            return "none"
        if second - best[0] < 4e-6 * (1 + best[0]) + 4 * best[1]:
            return None  # two components meet the ray together
        return best[:4] + (entering(best[3], d, best[4]),)

    def leaf_hit(self, o, d, x, sid):
        """The crossing of the component owning surface `sid` that lies at x: (Comp, leaf, entering) or None."""
        c = self.owner.get(sid)
        if c is None:
            return None
        cr = geo.crossings(c.ref, o, d)
        if cr is None:
            return None
        t = float((x - o) @ d)
        for te, tol, leaf, ent in cr:
            if abs(te - t) <= tol + 1e-6 * (1 + abs(te)) and (not c.by_id or c.by_id.get(sid) is leaf):
                return c, leaf, entering(leaf, d, ent)
        return None

    def amplification(self, res, rows):
        """Rough factor by which a rounding error of the start has grown at each row's end; None once undecidable
        (grazing or ambiguous segment, where two runs may legitimately part)."""
        a, out, last = 1.0, [], None
        for r in rows:
            o, d, x, sid = res.start[:, r], res.tilt[:, r], res.end[:, r], int(res.surface[r])
            near = self.nearest(o, d, last)
            c = self.owner.get(sid)
            if near is None or near == "none" or c is None:
                out.append(None)
                break
            leaf = near[3]
            n = leaf.world_normal(x)
            cos = abs(float(n @ d)) if n is not None else 0.0
            length = float(np.linalg.norm(x - o))
            # from very far away the end is not exact to well below the 1e-6 by which rays leave a surface
            far = 4e-16 * length ** 2 / (max(min_size(leaf), 1e-3) * max(cos, 1e-3))
            if cos < 1e-3 or far > 1e-7:
                out.append(None)
                break
            a *= (1 + length) / cos if len(out) else 1 / cos
            a *= max(1.0, far / 4e-13)  # an error of its own, larger than ordinary rounding
            out.append(a)
            size = max(min_size(leaf), 1e-3)
            a *= (1 + 4.0 / (size * cos)) / cos
            last = leaf
        return out

    def near_end(self, res, rid):
        """True when whether the ray has a further row is not decided (grazing continuation)."""
        rows = res.of(rid)
        if len(rows) == 0:
            return False
        r = rows[-1]
        d, x = res.tilt[:, r], res.end[:, r]
        hit = self.leaf_hit(res.start[:, r], d, x, int(res.surface[r]))
        if hit is None:
            return True
        nd = self.after_hit(hit[1], hit[2], x, d, float(res.index[r]), float(res.wavelength[r]), float(res.intensity[r]))[0]
        if isinstance(nd, str):
            return False
        return nd is None or self.nearest(x + 1e-6 * nd, nd, hit[1]) is None

    def after_hit(self, leaf, ent, x, d, index, wl, inten):
        """Reference interaction: (direction | "absorbed" | None (not decided), index, intensity)."""
        m = leaf.mat
        if m == "absorber":
            return "absorbed", index, inten
        if m[0] == "att":
            return d, index, inten * m[1]
        if m[0] == "half":
            inten = inten * m[1]
        n = leaf.world_normal(x)
        if n is None or abs(float(n @ d)) < 1e-4:
            return None, index, inten
        if m == "mirror" or m[0] == "half":
            return sim.mirror_dir(d, n), index, inten
        r = sim.snell(d, n, index, sim.index_of(m, wl) if ent else 1.0)
        if r is None:
            return None, index, inten
        return r[0], r[1], inten


def min_size(leaf):
    """Smallest radius of curvature scale of a placed leaf (large for flat ones)."""
    if leaf.kind in ("plane", "box"):
        return 1e9
    r = {"sphere": lambda: abs(leaf.p[0]), "cyl": lambda: leaf.p[0], "par": lambda: 2 * leaf.p[0]}[leaf.kind]()
    sv = np.linalg.svd(leaf.m[:3, :3], compute_uv=False)
    return r * sv[-1] ** 2 / sv[0]


def tol_dir(leaf):
    """Tolerance on a direction after meeting a leaf (edge of the position error through its curvature)."""
    return 2e-6 * max(1.0, float(np.linalg.cond(leaf.m[:3, :3])))
