"""C24: cameras, shaded renderings and edge renderings."""
import math

import numpy as np

from checks import c26
from vlib import build, gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx import g3d as cg
from tinygfx.g3d import renderers

RULE = "non-trivial = at least three decided pixels see a surface and at least three see nothing or another surface"
ASSUMPTIONS = ["pixels whose ray grazes an edge or meets two surfaces within tolerance are not decided", "images of several components are smaller than 600 pixels; larger ones show balls only"]


def camera(c):
    with sut("camera"):
        cam = cg.OrthographicCamera(c["h"], c["w"], c["aspect"])
        for op in c["ops"]:
            geo.apply_op(cam, op)
        h, v = cam.get_resolution()
    require(h == c["h"] and abs(v - c["aspect"] * c["h"]) < 1 + 1e-9 and v == int(v), "camera of %d pixels and aspect ratio %g reports resolution %s", c["h"], c["aspect"], (h, v))
    return cam, int(h), int(v), geo.ops_matrix(c["ops"])


def grid(c, h, v, m):
    """Reference pixel rays in row order (top left first): starts, unit direction."""
    ys = [c["w"] / 2 - c["w"] * i / (h - 1) for i in range(h)]
    V = c["w"] * c["aspect"]
    zs = [V / 2 - V * j / (v - 1) if v > 1 else None for j in range(v)]
    o = np.array([[0.0, y, z] for z in zs for y in ys]).T
    d = m[:3, 0] / np.linalg.norm(m[:3, 0])
    return m[:3, :3] @ o + m[:3, 3:4], d


def check_camera(spec, ctx):
    c = spec["cam"]
    cam, h, v, m = camera(c)
    if v < 2:
        return
    with sut("generate_rays"):
        r = np.asarray(cam.generate_rays(), dtype=float)
        span = cam.get_span()
        require(abs(span[0] - c["w"]) < 1e-12 and abs(span[1] - c["w"] * c["aspect"]) < 1e-9, "camera span %s, expected %s", span, (c["w"], c["w"] * c["aspect"]))
        require(r.shape == (2, 4, h * v), "camera of %d x %d pixels gives rays of shape %s", h, v, r.shape)
        require(np.all(r[0, 3] == 1) and np.all(r[1, 3] == 0), "homogeneous parts of the camera rays are %s and %s", r[0, 3].tolist(), r[1, 3].tolist())
    o, d = grid(c, h, v, m)
    sc = 1e-9 * (1 + np.abs(o).max())
    e = np.abs(r[0, :3] - o).max(axis=0)
    k = int(np.argmax(e))
    require(e[k] <= sc, "pixel %d (row %d, column %d) starts at %s, expected %s", k, k // h, k % h, r[0, :3, k].tolist(), o[:, k].tolist())
    e = np.abs(r[1, :3] - d[:, None]).max(axis=0)
    k = int(np.argmax(e))
    require(e[k] <= 1e-9, "pixel %d looks along %s, the camera along %s", k, r[1, :3, k].tolist(), d.tolist())
    ctx.nt(h != v and len(c["ops"]) > 0)


PALETTE = {"absorber": "BLACK", "mirror": "BLUE"}


def shade_ref(mat, x, n, lights):
    """Expected colour of a point of a surface with material spec `mat`."""
    if mat == "absorber" or mat == "mirror":
        m = c26.NAMED[PALETTE[mat]]
    elif mat[0] == "gooch":
        m = c26.NAMED[mat[1]]
    elif mat[0] == "flat":
        return list(mat[1:4]) + [1.0]
    else:
        m = c26.NAMED["BLUE"]  # glasses
    return c26.ref(m, x, n, lights)


def visible(s, o, d, k):
    """Reference per pixel: None | "none" | (x, comp, leaf, normal)."""
    r = s.nearest(o[:, k], d)
    if r is None or r == "none":
        return r
    t, tol, c, leaf, ent = r
    x = o[:, k] + t * d
    n = leaf.world_normal(x)
    if n is None or abs(float(n @ d)) < 1e-3:
        return x, c, leaf, None
    if leaf.kind != "plane" and (float(n @ d) > 0) == ent:
        n = -n
    return x, c, leaf, n


def scene_of(spec):
    return system.System(dict(comps=spec["comps"], sources=[]))


def place(spec, s):
    """The camera aimed at the scene: its own +x towards an aim point at the given distance."""
    return spec["cam"]


def before(spec):
    """The camera as it stands when the renderer is made: its last moves come after the first rendering in some cases."""
    c, then = spec["cam"], spec.get("then") or {}
    k = max(0, len(c["ops"]) - then.get("late", 0))
    return dict(c, ops=c["ops"][:k]), c["ops"][k:]


def finally_at(spec):
    m = geo.ops_matrix(spec["cam"]["ops"])
    turn = (spec.get("then") or {}).get("turn")
    if turn:
        p = m[:3, 3].copy()
        m[:3, 3] = 0
        m = geo.ops_matrix(turn) @ m
        m[:3, 3] = p
    return m


def after(spec, s, cam, late, r, ctx):
    """A first rendering, then moves of the camera and of a component: the next rendering shows the scene as it then is."""
    then = spec.get("then")
    if not then:
        return
    r.render()
    for op in late:
        geo.apply_op(cam, op)
    if then["turn"]:  # on the spot
        p = [float(x) for x in cam.get_position()[:3]]
        for op in [["move"] + [-x for x in p]] + then["turn"] + [["move"] + p]:
            geo.apply_op(cam, op)
    for i, op in then["comps"]:
        q = s.comps[i % len(s.comps)]
        geo.apply_op(q.obj, op)
        q.ref.transform(geo.op_matrix(op))
    ctx.label("moved-between")


def check_shaded(spec, ctx):
    s = scene_of(spec)
    c, late = before(spec)
    cam, h, v, m = camera(c)
    c, m = spec["cam"], finally_at(spec)
    if v < 2:
        return
    L = np.array([l + [1.0] for l in spec["lights"]]).T
    light = L[:, 0] if len(spec["lights"]) == 1 and spec["flat1"] else L
    with sut("shaded rendering"):
        r = renderers.ShadedRenderer(cam, s.objs, light)
        after(spec, s, cam, late, r, ctx)
        img = np.asarray(r.render(), dtype=float)
        if spec["again"]:
            img = np.asarray(r.render(), dtype=float)
        require(img.shape == (v, h, 4), "image of a %d x %d camera has shape %s", h, v, img.shape)
    o, d = grid(c, h, v, m)
    seen = empty = 0
    for k in range(h * v):
        q = visible(s, o, d, k)
        px = img[k // h, k % h]
        if q is None:
            ctx.label("skip-ambiguous")
            continue
        where = "pixel row %d column %d (ray from %s along %s)" % (k // h, k % h, o[:, k].tolist(), d.tolist())
        if q == "none":
            require(px[3] == 0, "%s sees nothing but has colour %s", where, px.tolist())
            empty += 1
            continue
        x, cc, leaf, n = q
        require(px[3] > 0, "%s sees a %s at %s but is transparent", where, leaf.kind, x.tolist())
        if n is None:
            ctx.label("skip-edge")
            continue
        if any(np.linalg.norm(np.array(l) - x) < 1e-2 for l in spec["lights"]):
            continue
        e = shade_ref(leaf.mat, x.tolist(), n.tolist(), spec["lights"])
        tol = 1e-5 * max(1.0, float(np.linalg.cond(leaf.m[:3, :3])))
        require(np.abs(px - np.array(e)).max() <= tol, "%s sees a %s (%s) at %s: colour %s, expected %s", where, leaf.kind, leaf.mat, x.tolist(), px.tolist(), e)
        seen += 1
        ctx.label("pixel")
    ctx.nt(seen >= 3 and empty >= 3)


def check_edge(spec, ctx):
    s = scene_of(spec)
    c, late = before(spec)
    cam, h, v, m = camera(c)
    c, m = spec["cam"], finally_at(spec)
    if v < 2:
        return
    with sut("edge rendering"):
        r = renderers.EdgeRender(cam, s.objs)
        require(r.get_results() is None, "there are results before the first rendering")
        after(spec, s, cam, late, r, ctx)
        img = np.asarray(r.render(), dtype=float)
        if spec["again"]:
            img = np.asarray(r.render(), dtype=float)
        require(img.shape == (v, h, 4), "image of a %d x %d camera has shape %s", h, v, img.shape)
        require(np.array_equal(np.asarray(r.get_results()), img), "get_results is not the image of the last rendering")
    o, d = grid(c, h, v, m)
    ids = {}
    for k in range(h * v):
        q = visible(s, o, d, k)
        ids[k // h, k % h] = "?" if q is None else "none" if q == "none" else id(q[2])

    def at(i, j, a):
        # nothing is decided about a surface cut by the border of the image
        return ids.get((i, j), "none" if a == "none" else "?")
    must = mustnot = 0
    # lens leaves may be split over several surfaces of the same solid: only their silhouettes are decided
    lens = any(not cc.by_id for cc in s.comps)
    for (i, j), a in ids.items():
        if a == "?":
            continue
        px = img[i, j]
        near = [ids.get(q, "?") for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1))]
        if any(b != "?" and b != a and (not lens or "none" in (a, b)) for b in near):
            require(px[3] == 1, "pixel row %d column %d next to a change of the visible surface is transparent", i, j)
            must += 1
            continue
        around = [at(i + y, j + x, a) for y in range(-2, 3) for x in range(-2, 3)]
        if all(b == a for b in around) and not (lens and a != "none"):
            require(px[3] == 0, "pixel row %d column %d is opaque, the visible surface does not change within two pixels", i, j)
            mustnot += 1
    ctx.label("must-be-opaque", must)
    ctx.label("must-be-transparent", mustnot)
    ctx.nt(must >= 3 and mustnot >= 3)


def spread(mask, k):
    """Pixels within k rows and columns of a marked pixel."""
    v, h = mask.shape
    big, out = np.pad(mask, k), np.zeros_like(mask)
    for y in range(2 * k + 1):
        for x in range(2 * k + 1):
            out |= big[y:y + v, x:x + h]
    return out


def check_large(spec, ctx):
    """Lines of an edge image of hundreds of pixels: one pixel wider to each side per 300 pixels of its longer side."""
    c = spec["cam"]
    cam, h, v, m = camera(c)
    if v < 2:
        return
    with sut("build components"):
        objs = [build.Built(dict(k="leaf", kind="sphere", p=[r], mat="absorber", ops=[["move", x * c["w"], y * c["w"], z * c["w"] * c["aspect"]]] + c["ops"])).root for x, y, z, r in spec["balls"]]
    with sut("edge rendering"):
        img = np.asarray(renderers.EdgeRender(cam, objs).render(), dtype=float)
        require(img.shape == (v, h, 4), "image of a %d x %d camera has shape %s", h, v, img.shape)
    # in the camera's own frame every ray runs along +x
    V = c["w"] * c["aspect"]
    ys = (c["w"] / 2 - c["w"] * np.arange(h) / (h - 1))[None, :]
    zs = (V / 2 - V * np.arange(v) / (v - 1))[:, None]
    ids, front = np.full((v, h), -1), np.full((v, h), np.inf)
    doubt = np.zeros((v, h), dtype=bool)
    for i, (x, y, z, r) in enumerate(spec["balls"]):
        r2 = r * r - (ys - y * c["w"]) ** 2 - (zs - z * V) ** 2
        doubt |= np.abs(r2) < 1e-6 * (1 + r * r)
        half = np.sqrt(np.maximum(r2, 0))
        t0, t1 = x * c["w"] - half, x * c["w"] + half
        t = np.where(r2 > 0, np.where(t0 > 0, t0, np.where(t1 > 0, t1, np.inf)), np.inf)
        doubt |= (r2 > 0) & ((np.abs(t0) < 1e-2) | (np.abs(t1) < 1e-2) | (np.abs(t - front) < 1e-5))
        ids = np.where(t < front, i, ids)
        front = np.minimum(t, front)
    change = np.zeros((v, h), dtype=bool)  # next to a pixel that sees another ball (or none)
    unsure = spread(doubt, 1)
    for a, b in (((slice(None), slice(0, -1)), (slice(None), slice(1, None))), ((slice(0, -1), slice(None)), (slice(1, None), slice(None)))):
        diff = (ids[a] != ids[b]) & ~doubt[a] & ~doubt[b]
        change[a] |= diff
        change[b] |= diff
    k = max(1, int(max(h, v) / 300))
    must = spread(change, k - 1)
    border = np.zeros((v, h), dtype=bool)  # a ball cut by the border of the image: not decided there
    border[0, :] = border[-1, :] = border[:, 0] = border[:, -1] = True
    may = spread(change | unsure | (border & (ids >= 0)), k)
    a = img[..., 3]
    for what, bad in (("within %d pixels of a change of the visible surface is transparent" % k, must & (a != 1)), ("has no change of the visible surface within %d pixels but is opaque" % k, ~may & (a != 0))):
        if bad.any():
            i, j = map(int, np.argwhere(bad)[0])
            require(False, "pixel row %d column %d of a %d x %d image %s", i, j, h, v, what)
    ctx.label("thickness-%d" % k)
    ctx.nt(bool(change.any()) and bool((~may).any()) and max(h, v) >= 150)


@st.composite
def large(draw):
    if draw(st.booleans()):
        h, v = draw(st.integers(100, 420)), draw(st.integers(100, 420))
    else:
        h, v = draw(st.integers(250, 1300)), draw(st.integers(3, 60))
        if draw(st.booleans()):
            h, v = v, h
    u = gen.milli(-0.6, 0.6)
    w = draw(st.sampled_from([2.0, 4.0, 6.0, 10.0]))
    size = w * max(1.0, v / h)
    balls = draw(st.lists(st.tuples(gen.milli(1, 4), u, u, gen.milli(0.05, 0.5).map(lambda f: round(f * size, 4))).map(list), min_size=1, max_size=3))
    return dict(cam=dict(h=h, w=w, aspect=(v + 0.25) / h, ops=draw(st.lists(gen.RIGID_OP, max_size=2))), balls=balls)


@st.composite
def cam(draw, lo=6, hi=14):
    h = draw(st.integers(lo, hi))
    v = draw(st.integers(max(2, lo - 2), hi))
    aspect = (v + draw(st.sampled_from([0.0, 0.25, 0.5]))) / h
    rot = draw(st.lists(st.one_of(gen._ROT), max_size=2))
    if draw(st.integers(0, 3)):
        # off the axes and off the symmetry planes of the components
        rot += [["rx", draw(gen.milli(3, 80))], ["ry", draw(gen.milli(3, 80))], ["my", 0.0137], ["mz", -0.0171]]
    return dict(h=h, w=draw(st.one_of(gen.milli(1, 6), st.sampled_from([2.0, 4.0, 6.0]))), aspect=aspect, ops=[["mx", -draw(st.sampled_from([0.0, 5.0, 5.0, 8.0, 8.0, 12.0, 12.0, 40.0, 1500.0, 5000.0]))]] + rot + draw(st.lists(st.one_of(gen._MOVE), max_size=1)))


MAT = st.one_of(st.sampled_from([["gooch", n] for n in ("WHITE", "RED", "GREEN", "BLUE", "BLACK")]), st.sampled_from(["absorber", "mirror", ["n", 1.4], ["glass", "BK7"]]),
                st.tuples(st.just("flat"), gen.milli(0, 1), gen.milli(0, 1), gen.milli(0, 1)).map(list))


@st.composite
def comps(draw, depth, lens):
    cs = draw(st.lists(system.comp(MAT, depth=depth, lens=lens), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        cs.insert(draw(st.integers(0, len(cs))), draw(system.twin(cs[draw(st.integers(0, len(cs) - 1))], MAT)))
    if draw(st.integers(0, 9)) == 0:  # a crowd of small balls and boxes
        cs += draw(system.swarm(MAT, 5, 24, 2.5))
    return cs


THEN = st.fixed_dictionaries(dict(late=st.sampled_from([0, 0, 1, 2, 4]), turn=st.lists(st.tuples(st.sampled_from(["rx", "ry", "rz"]), gen.milli(-12, 12)).map(list), max_size=2), comps=st.lists(st.tuples(st.integers(0, 2), gen.RIGID_OP).map(list), max_size=2)))


def scene(depth=2, lens=True, **kw):
    light = st.tuples(gen.coord(12), gen.coord(12), gen.coord(12)).map(list)
    return st.fixed_dictionaries(dict(comps=comps(depth, lens), cam=cam(), lights=st.lists(light, min_size=1, max_size=3), flat1=st.booleans(), again=st.booleans(),
                                      then=gen.weighted((3, st.none()), (1, THEN)), **kw))


def cam_ops():
    return st.tuples(cam(2, 40), gen.ops(3)).map(lambda t: dict(t[0], ops=t[0]["ops"] + t[1]))


FACETS = [
    Facet("camera", lambda: st.fixed_dictionaries(dict(cam=cam_ops())), check_camera, quick=1000, thorough=20000, shards=2, rule="any resolution, span, aspect ratio and placement (also scaled)"),
    Facet("shaded", scene, check_shaded, quick=1000, thorough=10000, shards=8, rule="every pixel of small images of 1-3 components, 1-3 lights"),
    Facet("edge-large", large, check_large, quick=96, thorough=2000, shards=8, rule="images of at least 150 pixels on a side with decided pixels on and off the lines"),
    Facet("edge", lambda: scene(lens=False), check_edge, quick=900, thorough=8000, shards=8, rule="every pixel of small edge images"),
]
