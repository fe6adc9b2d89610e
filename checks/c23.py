"""C23: tracing, plotting, rendering and queries leave components, sources and inputs unchanged."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from vlib import build, gen, geo, rays, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt
import pyrayt.components as pc
from tinygfx import g3d as cg
from tinygfx.g3d import renderers

RULE = "non-trivial = at least two different kinds of call, one of them a trace that left rows"


def arr(x):
    return np.array(x, dtype=float)


def bits(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def material_state(m):
    out = []
    for k, v in sorted(vars(m).items()):
        out.append((k, tuple(np.ravel(v).tolist()) if isinstance(v, (int, float, np.ndarray)) else id(v)))
    return id(m), tuple(out)


class Probe:
    """Everything observable about the components and sources."""

    def __init__(self, s, spec):
        self.s = s
        self.o, self.d = rays.resolve(s.refs, spec["probe"], unit=False)

    def take(self):
        out = {}
        with sut("query state"):
            for i, c in enumerate(self.s.comps):
                nodes = c.built.nodes if hasattr(c, "built") else {"": c.obj}
                for p, o in nodes.items():
                    n = "component %d%s " % (i, "/" + p if p else "")
                    out[n + "world transform"] = arr(o.get_world_transform())
                    out[n + "object transform"] = arr(o.get_object_transform())
                    out[n + "position"] = arr(o.get_position())
                    out[n + "orientation"] = arr(o.get_orientation())
                    out[n + "bounding volume"] = arr(o.bounding_volume.axis_spans)
                hits, ids = c.obj.intersect(rays.homogeneous(self.o, self.d))
                out["component %d crossings" % i] = arr(hits)
                out["component %d crossed surfaces" % i] = arr(ids)
                out["component %d surface list" % i] = arr([a for a, _ in c.obj.surface_ids])
                for a, surf in c.obj.surface_ids:
                    x = np.ones((4, 5))
                    x[:3] = np.array([[0.3, -1.2, 0.7, 2.0, -0.4], [1.1, 0.2, -0.9, -0.3, 0.8], [-0.6, 0.9, 1.3, 0.1, -2.1]])
                    out["component %d surface %d normals" % (i, a)] = arr(surf.get_world_normals(x))
                    out["component %d surface %d material" % (i, a)] = np.array([hash(material_state(surf.material))])
            for i, src in enumerate(self.s.sources):
                n = "source %d " % i
                out[n + "world transform"] = arr(src.get_world_transform())
                out[n + "object transform"] = arr(src.get_object_transform())
                out[n + "wavelength"] = arr(src.wavelength)
                if not isinstance(src, pc.Lamp) or isinstance(src, pc.StaticLamp):
                    out[n + "rays"] = arr(src.generate_rays(3))
        return out

    def check(self, before, what):
        after = self.take()
        for k, a in before.items():
            b = after[k]
            require(bits(a, b), "after %s: %s changed from %s to %s", what, k, a.tolist(), b.tolist())


def check(spec, ctx):
    s = system.System(spec)
    for q in spec["lamps"]:
        with sut("lamp"):
            lamp = (pc.StaticLamp if q[0] else pc.Lamp)(q[1], q[2], q[3])
            geo.apply_op(lamp, q[4])
        s.sources.append(lamp)
    probe = Probe(s, spec)
    before = probe.take()
    src_list, comp_list = list(s.sources), list(s.objs)
    src_keep, comp_keep = list(src_list), list(comp_list)
    with sut("create tracer"):
        t = pyrayt.RayTracer(src_list, comp_list, rays_per_source=spec["n"], generation_limit=spec["limit"])
    results, handed = [], []
    kinds = set()
    rows = 0
    with sut("bounding volumes"):  # empty intersections have no extent and cannot be drawn
        drawable = all(np.isfinite(np.asarray(c.bounding_volume.axis_spans)).all() for c in comp_list)
    try:
        for step, act in enumerate(spec["acts"]):
            k, what = act[0], "step %d %s" % (step, act)
            if k in ("show", "draw") and not drawable:
                ctx.label("skip-empty-component")
                continue
            with sut(what):
                if k == "trace":
                    df = t.trace()
                    results.append((step, df, arr(df[sim.COLS])))
                    rows += len(df)
                elif k == "other":
                    df = pyrayt.RayTracer(src_list, comp_list, rays_per_source=2, generation_limit=3).trace()
                    results.append((step, df, arr(df[sim.COLS])))
                elif k == "show":
                    fig, ax = plt.subplots()
                    cf = act[2] if len(t.get_results()) else None
                    if cf == "source" and any(q["kind"] == "fixed" and s.aimed(q)[0].shape[1] != spec["n"] for q in spec["sources"]):
                        cf = "wavelength"  # a source that ignores the asked number of rays has no defined colour
                    t.show(view=act[1], axis=ax, color_function=cf, resolution=24, shaded=act[3])
                elif k == "draw":
                    fig, ax = plt.subplots()
                    lo, hi = np.array([-3.0, -3, -3]), np.array([3.0, 3, 3])
                    b = (lo, hi) if act[3] else None
                    renderers.draw(comp_list, view=act[1], axis=ax, shaded=act[2], resolution=20, bounds=b)
                    require(np.array_equal(lo, [-3.0] * 3) and np.array_equal(hi, [3.0] * 3), "%s: the bounds passed in are modified", what)
                elif k == "render":
                    cam = cg.OrthographicCamera(12, 8.0, 1.0)
                    cam.move(-9, 0.1, 0.2)
                    geo.apply_op(cam, act[2])
                    cm = arr(cam.get_world_transform())
                    light = np.array([3.0, -2.0, 8.0, 1.0])
                    if act[1]:
                        img = renderers.ShadedRenderer(cam, comp_list, light).render()
                    else:
                        img = renderers.EdgeRender(cam, comp_list).render()
                    require(np.array_equal(light, [3.0, -2.0, 8.0, 1.0]), "%s: the light position passed in is modified", what)
                    require(bits(cm, arr(cam.get_world_transform())), "%s: the camera's transform changed", what)
                    handed.append((step, "image", img, np.array(img, copy=True)))
                elif k == "rays":
                    for src in src_list:
                        rs = src.generate_rays(act[1])
                        handed.append((step, "ray set", rs, np.array(rs, copy=True)))
                elif k == "labels":
                    if len(t.get_results()):
                        t.calculate_source_ids()
                for j, df, keep in results:
                    require(bits(arr(df[sim.COLS]), keep), "after %s: the results handed out in step %d are altered", what, j)
                for j, name, obj, keep in handed:
                    require(bits(np.asarray(obj), keep), "after %s: the %s handed out in step %d is altered", what, name, j)
                require(len(src_list) == len(src_keep) and all(a is b for a, b in zip(src_list, src_keep)), "%s: the list of sources is modified", what)
                require(len(comp_list) == len(comp_keep) and all(a is b for a, b in zip(comp_list, comp_keep)), "%s: the list of components is modified", what)
            probe.check(before, what)
            kinds.add(k)
            ctx.label(k)
    finally:
        plt.close("all")
    ctx.nt(len(kinds) > 1 and rows > 0)


def check_inputs(spec, ctx):
    """Queries leave the arrays passed in alone (also views, Fortran order and repeated columns)."""
    with sut("build"):
        b = build.Built(spec["tree"])
    ref = geo.build_ref(spec["tree"])
    o, d = rays.resolve(ref, spec["rays"], unit=False)
    R = rays.homogeneous(o, d)
    if spec["form"] == "fortran":
        R = np.asfortranarray(R)
    elif spec["form"] == "view":
        big = np.zeros((2, 4, 2 * R.shape[2]))
        big[..., ::2] = R
        R = big[..., ::2]
    keep = R.copy()
    P = np.ones((4, R.shape[2]))
    P[:3] = o + 0.37 * d
    pk = P.copy()
    for path, obj in b.nodes.items():
        what = "part %r of %s" % (path, spec["tree"]["k"])
        with sut("queries of " + what):
            h1 = [arr(x) for x in obj.intersect(R)]
            require(np.array_equal(R, keep), "%s: intersect modifies the rays passed in", what)
            h2 = [arr(x) for x in obj.intersect(R)]
            require(bits(h1[0], h2[0]) and bits(h1[1], h2[1]), "%s: intersecting the same rays again gives another result", what)
            obj.to_object_coordinates(P)
            obj.to_world_coordinates(P)
            require(np.array_equal(P, pk), "%s: converting coordinates modifies them", what)
            for sid, surf in obj.surface_ids:
                n1 = arr(surf.get_world_normals(P))
                require(np.array_equal(P, pk), "%s: asking for normals modifies the points passed in", what)
                require(bits(n1, arr(surf.get_world_normals(P))), "%s: asking for the normals again gives another result", what)
            if hasattr(obj, "primitive"):
                obj.primitive.intersect(R)
                require(np.array_equal(R, keep), "%s: the primitive's intersect modifies the rays passed in", what)
                obj.primitive.normal(P)
                require(np.array_equal(P, pk), "%s: the primitive's normal modifies the points passed in", what)
                dist = np.full(P.shape[1], 0.37)
                light = np.array([3.0, -2.0, 8.0, 1.0])
                surf.shade(R, dist, light_positions=light)
                require(np.array_equal(R, keep) and np.all(dist == 0.37) and np.array_equal(light, [3.0, -2.0, 8.0, 1.0]), "%s: shading modifies its inputs", what)
    ctx.label("form-" + spec["form"])
    ctx.nt(spec["tree"]["k"] == "csg" and R.shape[2] > 1)


ACT = st.one_of(
    st.just(["trace"]), st.just(["trace"]), st.just(["other"]), st.just(["labels"]),
    st.tuples(st.just("show"), st.sampled_from(["xy", "xz"]), st.sampled_from([None, "wavelength", "source"]), st.booleans()).map(list),
    st.tuples(st.just("draw"), st.sampled_from(["xy", "xz"]), st.booleans(), st.booleans()).map(list),
    st.tuples(st.just("render"), st.booleans(), gen.RIGID_OP).map(list),
    st.tuples(st.just("rays"), st.integers(1, 5)).map(list))
LAMP = st.tuples(st.booleans(), gen.milli(0.1, 3), gen.milli(0.1, 3), gen.milli(1, 90), gen.RIGID_OP).map(list)


def strat():
    base = system.scene(mat=system.mats(["glass", "mirror", "absorber", "loss"]), ncomp=(1, 3), depth=2, nsrc=(1, 2), source=st.one_of(system.fixed_source(1, 4, inten=True), system.lib_source()), limit=st.integers(1, 6), rooms=False)
    return st.tuples(base, st.lists(ACT, min_size=2, max_size=5), gen.ray_specs(3, 6), st.lists(LAMP, max_size=1)).map(lambda t: dict(t[0], acts=t[1], probe=t[2], lamps=t[3]))


FACETS = [
    Facet("calls", strat, check, quick=480, thorough=12000, shards=8, rule="2-5 traces, plots, drawings, renderings and ray generations; full state compared bit for bit after each"),
    Facet("inputs", lambda: st.fixed_dictionaries(dict(tree=st.one_of(gen.leaf(), gen.moved_tree(depth=2)), rays=gen.ray_specs(1, 6), form=st.sampled_from(["plain", "fortran", "view"]))), check_inputs, quick=800, thorough=16000, shards=4, rule="every query of every part of an object, inputs compared bit for bit"),
]
