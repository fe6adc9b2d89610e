"""C02: the results table is a complete, gap-free history."""
import numpy as np

from vlib import gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from pyrayt import RayTracer

RULE = "non-trivial = at least two emitted rays and at least one ray with two or more rows"
ASSUMPTIONS = ["what a library source emits is taken from generate_rays on the same source (its pattern is decided by C13/C14)"]


def emission(s, spec):
    """Emitted rays in id order: list of (o, d, wl, intensity, index)."""
    out = []
    for q, src in zip(spec["sources"], s.sources):
        if q["kind"] == "fixed":
            o, d = s.aimed(q)
            k = o.shape[1]
            wl = np.resize(q["wl"], k)
            it = np.full(k, 100.0) if q["inten"] is None else np.resize(q["inten"], k)
            ix = np.ones(k)
        else:
            with sut("generate_rays"):
                rs = src.generate_rays(spec["n"])
                o, d = np.array(rs.rays[0, :3]), np.array(rs.rays[1, :3])
                wl, it, ix = np.array(rs.wavelength), np.array(rs.intensity), np.array(rs.index)
        for i in range(o.shape[1]):
            out.append((o[:, i], d[:, i] / np.linalg.norm(d[:, i]), float(wl[i]), float(it[i]), float(ix[i])))
    return out


def invariants(res, emitted, ctx):
    n = res.n
    if n == 0:
        return 0
    require(np.all(np.diff(res.generation) >= 0), "rows are not in ascending generation order: %s", res.generation.tolist())
    require(np.all(np.isin(res.id, np.arange(len(emitted)))), "ids %s, emitted rays are 0..%d", sorted(set(res.id.tolist())), len(emitted) - 1)
    require(np.abs(np.linalg.norm(res.tilt, axis=0) - 1).max() <= 1e-9, "a tilt has length %s", np.linalg.norm(res.tilt, axis=0).tolist())
    deep = 0
    by_id = np.argsort(res.id, kind="stable")
    for rows in np.split(by_id, np.flatnonzero(np.diff(res.id[by_id])) + 1):
        rid = float(res.id[rows[0]])
        g = res.generation[rows]
        require(np.array_equal(g, np.arange(len(rows))), "ray %d has generations %s", rid, g.tolist())
        o, d, wl, it, ix = emitted[int(rid)]
        r = rows[0]
        sc = 1 + np.abs(o).max()
        require(np.abs(res.start[:, r] - o).max() <= 1e-9 * sc, "ray %d: first row starts at %s, emitted from %s", rid, res.start[:, r].tolist(), o.tolist())
        require(np.abs(res.tilt[:, r] - d).max() <= 1e-9, "ray %d: first row points along %s, emitted along %s", rid, res.tilt[:, r].tolist(), d.tolist())
        require(abs(res.intensity[r] - it) <= 1e-9 * it and abs(res.index[r] - ix) <= 1e-12, "ray %d: first row has intensity %s and index %s, emitted with %s and %s", rid, res.intensity[r], res.index[r], it, ix)
        for k, r in enumerate(rows):
            require(abs(res.wavelength[r] - wl) <= 1e-12, "ray %d generation %d: wavelength %s, emitted with %s", rid, k, res.wavelength[r], wl)
            v = res.end[:, r] - res.start[:, r]
            L = float(v @ res.tilt[:, r])
            sc = 1 + np.abs(res.start[:, r]).max() + abs(L)
            require(L > -1e-12, "ray %d generation %d: ends %g behind its start", rid, k, L)
            require(np.abs(v - L * res.tilt[:, r]).max() <= 1e-9 * sc, "ray %d generation %d: end %s is not on the line from %s along %s", rid, k, res.end[:, r].tolist(), res.start[:, r].tolist(), res.tilt[:, r].tolist())
            if k:
                p = rows[k - 1]
                w = res.start[:, r] - res.end[:, p]
                a = float(w @ res.tilt[:, r])
                require(-1e-9 * sc <= a <= 1e-5 and np.abs(w - a * res.tilt[:, r]).max() <= 1e-9 * sc,
                        "ray %d: generation %d starts at %s, generation %d ended at %s", rid, k, res.start[:, r].tolist(), k - 1, res.end[:, p].tolist())
        deep += len(rows) > 1
    ctx.label("rays", len(set(res.id.tolist())))
    ctx.label("rows", n)
    return deep


def check(spec, ctx):
    s = system.System(spec)
    emitted = emission(s, spec)
    t, res = s.trace()
    with sut("results"):
        require(list(t.get_results().index) == list(range(len(t.get_results()))), "the rows are numbered %s...", list(t.get_results().index)[:40])
        require(list(t.get_results().columns[:15]) == sim.COLS or set(sim.COLS) <= set(t.get_results().columns), "results have columns %s", list(t.get_results().columns))
        deep = invariants(res, emitted, ctx)
        if spec.get("twice"):
            with sut("second trace"):
                _, res2 = t, sim.Res(t.trace())
            deep = invariants(res2, emitted, ctx)
    if any(q["kind"] != "fixed" for q in spec["sources"]):
        ctx.label("library-source")
    ctx.nt(deep > 0 and len(emitted) > 1)


def check_offset(spec, ctx):
    """The distance rays are moved off a surface is the tracer's documented setting."""
    s = system.System(spec)
    v = spec["off"]
    kind = RayTracer
    if spec["how"] == "subclass":
        class kind(RayTracer):
            ray_offset_value = v
    with sut("trace"):
        t = kind(s.sources, s.objs, rays_per_source=spec["n"], generation_limit=spec["limit"])
        if spec["how"] == "instance":
            t.ray_offset_value = v
        res = sim.Res(t.trace())
    lengths = []
    for q, src in zip(spec["sources"], s.sources):
        lengths += np.linalg.norm(s.aimed(q)[1], axis=0).tolist() if q["kind"] == "fixed" else [1.0] * spec["n"]
    deep = 0
    for rid in sorted(set(res.id.tolist())):
        rows = np.flatnonzero(res.id == rid)
        f = lengths[int(rid)]  # mirrors keep the length of an emitted direction, glass makes it one
        for p, r in zip(rows, rows[1:]):
            sc = 1 + np.abs(res.start[:, r]).max()
            w = res.start[:, r] - res.end[:, p]
            a = float(w @ res.tilt[:, r])
            require(v * min(1, f) * (1 - 1e-6) - 1e-9 * sc <= a <= v * max(1, f) * (1 + 1e-6) + 1e-9 * sc and np.abs(w - a * res.tilt[:, r]).max() <= 1e-9 * sc,
                    "ray %d: moved %g off the surface between %s and %s, the setting is %g", rid, a, res.end[:, p].tolist(), res.start[:, r].tolist(), v)
            deep += 1
    ctx.label("moved-off", deep)
    ctx.nt(deep > 0)


MAT = system.mats(["glass", "mirror", "absorber", "loss"])


def strat(nsrc, ncomp=(1, 3)):
    base = system.scene(mat=MAT, ncomp=ncomp, nsrc=nsrc, source=st.one_of(system.fixed_source(1, 5, inten=True), system.fixed_source(1, 5), system.lib_source()), limit=st.integers(1, 10))
    return st.tuples(base, st.booleans()).map(lambda t: dict(t[0], twice=t[1]))


def many_strat():
    """Sources of tens to hundreds of rays each (ids well beyond one byte)."""
    base = system.scene(mat=MAT, ncomp=(1, 2), nsrc=(1, 4), source=st.one_of(system.lib_source(), system.lib_source(), system.fixed_source(1, 5)), limit=st.integers(1, 5))
    return st.tuples(base, st.one_of(st.integers(30, 400), st.sampled_from([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]))).map(lambda t: dict(t[0], n=t[1], twice=False))


def mass_strat():
    """Thousands of rays, tens of thousands of rows."""
    base = system.scene(mat=MAT, ncomp=(1, 2), room_mat=st.sampled_from(["mirror", "mirror", "absorber"]), nsrc=(1, 2), source=gen.weighted((1, system.lib_source()), (2, system.fixed_source(2, 5))), limit=st.integers(2, 5))

    def fill(t):
        src = [dict(q, rays=gen._filled([r for r in q["rays"] if "fill" not in r], t[1])) if q["kind"] == "fixed" else q for q in t[0]["sources"]]
        return dict(t[0], sources=src, n=t[1], twice=False)
    return st.tuples(base, st.one_of(st.integers(1000, 4000), st.sampled_from([1024, 1025, 2048, 4097]))).map(fill)


def far_strat():
    """Systems a long way from the origin."""
    base = strat((1, 2))
    v = st.tuples(*3 * [st.one_of(gen.milli(-1, 1), st.just(0.0))])
    return st.tuples(base, v, st.sampled_from([1e3, 1e4, 3e4, 1e5])).map(lambda t: dict(t[0], far=[round(x * t[2], 3) for x in t[1]], n=t[0]["n"]))


@st.composite
def long_strat(draw):
    """Tens to hundreds of generations in a closed mirror room."""
    comps = [draw(system.room(st.just("mirror")))] + draw(st.lists(system.comp(system.mats(["glass", "mirror"]), depth=1, planes=False), max_size=1))
    src = draw(st.fixed_dictionaries(dict(kind=st.just("fixed"), rays=gen.ray_specs(2, 4, many=0), wl=st.just([0.633]), inten=st.none(), ops=st.just([]))))
    return dict(comps=comps, sources=[src], n=1, limit=draw(st.one_of(st.integers(20, 300), st.integers(128, 300), st.sampled_from([127, 128, 129, 255, 256, 257, 258]))), twice=False)


FACETS = [
    Facet("long", long_strat, check, quick=64, thorough=1600, shards=8, rule="20-300 generations", units=()),
    Facet("far", far_strat, check, quick=240, thorough=6000, shards=4, rule="whole systems moved up to 1e5 from the origin", units=()),
    Facet("mass", mass_strat, check, quick=48, thorough=1200, shards=8, rule="1000-4000 rays per source", units=()),
    Facet("many", many_strat, check, quick=240, thorough=5000, shards=8, rule="30-400 rays per source", units=()),
    Facet("systems", lambda: strat((2, 4)), check, quick=1800, thorough=40000, shards=8, rule="2-4 sources of any kind and size in one trace", units=()),
    Facet("offset", lambda: st.tuples(strat((1, 2)), st.sampled_from([1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]), st.sampled_from(["instance", "subclass"])).map(lambda t: dict(t[0], off=t[1], how=t[2])), check_offset,
          quick=160, thorough=4000, shards=4, rule="the documented distance rays are moved off a surface", units=()),
    Facet("single", lambda: strat((1, 1)), check, quick=500, thorough=12000, shards=4, rule="one source", units=()),
]
