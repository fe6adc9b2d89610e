"""C05: how rays end."""
import numpy as np

from vlib import gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

RULE = "non-trivial = at least two different fates (absorbed, weak, limit, escaped) among the rays of one trace"
ASSUMPTIONS = ["continuations that graze an edge, or whose intensity is within 1e-9 of the threshold after a loss, are skipped and counted"]


def fates(s, res, limit, threshold, emitted, ctx):
    """Predicts for every ray whether another row must or must not follow each recorded row."""
    kinds, met = set(), {}
    for rid, (o, d, inten) in enumerate(emitted):
        rows = res.of(rid)
        require(len(rows) <= limit, "ray %d has %d rows with a generation limit of %d", rid, len(rows), limit)
        if len(rows) == 0:
            if inten < threshold:
                kinds.add("weak")
                ctx.label("weak-at-source")
                continue
            key = o.tobytes() + d.tobytes()
            if key not in met:
                met[key] = s.nearest(o, d)
            ref = met[key]
            if ref == "none":
                kinds.add("escaped")
            require(ref is None or ref == "none", "ray %d from %s along %s with intensity %s has no row although it meets a surface", rid, o.tolist(), d.tolist(), inten)
            continue
        require(inten >= threshold, "ray %d emitted with intensity %s below the threshold %s has rows", rid, inten, threshold)
        for k, r in enumerate(rows):
            b, end = res.tilt[:, r], res.end[:, r]
            what = "ray %d generation %d ending at %s" % (rid, k, end.tolist())
            follows = k + 1 < len(rows)
            hit = s.leaf_hit(res.start[:, r], b, end, int(res.surface[r]))
            if hit is None:
                ctx.label("skip-ambiguous")
                continue
            c, leaf, ent = hit
            if leaf.mat == "absorber":
                require(not follows, "%s: has a further row although it was absorbed", what)
                kinds.add("absorbed")
                ctx.label("fate-absorbed")
                continue
            nd, ni, ninten = s.after_hit(leaf, ent, end, b, float(res.index[r]), float(res.wavelength[r]), float(res.intensity[r]))
            if leaf.mat[0] in ("att", "half"):
                if abs(ninten - threshold) < 1e-9 * threshold:
                    continue
                if follows:
                    require(abs(res.intensity[rows[k + 1]] - ninten) <= 1e-9 * ninten, "%s: intensity afterwards %s, the material leaves %s", what, res.intensity[rows[k + 1]], ninten)
            if ninten < threshold:
                require(not follows, "%s: has a further row although its intensity %s is below the threshold %s", what, ninten, threshold)
                kinds.add("weak")
                ctx.label("fate-weak")
                continue
            if follows:
                continue
            if k + 1 == limit:
                kinds.add("limit")
                ctx.label("fate-limit")
                continue
            if nd is None:
                ctx.label("skip-edge")
                continue
            ref = s.nearest(end + 1e-6 * nd, nd, leaf)
            if ref is None:
                ctx.label("skip-ambiguous")
                continue
            require(ref == "none", "%s: no further row although it goes on along %s with intensity %s, meets a surface at distance %s and the limit is %d", what, nd.tolist(), ninten, ref[0], limit)
            kinds.add("escaped")
            ctx.label("fate-escaped")
    return kinds


def run(s, limit, threshold, n=None):
    import pyrayt
    with sut("trace"):
        t = pyrayt.RayTracer(s.sources, s.objs, rays_per_source=s.spec["n"] if n is None else n, generation_limit=limit)
        if threshold is not None:
            t.ray_intensity_threshold = threshold
        return sim.Res(t.trace())


def rows_by_ray(res):
    return {rid: [(res.start[:, r], res.end[:, r], res.tilt[:, r], res.surface[r], res.intensity[r], res.index[r]) for r in res.of(rid)] for rid in set(res.id.tolist())}


def same_row(a, b, tol=1e-9):
    return all(np.allclose(x, y, rtol=tol, atol=tol) for x, y in zip(a, b))


def check(spec, ctx):
    s = system.System(spec)
    th = spec["th"]
    res = run(s, spec["limit"], th)
    emitted = []
    for q in spec["sources"]:
        o, d = s.aimed(q)
        it = np.full(o.shape[1], 100.0) if q["inten"] is None else np.resize(q["inten"], o.shape[1])
        emitted += [(o[:, i], d[:, i], float(it[i])) for i in range(o.shape[1])]
    with sut("results"):
        kinds = fates(s, res, spec["limit"], 0.1 if th is None else th, emitted, ctx)
    ctx.nt(len(kinds) > 1)


class Filled(system.System):
    """The rays of every source, with `fill` copies of further rays before, between or after them."""

    def aimed(self, q):
        o, d = super().aimed(q)
        f, k = self.spec["fill"], o.shape[1]
        if not f["n"]:
            return o, d
        pick = [(f["k"] + i) % k for i in range(f["kinds"])]
        mo, md = o[:, np.resize(pick, f["n"])], d[:, np.resize(pick, f["n"])]
        if f["away"]:  # off into the void, unless a room is in the way
            mo = mo + 1000.0 * np.array([[0.6], [0.64], [0.48]])
            md = np.tile(np.array([[0.6], [0.64], [0.48]]), (1, f["n"]))
        order = {"before": list(range(k, k + f["n"])) + list(range(k)), "after": list(range(k + f["n"]))}.get(f["where"])
        if order is None:
            order = list(range(k, k + f["n"]))
            for j in range(k):
                order.insert((f["k"] + 1) * (j + 1) * 37 % len(order), j)
        return np.hstack((o, mo))[:, order], np.hstack((d, md))[:, order]


def check_few(spec, ctx):
    """Hundreds of rays ending early leave the fate of the few others alone."""
    s = Filled(spec)
    th = spec["th"]
    res = run(s, spec["limit"], th, s.aimed(spec["sources"][0])[0].shape[1])
    emitted = []
    for q in spec["sources"]:
        o, d = s.aimed(q)
        it = np.full(o.shape[1], 100.0) if q["inten"] is None else np.resize(q["inten"], o.shape[1])
        emitted += [(o[:, i].copy(), d[:, i].copy(), float(it[i])) for i in range(o.shape[1])]
    with sut("results"):
        kinds = fates(s, res, spec["limit"], 0.1 if th is None else th, emitted, ctx)
        alive = [int(np.sum(res.generation == g)) for g in range(spec["limit"])]
    n = len(emitted)
    ctx.label("rays", n)
    if any(0 < a < 0.02 * n for a in alive):
        ctx.label("few-left")
    ctx.nt(len(kinds) > 1 and any(0 < a < 0.02 * n for a in alive))


def check_long(spec, ctx):
    """Tens to hundreds of generations in a closed room."""
    s = system.System(spec)
    q = spec["sources"][0]
    res = run(s, spec["limit"], spec["th"])
    o, d = s.aimed(q)
    it = np.full(o.shape[1], 100.0) if q["inten"] is None else np.resize(q["inten"], o.shape[1])
    with sut("results"):
        kinds = fates(s, res, spec["limit"], 0.1 if spec["th"] is None else spec["th"], [(o[:, i], d[:, i], float(it[i])) for i in range(o.shape[1])], ctx)
        deep = max([len(res.of(i)) for i in range(o.shape[1])] + [0])
    ctx.label("depth-%d+" % (50 if deep >= 50 else 20 if deep >= 20 else 0))
    ctx.nt(deep >= 20 and bool(kinds))


def check_limit(spec, ctx):
    """Raising the limit only appends rows."""
    s = system.System(spec)
    th = spec["th"]
    lo, hi = spec["limit"], spec["limit"] + spec["more"]
    with sut("results"):
        a, b = rows_by_ray(run(s, lo, th)), rows_by_ray(run(s, hi, th))
        require(set(a) == set(b), "rays with rows %s at limit %d, %s at limit %d", sorted(a), lo, sorted(b), hi)
        longer = 0
        for rid in a:
            require(len(a[rid]) == min(lo, len(b[rid])), "ray %d has %d rows at limit %d and %d at limit %d", rid, len(a[rid]), lo, len(b[rid]), hi)
            for k, (x, y) in enumerate(zip(a[rid], b[rid])):
                require(same_row(x, y), "ray %d generation %d differs between limits %d and %d: %s / %s", rid, k, lo, hi, x, y)
            longer += len(b[rid]) > len(a[rid])
    ctx.nt(longer > 0 and any(len(b[r]) < hi for r in b))


def check_alone(spec, ctx):
    """A ray's rows do not depend on how the other rays of the batch end."""
    s = system.System(spec)
    q = spec["sources"][0]
    o, d = s.aimed(q)
    k = o.shape[1]
    it = np.full(k, 100.0) if q["inten"] is None else np.resize(q["inten"], k)
    wl = np.resize(q["wl"], k)
    with sut("results"):
        batch = run(s, spec["limit"], spec["th"])
        full = rows_by_ray(batch)
        amp = [s.amplification(batch, batch.of(i)) for i in range(k)]
        for i in range(k):
            s.sources = [sim.FixedSource(o[:, i:i + 1], d[:, i:i + 1], wl[i:i + 1], it[i:i + 1])]
            one = rows_by_ray(run(s, spec["limit"], spec["th"])).get(0.0, [])
            f = full.get(float(i), [])
            ok = len(amp[i])
            while ok and (amp[i][ok - 1] is None or amp[i][ok - 1] > 1e5):
                ok -= 1
            if ok == len(f) and (f or s.nearest(o[:, i], d[:, i]) is not None):
                # the continuation must not be a near miss either
                require(len(one) == len(f) or s.near_end(batch, i), "ray %d has %d rows in a batch of %d and %d alone", i, len(f), k, len(one))
            else:
                ctx.label("skip-unstable")
            require(min(ok, len(f)) <= len(one) , "ray %d has %d rows in a batch of %d and %d alone", i, len(f), k, len(one))
            for j, (x, y) in enumerate(zip(f[:ok], one)):
                require(same_row(x, y, 1e-8), "ray %d generation %d: %s in a batch, %s alone", i, j, x, y)
        lens = {len(v) for v in full.values()}
    ctx.nt(len(lens) > 1)


def check_mass(spec, ctx):
    """Thousands of rays: a few of them, picked by how long they live, traced without the others give the same rows."""
    s = system.System(spec)
    q = spec["sources"][0]
    o, d = s.aimed(q)
    k = o.shape[1]
    it = np.full(k, 100.0) if q["inten"] is None else np.resize(q["inten"], k)
    wl = np.resize(q["wl"], k)
    with sut("results"):
        batch = run(s, spec["limit"], spec["th"], k)
        count = np.bincount(batch.id.astype(int), minlength=k)
        require(len(count) == k and count.max(initial=0) <= spec["limit"], "%d rays emitted, ids up to %d, up to %d rows each (limit %d)", k, len(count) - 1, count.max(), spec["limit"])
        order = np.argsort(count, kind="stable")
        pick = sorted({0, k - 1, int(order[-1]), int(order[0])} | {int(order[p * (k - 1) // 999]) for p in spec["pick"]})
        s.sources = [sim.FixedSource(o[:, pick], d[:, pick], wl[pick], it[pick])]
        alone = run(s, spec["limit"], spec["th"], len(pick))
        longest = 0
        for j, i in enumerate(pick):
            f, one = batch.of(i), alone.of(j)
            amp = s.amplification(batch, f)
            ok = len(amp)
            while ok and (amp[ok - 1] is None or amp[ok - 1] > 1e5):
                ok -= 1
            if ok == len(f) and (len(f) or s.nearest(o[:, i], d[:, i]) is not None):
                require(len(one) == len(f) or s.near_end(batch, i) or s.near_end(alone, j), "ray %d has %d rows among %d rays and %d among %d", i, len(f), k, len(one), len(pick))
            else:
                ctx.label("skip-unstable")
            require(min(ok, len(f)) <= len(one), "ray %d has %d rows among %d rays and %d among %d", i, len(f), k, len(one), len(pick))
            for r, p in zip(f[:ok], one):
                x = [batch.start[:, r], batch.end[:, r], batch.tilt[:, r], batch.surface[r], batch.intensity[r], batch.index[r], batch.wavelength[r]]
                y = [alone.start[:, p], alone.end[:, p], alone.tilt[:, p], alone.surface[p], alone.intensity[p], alone.index[p], alone.wavelength[p]]
                require(same_row(x, y, 1e-8), "ray %d of %d: row %s, traced with %d others only %s", i, k, x, len(pick) - 1, y)
            longest = max(longest, ok)
    ctx.label("rows-%dk" % (batch.n // 1000 if batch.n < 10000 else 10))
    ctx.nt(longest > 1 and len(set(count.tolist())) > 1)


MAT = system.mats(["glass", "mirror", "absorber", "loss", "loss"])
ROOM = st.one_of(st.sampled_from(["mirror", "absorber"]), system.LOSS)
TH = st.one_of(st.none(), st.none(), st.sampled_from([1.0, 10.0, 0.01, 0.5]), gen.milli(0.01, 60))


def strat(extra=None, nsrc=(1, 2), ops=True):
    base = system.scene(mat=MAT, ncomp=(1, 4), room_mat=ROOM, nsrc=nsrc, limit=st.integers(1, 8), source=st.one_of(system.fixed_source(2, 6), system.fixed_source(2, 6, inten=True, ops=ops)), planes=True)
    return st.tuples(base, TH, st.integers(1, 4)).map(lambda t: dict(t[0], th=t[1], more=t[2]))


def few_strat():
    fill = st.fixed_dictionaries(dict(n=st.one_of(st.integers(100, 600), st.integers(100, 600), st.integers(600, 2000)), k=st.integers(0, 5), kinds=st.sampled_from([1, 1, 1, 2]), away=st.sampled_from([True, True, False]), where=st.sampled_from(["before", "after", "between"])))
    base = system.scene(mat=MAT, ncomp=(1, 3), rooms=False, nsrc=(1, 1), limit=st.integers(2, 6), source=system.fixed_source(1, 4, ops=False), planes=True)
    room = system.scene(mat=MAT, ncomp=(1, 2), room_mat=ROOM, nsrc=(1, 1), limit=st.integers(2, 6), source=system.fixed_source(1, 4, inten=True, ops=False), planes=True)
    return st.tuples(gen.weighted((2, base), (1, room)), TH, fill).map(lambda t: dict(t[0], th=t[1], fill=t[2]))


def mass_strat():
    base = system.scene(mat=MAT, ncomp=(1, 3), room_mat=gen.weighted((2, st.just("mirror")), (1, ROOM)), nsrc=(1, 1), limit=st.integers(2, 7), planes=True,
                        source=gen.weighted((2, system.fixed_source(2, 6, ops=False)), (1, system.fixed_source(2, 6, inten=True, ops=False))))
    many = st.one_of(st.integers(1000, 6000), st.sampled_from([1024, 1025, 2048, 2049, 4096, 4097]))

    def fill(t):
        src = t[0]["sources"][0]
        src = dict(src, rays=gen._filled([r for r in src["rays"] if "fill" not in r], t[2]))
        return dict(t[0], sources=[src], th=t[1], pick=t[3])
    return st.tuples(base, TH, many, st.lists(st.integers(0, 999), min_size=2, max_size=6)).map(fill)


@st.composite
def long_strat(draw):
    comps = [draw(system.room(st.just("mirror")))] + draw(st.lists(system.comp(system.mats(["glass", "mirror"]), depth=1, planes=False), max_size=1))
    src = draw(st.fixed_dictionaries(dict(kind=st.just("fixed"), rays=gen.ray_specs(1, 3, many=0), wl=st.just([0.633]), inten=st.one_of(st.none(), st.just([1.0, 0.11])), ops=st.just([]))))
    return dict(comps=comps, sources=[src], n=1, limit=draw(st.one_of(st.integers(20, 120), st.integers(20, 120), st.integers(120, 300))), th=draw(st.sampled_from([None, 0.01])))


FACETS = [
    Facet("few", few_strat, check_few, quick=320, thorough=8000, shards=8, rule="100-2000 rays of which fewer than 2%% are alive in some generation".replace("%%", "%"), units=()),
    Facet("mass", mass_strat, check_mass, quick=64, thorough=2000, shards=8, rule="1000-6000 rays, a few of them also traced without the others; non-trivial when the rays have different numbers of rows", units=()),
    Facet("long", long_strat, check_long, quick=96, thorough=2400, shards=8, rule="a ray with at least 20 rows (limits 20-300, closed mirror rooms)", units=()),
    Facet("fates", strat, check, quick=1200, thorough=28000, shards=8, rule="absorbers, mirrors, glass and lossy materials mixed; source intensities around the threshold", units=()),
    Facet("limit", strat, check_limit, quick=500, thorough=12000, shards=4, rule="the same system at two generation limits", units=()),
    Facet("alone", lambda: strat(nsrc=(1, 1), ops=False), check_alone, quick=300, thorough=8000, shards=4, rule="every ray of a batch traced alone", units=()),
]
