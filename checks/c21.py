"""C21: metamorphic relations between whole traces."""
import numpy as np

from vlib import build, gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt

RULE = "non-trivial = at least one compared ray with two or more rows"
ASSUMPTIONS = ["segments on which two correct runs may part because of rounding (grazing, ambiguous, or amplified beyond 1e5) are not compared"]


def run(spec, sources, objs, limit=None):
    with sut("trace"):
        t = pyrayt.RayTracer(sources, objs, rays_per_source=spec["n"], generation_limit=spec["limit"] if limit is None else limit)
        return sim.Res(t.trace())


def stable_len(s, res, rid):
    """Number of leading rows that any correct run must reproduce, and whether the row count is decided too."""
    rows = res.of(rid)
    amp = s.amplification(res, rows)
    k = 0
    while k < len(amp) and amp[k] is not None and amp[k] < 1e5:
        k += 1
    return k, k == len(rows) and not s.near_end(res, rid)


def compare(s, a, b, idmap, m, k, ctx, what, surf=None):
    """Every ray `i` of run a is ray idmap[i] of run b, mapped by the matrix m (uniform factor k)."""
    deep = 0
    scale = max(1.0, k) * max(1, s.spec.get("unit", 1))
    for i, j in idmap.items():
        ra, rb = a.of(i), b.of(j)
        if len(ra) == 0:
            q = s.first_ray(i)
            if q is None or s.nearest(*q) != "none":
                continue
            require(len(rb) == 0, "%s: ray %d has no row before and %d after", what, i, len(rb))
            continue
        n, whole = stable_len(s, a, i)
        if whole:
            require(len(ra) == len(rb), "%s: ray %d has %d rows before and %d after", what, i, len(ra), len(rb))
        else:
            ctx.label("skip-unstable")
        require(len(rb) >= n, "%s: ray %d has %d rows before and %d after", what, i, len(ra), len(rb))
        for g in range(n):
            x, y = ra[g], rb[g]
            h = lambda p: m[:3, :3] @ p + m[:3, 3]
            loc = "%s: ray %d generation %d" % (what, i, g)
            e = h(a.end[:, x])
            require(np.abs(b.end[:, y] - e).max() <= 1e-7 * scale, "%s ends at %s, expected %s", loc, b.end[:, y].tolist(), e.tolist())
            require(np.abs(b.start[:, y] - h(a.start[:, x])).max() <= (1e-7 + (1.1e-5 if g and k != 1 else 0)) * scale, "%s starts at %s, expected %s", loc, b.start[:, y].tolist(), h(a.start[:, x]).tolist())
            td = m[:3, :3] @ a.tilt[:, x] / k
            require(np.abs(b.tilt[:, y] - td).max() <= 1e-7, "%s points along %s, expected %s", loc, b.tilt[:, y].tolist(), td.tolist())
            for f in ("intensity", "wavelength", "index", "generation"):
                u, v = getattr(a, f)[x], getattr(b, f)[y]
                require(abs(u - v) <= 1e-9 * (1 + abs(u)), "%s has %s %s, expected %s", loc, f, v, u)
            c = s.owner.get(int(a.surface[x]))
            same = b.surface[y] == a.surface[x] or (c is not None and not c.by_id and int(b.surface[y]) in c.ids)  # at a lens vertex two of its surfaces touch
            require(same, "%s ends on surface %s, expected %s", loc, b.surface[y], a.surface[x])
        deep += n > 1
        ctx.label("ray-compared")
    return deep


class Sys(system.System):
    """System with explicit emitted rays by id."""

    def __init__(self, spec):
        super().__init__(spec)
        self.rays = []
        for q, src in zip(spec["sources"], self.sources):
            if q["kind"] == "fixed":
                o, d = self.aimed(q)
            else:
                with sut("generate_rays"):
                    r = src.generate_rays(spec["n"]).rays
                    o, d = np.array(r[0, :3]), np.array(r[1, :3])
            self.rays.append((o, d))
        self.count = [o.shape[1] for o, _ in self.rays]
        self.all = [(o[:, i], d[:, i]) for o, d in self.rays for i in range(o.shape[1])]

    def first_ray(self, i):
        return self.all[int(i)]


def check_motion(spec, ctx):
    s = Sys(spec)
    a = run(spec, s.sources, s.objs)
    k = spec["k"] if spec["how"] == "scale" else 1.0
    ops = list(spec["rigid"])
    if spec["how"] == "scale":
        ops.insert(spec["at"] % (len(ops) + 1), ["sall", k])
    m = geo.ops_matrix(ops)
    if spec["fresh"]:
        s2 = Sys(spec)
        ids = {}
        for c1, c2 in zip(s.objs, s2.objs):
            for (i1, _), (i2, _) in zip(c1.surface_ids, c2.surface_ids):
                ids[i2] = i1
        s2.rays = s.rays
    else:
        s2, ids = s, None
    for obj in s2.objs + s2.sources:
        with sut("move system"):
            for op in ops:
                geo.apply_op(obj, op)
    b = run(spec, s2.sources, s2.objs)
    if ids is not None:
        b.surface = np.array([ids.get(x, x) for x in b.surface])
    with sut("results"):
        deep = compare(s, a, b, {i: i for i in range(len(s.all))}, m, k, ctx, "%s the whole system" % ("scaling" if spec["how"] == "scale" else "moving"))
    ctx.label(spec["how"])
    ctx.nt(deep > 0)


def check_order(spec, ctx):
    s = Sys(spec)
    a = run(spec, s.sources, s.objs)
    pc_ = sorted(range(len(s.comps)), key=lambda i: spec["perm"][i % len(spec["perm"])] * 100 + i)
    ps = sorted(range(len(s.sources)), key=lambda i: spec["perm2"][i % len(spec["perm2"])] * 100 + i)
    b = run(spec, [s.sources[i] for i in ps], [s.objs[i] for i in pc_])
    off, start = {}, 0
    for i in ps:
        off[i] = start
        start += s.count[i]
    idmap, base = {}, 0
    for i, n in enumerate(s.count):
        for j in range(n):
            idmap[base + j] = off[i] + j
        base += n
    with sut("results"):
        deep = compare(s, a, b, idmap, np.eye(4), 1.0, ctx, "listing components in order %s and sources in order %s" % (pc_, ps))
    moved = pc_ != sorted(pc_) or ps != sorted(ps)
    ctx.label("reordered" if moved else "same-order")
    ctx.nt(deep > 0 and moved)


def check_extra(spec, ctx):
    """Adding components that no ray reaches."""
    spec = dict(spec, comps=spec["comps"] + [dict(tree=dict(k="leaf", kind="sphere", p=[200.0 * spec.get("unit", 1)], ops=[], mat="absorber"))])
    s = Sys(spec)
    a = run(spec, s.sources, s.objs)
    with sut("build components"):
        extra = [system.Comp(c) for c in spec["extra"]]
    use = []
    for c in extra:
        free = True
        for r in range(a.n):
            o, e = a.start[:, r], a.end[:, r]
            cr = geo.crossings(c.ref, o, a.tilt[:, r])
            L = float((e - o) @ a.tilt[:, r])
            if cr is None or any(-0.01 < t < L + 0.01 for t, *_ in cr):
                free = False
                break
        # rays that leave no row at all or stop inside cannot meet it either: the shell catches everything
        if free and all(len(a.of(i)) for i in range(len(s.all))):
            use.append(c)
    if not use:
        ctx.label("none-unreached")
        return
    at = spec["at"] % (len(s.objs) + 1)
    objs = s.objs[:at] + [c.obj for c in use] + s.objs[at:]
    b = run(spec, s.sources, objs)
    with sut("results"):
        deep = compare(s, a, b, {i: i for i in range(len(s.all))}, np.eye(4), 1.0, ctx, "adding %d components no ray reaches" % len(use))
    ctx.label("extra-%d" % len(use))
    ctx.nt(deep > 0)


def check_subset(spec, ctx):
    spec = dict(spec, sources=[dict(q, ops=[]) if q["kind"] == "fixed" else q for q in spec["sources"]])
    s = Sys(spec)
    a = run(spec, s.sources, s.objs)
    O = np.array([o for o, _ in s.all]).T
    D = np.array([d for _, d in s.all]).T
    wl = np.concatenate([np.resize(0.633 if q["wl"] is None else q["wl"], n) for q, n in zip(spec["sources"], s.count)])
    pick = [i % len(s.all) for i in spec["pick"]]
    b = run(spec, [sim.FixedSource(O[:, pick], D[:, pick], wl[pick])], s.objs)
    with sut("results"):
        deep = compare(s, a, b, {p: j for j, p in reversed(list(enumerate(pick)))}, np.eye(4), 1.0, ctx, "tracing rays %s of %d" % (pick, len(s.all)))
    ctx.nt(deep > 0)


def check_twice(spec, ctx):
    s = Sys(spec)
    with sut("trace"):
        t = pyrayt.RayTracer(s.sources, s.objs, rays_per_source=spec["n"], generation_limit=spec["limit"])
        a = t.trace().to_numpy(dtype=float).copy()
        if spec["fresh"]:
            t = pyrayt.RayTracer(s.sources, s.objs, rays_per_source=spec["n"], generation_limit=spec["limit"])
        b = t.trace().to_numpy(dtype=float)
        require(a.shape == b.shape and np.array_equal(a, b), "tracing the same system twice gives different results (%s and %s)", a.tolist(), b.tolist())
    ctx.nt(len(a) > 2)


class Reversed(sim.FixedSource):
    def __init__(self, o, d, wl, index):
        super().__init__(o, d, wl)
        self.ix = index

    def _local_ray_generation(self, n):
        rs = super()._local_ray_generation(n)
        rs.index = self.ix
        return rs


def check_reverse(spec, ctx):
    s = Sys(spec)
    a = run(spec, s.sources, s.objs)
    deep = 0
    with sut("results"):
        for i in range(min(len(s.all), 12)):
            rows = a.of(i)
            k, _ = stable_len(s, a, i)
            # interfaces crossed before row g+1 must be glass in surroundings of index 1, or mirrors
            g = 0
            ok = 1 if k else 0
            while g + 1 < min(k, len(rows)):
                x, y = rows[g], rows[g + 1]
                hit = s.leaf_hit(a.start[:, x], a.tilt[:, x], a.end[:, x], int(a.surface[x]))
                if hit is None:
                    break
                leaf, ent = hit[1], hit[2]
                if leaf.mat != "mirror":
                    if leaf.mat in ("absorber",) or leaf.mat[0] in ("att", "half") or leaf.kind == "plane":
                        break
                    n2 = sim.index_of(leaf.mat, a.wavelength[x])
                    want = (1.0, n2) if ent else (n2, 1.0)
                    tir = a.index[x] == a.index[y] and not ent
                    if abs(a.index[x] - want[0]) > 1e-9 or (not tir and abs(a.index[y] - want[1]) > 1e-9):
                        break
                    if tir and abs(n2 - 1.0) < 1e-6:
                        break
                    # nearly critical refraction is not reversible in floating point
                    n = leaf.world_normal(a.end[:, x])
                    if n is None or abs(float(n @ a.tilt[:, y])) < 1e-2:
                        break
                ok = g + 2
                g += 1
            if ok < 2:
                continue
            path = rows[:ok]
            amp = s.amplification(a, path)[-1]
            if amp is None or amp > 1e4:
                ctx.label("skip-unstable")
                continue
            last = path[-1]
            p = 0.5 * (a.start[:, last] + a.end[:, last])
            b = run(spec, [Reversed(p, -a.tilt[:, last], a.wavelength[last], a.index[last])], s.objs, limit=ok)
            rb = b.of(0)
            # reverse amplification is judged on the reversed run itself
            rk, _ = stable_len(s, b, 0)
            exp = [a.end[:, r] for r in path[-2::-1]]
            for j, e in enumerate(exp):
                if j >= rk and j < len(rb):
                    ctx.label("skip-unstable")
                    break
                require(j < len(rb), "ray %d reversed from %s: retraces %d of its %d points and ends", i, p.tolist(), j, len(exp))
                g = b.end[:, rb[j]]
                require(np.abs(g - e).max() <= 1e-6 * max(1, spec.get("unit", 1)), "ray %d reversed from %s: point %d is %s, the forward path has %s", i, p.tolist(), j, g.tolist(), e.tolist())
            deep += len(exp) > 1
            ctx.label("reversed-%d" % min(len(exp), 6))
    ctx.nt(deep > 0)


MAT = system.mats(["glass", "glass", "mirror", "mirror", "absorber", "loss"])
CLEAR = system.mats(["glass", "mirror"])


def base(mat=MAT, src=None, nsrc=(1, 2), extra=None, room_mat=None, **kw):
    src = src if src is not None else st.one_of(system.fixed_source(2, 5), system.lib_source())
    b = system.scene(mat=mat, nsrc=nsrc, source=src, limit=st.integers(2, 7), room_mat=room_mat, **kw)
    return b if extra is None else st.tuples(b, st.fixed_dictionaries(extra)).map(lambda t: dict(t[0], **t[1]))


def check_stack(spec, ctx):
    """Plates one behind the other with hairline gaps, seen by rays through their faces; then the stack is carried far away."""
    z, objs = 0.0, []
    with sut("build stack"):
        for thick, gap, mat in spec["plates"]:
            objs.append(build.Built(dict(k="leaf", kind="box", p=[-20, -20, z, 20, 20, z + thick], mat=mat, ops=[])).root)
            z += thick + gap
        order = sorted(range(len(objs)), key=lambda i: spec["perm"][i % len(spec["perm"])] * 10 + i)
        objs = [objs[i] for i in order]
        o, d = [], []
        for x, y, tx, ty in spec["rays"]:
            o.append([x, y, -1.0])
            d.append([tx, ty, 1.0])
        o, d = np.array(o).T, np.array(d).T
        src = sim.FixedSource(o, d / np.linalg.norm(d, axis=0), np.full(o.shape[1], 0.55), None)
    a = run(spec, [src], objs)
    m = geo.ops_matrix(spec["rigid"])
    with sut("move stack"):
        for obj in objs + [src]:
            for op in spec["rigid"]:
                geo.apply_op(obj, op)
    b = run(spec, [src], objs)
    deep = 0
    with sut("results"):
        for i in range(o.shape[1]):
            ra, rb = a.of(i), b.of(i)
            require(len(ra) == len(rb), "moving a stack of plates: ray %d has %d rows before and %d after", i, len(ra), len(rb))
            for g, (x, y) in enumerate(zip(ra, rb)):
                loc = "moving a stack of plates: ray %d generation %d" % (i, g)
                e = m[:3, :3] @ a.end[:, x] + m[:3, 3]
                require(np.abs(b.end[:, y] - e).max() <= 1e-7, "%s ends at %s, expected %s", loc, b.end[:, y].tolist(), e.tolist())
                require(b.surface[y] == a.surface[x] and abs(b.index[y] - a.index[x]) <= 1e-9, "%s ends on surface %s with index %s, before on %s with %s", loc, b.surface[y], b.index[y], a.surface[x], a.index[x])
                require(np.abs(b.tilt[:, y] - m[:3, :3] @ a.tilt[:, x]).max() <= 1e-7, "%s points along %s", loc, b.tilt[:, y].tolist())
            deep += len(ra) > 2
            ctx.label("ray-compared")
    ctx.nt(deep > 0)


def strat_stack(mat=None):
    gap = st.one_of(gen.milli(0.001, 1), st.sampled_from([3e-5, 5e-5, 1e-4, 2e-4, 5e-4]), st.floats(-4.5, -1).map(lambda e: 10.0 ** e))
    far = st.tuples(st.just("move"), *[st.one_of(gen.milli(-5, 5), st.integers(-3000, 3000), st.sampled_from([1000, -1000, 10000]))] * 3).map(list)
    t = gen.milli(-0.5, 0.5)
    return st.fixed_dictionaries(dict(
        plates=st.lists(st.tuples(st.one_of(gen.milli(0.01, 1), gap), gap, mat if mat is not None else system.mats(["glass", "glass", "glass", "mirror", "absorber", "loss"])).map(list), min_size=2, max_size=7), perm=st.lists(st.integers(0, 9), min_size=7, max_size=7),
        rays=st.lists(st.tuples(gen.milli(-1, 1), gen.milli(-1, 1), t, t).map(list), min_size=1, max_size=4),
        rigid=st.tuples(st.lists(gen.RIGID_OP, max_size=2), far).map(lambda t: t[0] + [t[1]]), limit=st.integers(2, 16), n=st.just(1)))


FACETS = [
    Facet("stack", strat_stack, check_stack, quick=400, thorough=10000, shards=4, rule="plates with gaps down to 3e-5, the stack carried up to thousands of units away", units=()),
    Facet("motion", lambda: base(extra=dict(how=st.sampled_from(["rigid", "rigid", "scale"]), k=st.one_of(gen.milli(0.2, 5), st.sampled_from([0.5, 2.0, 10.0])), rigid=st.lists(gen.RIGID_OP, min_size=1, max_size=4), at=st.integers(0, 4), fresh=st.booleans())),
          check_motion, quick=500, thorough=14000, shards=8, rule="the whole system moved, rotated or scaled: same objects or freshly built", units=()),
    Facet("order", lambda: base(nsrc=(1, 3), ncomp=(2, 5), extra=dict(perm=st.lists(st.integers(0, 9), min_size=6, max_size=6), perm2=st.lists(st.integers(0, 9), min_size=3, max_size=3))),
          check_order, quick=300, thorough=10000, shards=8, rule="components and sources listed in another order", units=()),
    Facet("extra", lambda: base(extra=dict(extra=st.lists(system.comp(MAT, depth=1), min_size=1, max_size=3), at=st.integers(0, 5)), rooms=False), check_extra, quick=300, thorough=8000, shards=4, rule="components added where no ray passes", units=()),
    Facet("subset", lambda: base(src=system.fixed_source(3, 7, ops=False), extra=dict(pick=st.lists(st.integers(0, 20), min_size=1, max_size=6))), check_subset, quick=300, thorough=8000, shards=4, rule="a subset of the rays in another order", units=()),
    Facet("bulk", lambda: base(src=system.lib_source(), extra=dict(pick=st.lists(st.integers(0, 20000), min_size=1, max_size=6), many=st.one_of(st.integers(30, 300), st.sampled_from([64, 65, 128, 129, 256, 257, 512, 1025, 2049, 4097, 8193])))).map(lambda q: dict(q, n=q.pop("many"))), check_subset, quick=200, thorough=6000, shards=8, rule="a few rays alone out of sources of 30-300 rays, at times thousands", units=()),
    Facet("twice", lambda: base(extra=dict(fresh=st.booleans())), check_twice, quick=300, thorough=6000, shards=2, rule="the same trace twice", units=()),
    Facet("reverse", lambda: base(mat=CLEAR, room_mat=st.just("mirror"), src=system.fixed_source(3, 6)), check_reverse, quick=400, thorough=12000, shards=8, rule="paths through glass and mirrors traced backwards", units=()),
]
