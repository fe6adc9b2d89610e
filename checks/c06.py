"""C06: primitive intersections."""
import numpy as np

from vlib import build, gen, geo, rays
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx import g3d as cg

RULE = "non-trivial = at least one ray robustly crosses the placed shape and at least one transform is applied (first facet) or the shape is not unit-sized"


def compare(leaf, obj, o, d, ctx, what="intersect"):
    with sut(what):
        hits, ids = obj.intersect(rays.homogeneous(o, d))
        hits = np.asarray(hits, dtype=float)
        ids = np.asarray(ids)
        require(hits.shape[1] == o.shape[1] and hits.shape == ids.shape, "result shapes %s %s for %d rays", hits.shape, ids.shape, o.shape[1])
        sid = obj.get_id()
    n_hit = 0
    for i in range(o.shape[1]):
        stt, r = leaf.robust(o[:, i], d[:, i])
        if stt == "marginal":
            ctx.label("skip-marginal")
            continue
        got = hits[:, i]
        fin = got[np.isfinite(got)]
        if stt == "miss":
            ctx.label("ray-miss")
            require(fin.size == 0, "%s %s: line misses the shape but distances %s are reported", leaf.kind, leaf.p, got.tolist())
            continue
        tin, tout, ta, tb = r
        n_hit += 1
        ctx.label("ray-hit")
        if tin < 0 < tout:
            ctx.label("start-inside")
        elif tout < 0:
            ctx.label("behind")
        require(fin.size == 2 and got.size == 2, "%s %s: line crosses at %r and %r but %s is reported", leaf.kind, leaf.p, tin, tout, got.tolist())
        require(got[0] <= got[1], "distances not ascending: %s", got.tolist())
        s = 1e-8 * (1 + abs(tin) + abs(tout))
        require(abs(got[0] - tin) <= s + ta and abs(got[1] - tout) <= s + tb,
                "%s %s: reported distances %s, line crosses at %r and %r", leaf.kind, leaf.p, got.tolist(), tin, tout)
        require(np.all(ids[:, i] == sid), "reported surface %s is not the surface %d", ids[:, i].tolist(), sid)
    return n_hit


def check_placed(spec, ctx):
    s = spec["leaf"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"], unit=False)
    with sut("build and transform"):
        obj = build.Built(s).root
    n = compare(ref, obj, o, d, ctx)
    ctx.label("kind-" + s["kind"])
    if s["ops"]:
        ctx.label("transformed")
    ctx.nt(n > 0 and len(s["ops"]) > 0)


def check_batch(spec, ctx):
    """Each ray of a batch alone, in reversed order and duplicated gives the same column."""
    s = spec["leaf"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"], unit=False)
    with sut("batch intersect"):
        obj = build.Built(s).root
        full = np.asarray(obj.intersect(rays.homogeneous(o, d))[0])
        rev = np.asarray(obj.intersect(rays.homogeneous(o[:, ::-1], d[:, ::-1]))[0])
        n = o.shape[1]
        single = [np.asarray(obj.intersect(rays.homogeneous(o[:, i:i + 1], d[:, i:i + 1]))[0]) for i in range(n)]
        flat = np.asarray(obj.intersect(rays.homogeneous(o[:, :1], d[:, :1])[..., 0])[0])
        for i in range(n):
            for other, what in ((rev[:, n - 1 - i], "in a reversed batch"), (single[i][:, 0], "alone")):
                ok = np.allclose(full[:, i], other, rtol=1e-9, atol=1e-9, equal_nan=True)
                if not ok:
                    stt, r = ref.robust(o[:, i], d[:, i])
                    if stt == "marginal":
                        ctx.label("skip-marginal")
                        continue
                    ok = stt == "hit" and np.all(np.abs(full[:, i] - other) <= 1e-8 * (1 + np.abs(r[:2])) + np.array(r[2:]))
                require(ok, "ray gives %s in a batch but %s %s", full[:, i].tolist(), other.tolist(), what)
        require(np.allclose(flat.reshape(-1), single[0].reshape(-1), rtol=1e-9, atol=1e-9, equal_nan=True), "a bare 2x4 ray gives %s, the same ray as a batch of one %s", flat.tolist(), single[0].tolist())
    ctx.nt(n > 1 and bool(np.isfinite(full).any()))


def check_mass(spec, ctx):
    """Hundreds to thousands of rays at once, many of them close to the outline of the shape."""
    s = spec["leaf"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"], unit=False)
    rng = np.random.default_rng(spec["seed"])
    side = rng.normal(size=o.shape)  # and as many beside them
    size = float(np.linalg.svd(ref.m[:3, :3], compute_uv=False)[0]) * float(np.max(np.diff(np.array(geo.extents(ref.kind, ref.p)), axis=0)))
    o, d = np.hstack((o, o + size * side / np.linalg.norm(side, axis=0))), np.hstack((d, d))
    k = o.shape[1]
    state = [ref.robust(o[:, i], d[:, i])[0] for i in range(k)]

    def mix(i, j, u):
        return (1 - u) * o[:, i] + u * o[:, j], (1 - u) * d[:, i] + u * d[:, j]
    outline = []
    for i in range(k):
        for j in range(k):
            if state[i] == "hit" and state[j] == "miss" and len(outline) < 12 and np.linalg.norm(d[:, i] + d[:, j]) > 0.1:
                a, b = 0.0, 1.0
                for _ in range(30):
                    u = 0.5 * (a + b)
                    if ref.robust(*mix(i, j, u))[0] == "hit":
                        a = u
                    else:
                        b = u
                outline.append((i, j, a))
    O, D = np.repeat(o[:, :1], spec["n"], axis=1), np.repeat(d[:, :1], spec["n"], axis=1)
    for q in range(spec["n"]):
        if outline and rng.random() < 0.6:
            i, j, u = outline[rng.integers(len(outline))]
            u += rng.choice([-1, 1]) * 10.0 ** rng.uniform(-7, -1)
        else:
            i, j, u = rng.integers(k), rng.integers(k), rng.random()
        x, v = mix(i, j, u)
        if np.linalg.norm(v) > 1e-2:
            O[:, q], D[:, q] = x, v
    with sut("build and transform"):
        obj = build.Built(s).root
    n = compare(ref, obj, O, D, ctx)
    ctx.label("outline-%d" % bool(outline))
    ctx.nt(n > 0)


def strat(max_rays):
    return st.fixed_dictionaries(dict(leaf=gen.leaf(shear="mirror", max_ops=4), rays=gen.ray_specs(4, max_rays)))


def strat_bare():
    return st.fixed_dictionaries(dict(leaf=gen.leaf(max_ops=0), rays=gen.ray_specs(4, 10)))


def check_bare(spec, ctx):
    s = spec["leaf"]
    ref = geo.build_ref(s)
    o, d = rays.resolve(ref, spec["rays"], unit=False)
    with sut("build"):
        obj = build.Built(s).root
        prim = obj.primitive
    n = compare(ref, obj, o, d, ctx)
    with sut("primitive intersect"):
        a = np.sort(np.asarray(prim.intersect(rays.homogeneous(o, d))), axis=0)
        b = np.asarray(obj.intersect(rays.homogeneous(o, d))[0])
        require(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True), "shape primitive and untransformed surface disagree: %s %s", a.tolist(), b.tolist())
    ctx.nt(n > 0)


DEFAULTS = {"sphere": [None], "cyl": [1, -1, 1], "par": [1, 1], "plane": [2, 2], "box": [-1, -1, -1, 1, 1, 1]}
NAMES = {"sphere": ["radius"], "cyl": ["radius", "min_height", "max_height"], "par": ["focus", "height"], "plane": ["width", "length"], "box": ["l_corner", "r_corner"]}


def check_forms(spec, ctx):
    """Every documented way of writing a shape: by position, by name, with the stated defaults left out, a box by its sides."""
    leaf, form = spec["leaf"], spec["form"]
    k, p = leaf["kind"], list(leaf["p"])
    cls = dict(sphere=cg.Sphere, cyl=cg.Cylinder, par=cg.Paraboloid, plane=cg.XYPlane, box=cg.Cuboid)[k]
    args = [tuple(p[:3]), tuple(p[3:])] if k == "box" else p
    if form == "array" and k == "box":
        args = [np.array(a) for a in args] if spec["n"] % 2 else [cg.Point(*a) for a in args]
    dflt = [(-1, -1, -1), (1, 1, 1)] if k == "box" else DEFAULTS[k]
    omit = [i for i in range(len(args)) if spec["n"] >> i & 1 and dflt[i] is not None]
    if k == "cyl" and form in ("omit", "named") and p[1] >= 1:
        omit = [i for i in omit if i != 2]
    if k == "cyl" and form in ("omit", "named") and p[2] <= -1:
        omit = [i for i in omit if i != 1]
    if k == "box" and len(omit) == 1:  # corners of a box that is not flat
        omit = omit if all(abs(a - b) > 1e-3 for a, b in zip(args[1 - omit[0]], dflt[omit[0]])) else []
    with sut("create %s %s" % (k, form)):
        if form == "sides" and k == "box":
            e = [1 if spec["n"] >> i & 1 else abs(p[i]) + 0.1 for i in range(3)]
            obj = cg.Cuboid.from_sides(**{a: v for i, (a, v) in enumerate(zip("xyz", e)) if not spec["n"] >> i & 1}) if spec["named"] else cg.Cuboid.from_sides(*e)
            p = [-x / 2 for x in e] + [x / 2 for x in e]
        elif form == "length" and k == "box":
            e = abs(p[0]) + 0.1
            obj = cg.Cuboid.from_length(e)
            p = [-e / 2] * 3 + [e / 2] * 3
        elif form == "omit":
            last = len(args)
            while last - 1 in omit:
                last -= 1
            obj = cls(*args[:last])
            args = list(args[:last]) + list(dflt[last:])
            p = [float(x) for a in args for x in a] if k == "box" else [float(a) for a in args]
        elif form == "named":
            obj = cls(**{NAMES[k][i]: a for i, a in enumerate(args) if i not in omit})
            args = [dflt[i] if i in omit else a for i, a in enumerate(args)]
            p = [float(x) for a in args for x in a] if k == "box" else [float(a) for a in args]
        else:
            obj = cls(*args)
        for op in leaf["ops"]:
            geo.apply_op(obj, op)
    ref = geo.build_ref(dict(leaf, p=p))
    o, d = rays.resolve(ref, spec["rays"], unit=False)
    n = compare(ref, obj, o, d, ctx)
    ctx.label("form-" + form)
    ctx.nt(n > 0)


def check_slender(spec, ctx):
    """Rays nearly parallel to the long faces of a rod: each is aimed from outside a face at a point far down that face."""
    w, length, n = spec["w"], spec["length"], spec["axis"]
    kind = spec["kind"]
    if kind == "box":
        lo, hi = [-w / 2, -w * 0.4, -w * 0.3], [w / 2, w * 0.6, w * 0.7]
        lo[n], hi[n] = -length / 2, length / 2
        leaf = dict(kind="box", p=lo + hi)
        side = [(i, s) for i in range(3) if i != n for s in (0, 1)]
    elif kind in ("disc", "bowl"):  # wide and flat: the rays run nearly along the flat ends
        n = n % 2
        length = min(length, 1000)
        r = length / 2
        leaf = dict(kind="cyl", p=[r, -w / 2, w / 2]) if kind == "disc" else dict(kind="par", p=[r * r / (4 * w), w])
        lo, hi = [-r, -r, -w / 2 if kind == "disc" else 0.0], [r, r, w / 2 if kind == "disc" else w]
        side = [(2, 0), (2, 1)] if kind == "disc" else [(2, 1)]
    else:
        n = 2
        leaf = dict(kind="cyl", p=[w / 2, -length / 2, length / 2])
        lo, hi = [-w / 2] * 2 + [-length / 2], [w / 2] * 2 + [length / 2]
        side = [(i, s) for i in range(2) for s in (0, 1)]
    leaf.update(t="leaf", ops=[["move"] + spec["shift"]] if any(spec["shift"]) else [], s=None, mat=None, ap=None)
    leaf = dict(spec["shape"], kind=leaf["kind"], p=leaf["p"], ops=leaf["ops"])
    ref = geo.build_ref(leaf)
    O, D = [], []
    for f, slope, at, back in spec["rays"]:
        i, s = side[f % len(side)]
        j = 3 - i - n
        d = np.zeros(3)
        d[n] = 1.0 if back else -1.0
        d[i] = -slope if s else slope
        x = np.zeros(3)
        x[n] = at * length / 2
        x[i] = hi[i] if s else lo[i]
        x[j] = 0.25 * (lo[j] + 3 * hi[j]) if kind == "box" else 0.0
        O.append(x - d * length * spec["away"] + np.array(spec["shift"]))
        D.append(d)
    with sut("build"):
        obj = build.Built(leaf).root
    k = compare(ref, obj, np.array(O).T, np.array(D).T, ctx)
    ctx.label(kind)
    ctx.nt(k > 0)


def strat_slender():
    slope = st.one_of(st.sampled_from([1e-7, 3e-7, 1e-6, 1e-5, 1e-4, 1e-3]), st.floats(-7, -2).map(lambda e: 10.0 ** e))
    return st.fixed_dictionaries(dict(
        shape=gen.leaf(max_ops=0), kind=st.sampled_from(["box", "box", "cyl", "disc", "bowl"]), axis=st.integers(0, 2), w=gen.milli(0.3, 4), length=st.one_of(gen.milli(20, 2000), st.sampled_from([500, 5000, 20000])), away=st.sampled_from([1.5, 2.0, 1.1, 0.7]),
        shift=st.one_of(st.just([0, 0, 0]), st.lists(gen.milli(-3, 3), min_size=3, max_size=3)),
        rays=st.lists(st.tuples(st.integers(0, 3), slope, gen.milli(-0.9, 0.9), st.booleans()).map(list), min_size=1, max_size=6)))


FACETS = [
    Facet("slender", strat_slender, check_slender, quick=500, thorough=12000, rule="long rods and wide flat discs and bowls met from outside by rays 1e-7 to 1e-2 rad off their long faces", units=None, shards=2),
    Facet("forms", lambda: st.fixed_dictionaries(dict(leaf=gen.leaf(max_ops=1), form=st.sampled_from(["omit", "named", "named", "sides", "length", "array"]), n=st.integers(0, 7), named=st.booleans(), rays=gen.ray_specs(4, 8))), check_forms,
          quick=500, thorough=12000, rule="constructor forms: omitted defaults, named arguments, boxes by sides or length", units=None, shards=2),
    Facet("placed", lambda: strat(10), check_placed, quick=2400, thorough=60000, rule="random shape, up to 4 transforms incl. shear, 4-10 rays aimed at it", units=(), shards=4),
    Facet("crowd", lambda: st.fixed_dictionaries(dict(leaf=gen.leaf(shear=True, max_ops=2), rays=gen.crowd_specs())), check_placed, quick=120, thorough=3000, rule="batches of 60 to 160 rays", units=(), shards=2),
    Facet("mass", lambda: st.fixed_dictionaries(dict(leaf=gen.leaf(shear="mirror", max_ops=2), rays=gen.ray_specs(4, 8, many=0), n=st.one_of(st.integers(60, 500), st.integers(500, 2500)), seed=st.integers(0, 10 ** 6))), check_mass,
          quick=64, thorough=1600, shards=4, rule="60 to 2500 rays at once, most of them close to the outline of the shape", units=()),
    Facet("bare", strat_bare, check_bare, quick=1200, thorough=30000, rule="untransformed shapes", units=(), shards=2),
    Facet("batch", lambda: strat(8), check_batch, quick=700, thorough=16000, rule="the same rays alone, reversed and batched", units=(), shards=2),
]
