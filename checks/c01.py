"""C01: every ray stops at the nearest surface ahead of it."""
import numpy as np

from vlib import build, gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

RULE = "non-trivial = at least three decided segments and at least two components or a compound one"
ASSUMPTIONS = ["segments that graze an edge, start within 2e-5 of another surface or meet two components within about 4e-6 are skipped and counted"]


def check_rows(sys_, res, ctx):
    """Every recorded segment; returns the number of decided ones."""
    n = 0
    last = {}
    order = np.argsort(res.generation, kind="stable")
    for r in order:
        rid = res.id[r]
        o, d, end, sid = res.start[:, r], res.tilt[:, r], res.end[:, r], int(res.surface[r])
        ref = sys_.nearest(o, d, last.get(rid))
        last[rid] = None
        if ref is None:
            ctx.label("skip-ambiguous")
            hit = sys_.leaf_hit(o, d, end, sid)
            last[rid] = hit[1] if hit else None
            continue
        n += 1
        what = "ray %d generation %d from %s along %s" % (rid, res.generation[r], o.tolist(), d.tolist())
        require(ref != "none", "%s: a row ending at %s is recorded but no surface is ahead", what, end.tolist())
        t, tol, c, leaf, ent = ref
        x = o + t * d
        require(np.abs(end - x).max() <= tol + 1e-7 * (1 + t), "%s: row ends at %s, the nearest surface ahead is met at %s", what, end.tolist(), x.tolist())
        ok = c.by_id.get(sid) is leaf if c.by_id else sid in c.ids
        require(ok, "%s: row names surface %s, the nearest surface ahead at %s is another one (%s)", what, sid, x.tolist(), leaf.kind)
        last[rid] = leaf
        ctx.label("segment-" + ("first" if res.generation[r] == 0 else "later"))
    return n


def check_missing(sys_, res, ctx, limit):
    """Rays whose history stops although a surface is clearly ahead (glass, mirrors only; far from the limit)."""
    emitted, k = [], 0
    for s, src in zip(sys_.spec["sources"], sys_.sources):
        o, d = sys_.aimed(s)
        for i in range(o.shape[1]):
            emitted.append((o[:, i], d[:, i]))
    for rid, (o, d) in enumerate(emitted):
        rows = res.of(rid)
        if len(rows) == 0:
            ref = sys_.nearest(o, d)
            if ref is None:
                continue
            ctx.label("escaped-first")
            require(ref == "none", "ray %d from %s along %s has no row although a surface is ahead at distance %s", rid, o.tolist(), d.tolist(), ref[0] if ref else None)
            continue
        r = rows[-1]
        if len(rows) > limit - 2:
            continue
        a, b, end = res.start[:, r], res.tilt[:, r], res.end[:, r]
        hit = sys_.leaf_hit(a, b, end, int(res.surface[r]))
        if hit is None or hit[1].mat == "absorber":
            continue
        nd = sys_.after_hit(hit[1], hit[2], end, b, float(res.index[r]), float(res.wavelength[r]), float(res.intensity[r]))[0]
        if nd is None or isinstance(nd, str):
            continue
        ref = sys_.nearest(end + 1e-6 * nd, nd, hit[1])
        if ref is None:
            continue
        ctx.label("escaped-later")
        require(ref == "none", "ray %d has no row after %s although a surface is ahead along %s at distance %s", rid, end.tolist(), nd.tolist(), ref[0] if ref else None)


def check(spec, ctx):
    s = system.System(spec)
    t, res = s.trace()
    with sut("results"):
        n = check_rows(s, res, ctx)
        check_missing(s, res, ctx, spec["limit"])
    ctx.nt(n >= 3 and (len(s.comps) > 1 or len(s.comps[0].ref.leaves()) > 1))


def check_late(spec, ctx):
    build.raise_ids()
    check(spec, ctx)


@st.composite
def comb_scene(draw):
    def mat(s, m):
        s = dict(s)
        if s["k"] == "leaf":
            s["mat"] = m
        else:
            s["l"], s["r"] = mat(s["l"], m), mat(s["r"], m)
        return s
    comps = []
    for _ in range(draw(st.integers(1, 2))):
        t = mat(draw(gen.comb(5, 14)), draw(system.PLAIN))
        if not t["later"]:
            del t["later"]
        comps.append(dict(tree=t))
    if draw(st.integers(0, 2)) == 0:
        comps.insert(draw(st.integers(0, len(comps))), draw(system.room()))
    return dict(comps=comps, sources=[draw(system.fixed_source(4, 9))], n=1, limit=draw(st.integers(4, 16)))


def through_plates(plates, o, d, wl):
    """Reference path through parallel plates: (point, plate, index before, direction before) per surface met, up to 40."""
    faces, z = [], 0.0
    for i, (thick, gap, mat) in enumerate(plates):
        faces += [(z, i), (z + thick, i)]
        z += thick + gap
    lat, up, n, x, k, out = np.array(d[:2]), 1.0, 1.0, np.array(o, dtype=float), 0, []
    while 0 <= k < len(faces) and len(out) < 40:  # lat is n * sin(angle), which no parallel face changes
        s = lat / n
        c = np.sqrt(1 - s @ s)
        x = np.append(x[:2] + s * abs(faces[k][0] - x[2]) / c, faces[k][0])
        out.append((x, faces[k][1], n, np.append(s, up * c)))
        mat = plates[faces[k][1]][2]
        if mat == "absorber":
            break
        if mat == "mirror":
            up = -up
            k += int(up)
            continue
        n = sim.index_of(mat, wl) if (k % 2 == 0) == (up > 0) else 1.0
        k += int(up)
    return out


def check_plates(spec, ctx):
    """Plates one behind the other with hairline gaps or hardly any thickness."""
    z, objs = 0.0, []
    with sut("build plates"):
        for thick, gap, mat in spec["plates"]:
            objs.append(build.Built(dict(k="leaf", kind="box", p=[-40, -40, z, 40, 40, z + thick], mat=mat, ops=[])).root)
            z += thick + gap
        ids = {o.get_id(): i for i, o in enumerate(objs)}
        back = spec.get("back", 0.0)  # the rays start this much earlier
        o = np.array([[x - back * a, y - back * b, -1.0 - back] for x, y, a, b in spec["rays"]]).T
        d = np.array([[a, b, 1.0] for _, _, a, b in spec["rays"]]).T
        d = d / np.linalg.norm(d, axis=0)
        src = sim.FixedSource(o, d, np.full(o.shape[1], 0.55), None)
        for obj in objs + [src]:
            for op in spec["rigid"]:
                geo.apply_op(obj, op)
    m = geo.ops_matrix(spec["rigid"])
    order = sorted(range(len(objs)), key=lambda i: spec["perm"][i % len(spec["perm"])] * 10 + i)
    t, res = sim.trace([src], [objs[i] for i in order], spec["limit"], 1)
    deep = 0
    with sut("results"):
        for i in range(o.shape[1]):
            rows, want = res.of(i), through_plates(spec["plates"], o[:, i], d[:, i], 0.55)
            require(len(rows) == len(want) if len(want) < spec["limit"] else len(rows) >= spec["limit"] - 1, "ray %d has %d rows, it meets %d surfaces (limit %d)", i, len(rows), len(want), spec["limit"])
            for g, (r, (x, plate, n, v)) in enumerate(zip(rows, want)):
                e = m[:3, :3] @ x + m[:3, 3]
                what = "ray %d generation %d among parallel plates" % (i, g)
                require(np.abs(res.end[:, r] - e).max() <= 1e-7 + 1e-11 * back, "%s ends at %s, the next surface is met at %s", what, res.end[:, r].tolist(), e.tolist())
                require(ids.get(int(res.surface[r])) == plate, "%s names surface %s, it meets plate %d", what, res.surface[r], plate)
                require(np.abs(res.tilt[:, r] - m[:3, :3] @ v).max() <= 1e-7 and abs(res.index[r] - n) <= 1e-9, "%s runs along %s in index %s, expected %s and %s", what, res.tilt[:, r].tolist(), res.index[r], (m[:3, :3] @ v).tolist(), n)
                ctx.label("segment-plates")
            deep += len(rows) > 2
    ctx.nt(deep > 0)


def strat_plates():
    from checks.c21 import strat_stack
    stack = strat_stack(st.one_of(system.GLASS, system.GLASS, system.GLASS, st.sampled_from(["mirror", "absorber"])))
    return st.tuples(stack, st.sampled_from([0.0, 0.0, 0.0, 30.0, 1000.0, 10000.0])).map(lambda t: dict(t[0], back=t[1]))


FACETS = [
    Facet("plates", strat_plates, check_plates, quick=400, thorough=10000, shards=4, rule="parallel plates with gaps and thicknesses down to 3e-5, anywhere, the rays from up to 10000 units away", units=()),
    Facet("comb", comb_scene, check, quick=300, thorough=8000, shards=4, rule="rows of 5-14 leaves in one compound component, many crossings per ray", units=()),
    Facet("systems", lambda: system.scene(ncomp=(1, 4), limit=st.integers(3, 8), source=system.fixed_source(inten="bright")), check, quick=1000, thorough=24000, shards=8, rule="1-4 components (and often an enclosing shell), rays from anywhere", units=()),
    Facet("deep", lambda: system.scene(ncomp=(1, 2), depth=3, lens=False, limit=st.integers(3, 8)), check, quick=300, thorough=8000, shards=4, rule="deeply nested compound components", units=()),
    Facet("crowd", lambda: system.scene(ncomp=(5, 9), depth=1, limit=st.integers(3, 6)), check_late, quick=300, thorough=8000, shards=4, rule="many components with high object numbers", units=()),
]
