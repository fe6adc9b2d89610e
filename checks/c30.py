"""C30: ray sets against a dictionary-of-arrays model."""
import numpy as np

from vlib import gen
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt

RULE = "non-trivial = at least three actions including a write followed by a copy, slice or concatenation"
META = ["generation", "intensity", "wavelength", "index", "id"]


def fresh(n):
    z = np.zeros((4, n))
    p, v = z.copy(), z.copy()
    p[3] = 1.0
    return dict(p=p, v=v, generation=np.zeros(n), intensity=np.full(n, 100.0), wavelength=np.full(n, 0.633), index=np.ones(n), id=np.arange(n, dtype=float))


def snap(m):
    return {k: x.copy() for k, x in m.items()}


def equal(rs, m, what):
    n = m["id"].shape[0]
    require(isinstance(rs, pyrayt.RaySet), "%s: is a %s, not a ray set", what, type(rs).__name__)
    require(rs.n_rays == n, "%s: n_rays is %s for %d rays", what, rs.n_rays, n)
    r = np.asarray(rs.rays)
    require(r.shape == (2, 4, n), "%s: rays have shape %s for %d rays", what, r.shape, n)
    require(np.array_equal(r[0], m["p"]), "%s: positions %s, expected %s", what, r[0].tolist(), m["p"].tolist())
    require(np.array_equal(r[1], m["v"]), "%s: directions %s, expected %s", what, r[1].tolist(), m["v"].tolist())
    md = np.asarray(rs.metadata)
    require(md.shape == (5, n), "%s: metadata has shape %s", what, md.shape)
    for i, f in enumerate(META):
        x = np.asarray(getattr(rs, f))
        require(x.shape == (n,), "%s: %s has shape %s", what, f, x.shape)
        require(np.array_equal(x, m[f]), "%s: %s is %s, expected %s", what, f, x.tolist(), m[f].tolist())
    for f in pyrayt.RaySet.fields:
        row = md[list(pyrayt.RaySet.fields).index(f)]
        require(np.array_equal(row, m[f]), "%s: metadata row of %s is %s, expected %s", what, f, row.tolist(), m[f].tolist())


def index_of(sel, n):
    k = sel[0]
    if k == "slice":
        return slice(sel[1] % (n + 1), None if sel[2] is None else sel[2] % (n + 1), sel[3])
    if k == "mask":
        return np.array([bool(sel[1] >> (i % 10) & 1) for i in range(n)], dtype=bool)
    return np.array([i % n for i in sel[1]], dtype=int) if n else np.zeros(0, dtype=int)


def write(rs, m, act):
    n = m["id"].shape[0]
    field, how, vals = act[1], act[2], act[3]
    if field in META:
        v = np.resize(np.array(vals, dtype=float), n)
        if how == "scalar":
            setattr(rs, field, float(vals[0]))
            m[field][:] = float(vals[0])
        elif how in ("array", "fortran"):
            setattr(rs, field, v)
            m[field][:] = v
        elif how == "strided":
            big = np.zeros(3 * n)
            big[::3] = v
            setattr(rs, field, big[::3])
            m[field][:] = v
        elif how == "ints":
            v = np.round(np.clip(v, -1e15, 1e15))
            setattr(rs, field, v.astype(int) if len(vals) % 2 else v.astype(int).tolist())
            m[field][:] = v
        elif how == "inplace":
            getattr(rs, field)[...] = v
            m[field][:] = v
        elif how == "augment":
            x = getattr(rs, field)
            x += float(vals[0])
            m[field] += float(vals[0])
        elif n:
            i = int(vals[0] * 1000) % n
            getattr(rs, field)[i] = float(vals[-1])
            m[field][i] = float(vals[-1])
        return
    if field == "metadata":
        v = np.resize(np.array(vals, dtype=float), 5 * n).reshape(5, n)
        if how in ("array", "scalar"):
            rs.metadata = v
        elif how == "fortran":
            rs.metadata = np.asfortranarray(v)
        else:
            rs.metadata[...] = v
        for i, f in enumerate(pyrayt.RaySet.fields):
            m[f][:] = v[i]
        return
    v = np.resize(np.array(vals, dtype=float), 8 * n).reshape(2, 4, n)
    if field == "rays":
        if how in ("array", "scalar"):
            rs.rays = v
        elif how == "fortran":
            rs.rays = np.asfortranarray(v)
        elif how == "strided":  # a view into a larger block, its axes in another order
            big = np.zeros((n, 2, 8))
            big[:, :, ::2] = v.transpose(2, 0, 1)
            rs.rays = big[:, :, ::2].transpose(1, 2, 0)
        elif how == "ints":
            v = np.round(np.clip(v, -1e15, 1e15))
            rs.rays = v.astype(int)
        elif how == "inplace":
            rs.rays[...] = v
        elif how == "augment":
            v = v + np.stack((m["p"], m["v"]))
            rs.rays[:] = v
        else:
            rs.rays[0] = v[0]
            rs.rays[1] = v[1]
        m["p"][:], m["v"][:] = v[0], v[1]
    else:
        k = 0 if field == "p" else 1
        if how == "scalar":
            rs.rays[k, :3] = float(vals[0])
            m[field][:3] = float(vals[0])
        elif how == "augment":
            rs.rays[k] += v[0]
            m[field] += v[0]
        elif how == "one" and n:
            i = int(vals[0] * 1000) % n
            rs.rays[k, :3, i] = vals[-1]
            m[field][:3, i] = vals[-1]
        else:
            rs.rays[k] = v[0]
            m[field][:] = v[0]


def check(spec, ctx):
    sets = []
    wrote = moved = False
    with sut("ray set"):
        for n in spec["n"]:
            rs = pyrayt.RaySet(n)
            m = fresh(n)
            equal(rs, m, "new ray set of %d" % n)
            sets.append((rs, m))
        for step, act in enumerate(spec["acts"]):
            j = act[-1] % len(sets)
            rs, m = sets[j]
            what = "step %d %s on set %d" % (step, act, j)
            if act[0] == "write":
                write(rs, m, act)
                wrote = True
            elif act[0] == "copy":
                c = rs.copy()
                sets.append((c, snap(m)))
                moved |= wrote
            elif act[0] == "select":
                idx = index_of(act[1], m["id"].shape[0])
                c = (rs[..., idx] if act[2] else rs[:, idx]).copy()
                sets.append((c, {k: x[..., idx].copy() for k, x in m.items()}))
                moved |= wrote
            elif act[0] == "subwrite":  # a column slice is itself a live view of the set
                idx = index_of(act[1], m["id"].shape[0])
                sub, sm = rs[..., idx], {k: x[..., idx] for k, x in m.items()}
                equal(sub, sm, what + ": the slice")
                write(sub, sm, act[2])
                moved |= wrote
            elif act[0] == "assign":
                idx = index_of(act[1], m["id"].shape[0])
                other, om = sets[act[2] % len(sets)]
                k = m["id"][idx].shape[0]
                if om["id"].shape[0] < k or k == 0:
                    continue
                src = snap(om)
                rs[..., idx] = other[..., :k].copy()
                for f in m:
                    m[f][..., idx] = src[f][..., :k]
                moved |= wrote
            else:
                other, om = sets[act[1] % len(sets)]
                c = np.hstack([rs, other]).view(pyrayt.RaySet)
                sets.append((c, {k: np.concatenate((m[k], om[k]), axis=-1) for k in m}))
                moved |= wrote
            sets = sets[-5:] if len(sets) > 5 else sets
            for i, (r, mm) in enumerate(sets):
                equal(r, mm, "after %s: set %d" % (what, i))
            ctx.label(act[0])
    ctx.nt(len(spec["acts"]) > 2 and moved)


def check_live(spec, ctx):
    """Views obtained once stay live: writing through one is seen by all others."""
    n = spec["n"]
    with sut("views"):
        rs = pyrayt.RaySet(n)
        views = {f: getattr(rs, f) for f in META + ["metadata", "rays"]}
        m = fresh(n)
        for act in spec["acts"]:
            f = act[1]
            if act[0] == "view":
                v = np.resize(np.array(act[3], dtype=float), views[f].size).reshape(views[f].shape)
                views[f][...] = v
                if f == "metadata":
                    for i, g in enumerate(pyrayt.RaySet.fields):
                        m[g] = v[i].copy()
                elif f == "rays":
                    m["p"], m["v"] = v[0].copy(), v[1].copy()
                else:
                    m[f] = v.copy()
            else:
                write(rs, m, act)
            equal(rs, m, "after %s" % (act,))
            for g in META:
                require(np.array_equal(np.asarray(views[g]), m[g]), "after %s: an earlier view of %s shows %s, expected %s", act, g, np.asarray(views[g]).tolist(), m[g].tolist())
            require(np.array_equal(np.asarray(views["rays"]), np.stack((m["p"], m["v"]))), "after %s: an earlier view of the rays is stale", act)
    ctx.nt(len(spec["acts"]) > 1 and n > 1)


VALS = st.lists(st.one_of(gen.milli(-50, 50), gen.milli(-50, 50), st.integers(-10**12, 10**12).map(lambda k: k / 7.0),
                          st.sampled_from([0.0, 1e-13, -1e-9, 3e-16, 1e-300, -5e-324, 1e150, -1e17, 1e-6]), st.floats(-1e150, 1e150)), min_size=1, max_size=6)
WHERE = st.sampled_from(META + ["metadata", "rays", "p", "v"])
WRITE = st.tuples(st.just("write"), WHERE, st.sampled_from(["scalar", "array", "inplace", "augment", "one", "fortran", "strided", "ints"]), VALS, st.integers(0, 9)).map(list)
SEL = st.one_of(
    st.tuples(st.just("slice"), st.integers(0, 9), st.one_of(st.none(), st.integers(0, 9)), st.sampled_from([1, 1, 2, 3])).map(list),
    st.tuples(st.just("mask"), st.integers(0, 1023)).map(list),
    st.tuples(st.just("fancy"), st.lists(st.integers(0, 20), max_size=6)).map(list))
ACT = st.one_of(
    WRITE, WRITE, st.tuples(st.just("copy"), st.integers(0, 9)).map(list),
    st.tuples(st.just("select"), SEL, st.booleans(), st.integers(0, 9)).map(list),
    st.tuples(st.just("assign"), SEL, st.integers(0, 9), st.integers(0, 9)).map(list),
    st.tuples(st.just("subwrite"), st.tuples(st.just("slice"), st.integers(0, 9), st.one_of(st.none(), st.integers(0, 9)), st.sampled_from([1, 1, 2])).map(list), WRITE, st.integers(0, 9)).map(list),
    st.tuples(st.just("hstack"), st.integers(0, 9), st.integers(0, 9)).map(list))
VIEW = st.tuples(st.just("view"), st.sampled_from(META + ["metadata", "rays"]), st.just("array"), VALS, st.integers(0, 9)).map(list)


def check_large(spec, ctx):
    """Sets of up to a few hundred thousand rays: the documented defaults, one write, a selection and a concatenation."""
    n = spec["n"]
    with sut("large ray set"):
        a = pyrayt.RaySet(n)
        require(a.n_rays == n, "n_rays is %s for %d rays", a.n_rays, n)
        ids = np.asarray(a.id)
        bad = np.nonzero(ids != np.arange(n))[0]
        require(ids.shape == (n,) and len(bad) == 0, "%d rays: ray %d has id %s", n, bad[0] if len(bad) else -1, ids[bad[0]] if len(bad) else ids.shape)
        for f, v in (("generation", 0), ("index", 1), ("intensity", 100), ("wavelength", 0.633)):
            x = np.asarray(getattr(a, f))
            require(x.shape == (n,) and np.all(np.abs(x - v) <= 1e-12), "%d rays: %s is not %s for all of them", n, f, v)
        r = np.asarray(a.rays)
        require(r.shape == (2, 4, n) and np.all(r[0, 3] == 1) and np.all(r[1, 3] == 0), "%d rays: homogeneous coordinates", n)
        f, k = META[spec["field"] % len(META)], spec["at"] % n
        before = np.array(a)
        vals = (np.arange(n) * 0.5 + 3) % 1009
        setattr(a, f, vals)
        want = before.copy()
        want[8 + META.index(f)] = vals
        require(np.array_equal(np.asarray(a), want), "%d rays: writing %s changes something else or is lost", n, f)
        m = (np.arange(n) % 7) != k % 7
        both = np.hstack((a[..., m], a[..., ~m])).view(pyrayt.RaySet)
        require(np.array_equal(np.asarray(both), np.hstack((want[:, m], want[:, ~m]))), "%d rays: selecting and concatenating loses fields", n)
        c = a.copy()
        c.rays[0, 1, k] += 1
        require(np.array_equal(np.asarray(a), want) and np.asarray(c.rays)[0, 1, k] == want[1, k] + 1, "%d rays: a copy is not independent", n)
    ctx.nt(n > 1000)


FACETS = [
    Facet("history", lambda: st.fixed_dictionaries(dict(n=st.lists(st.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 7), st.sampled_from([8, 16, 50, 127, 200, 300])), min_size=1, max_size=3), acts=st.lists(ACT, min_size=1, max_size=10))), check, quick=2500, thorough=60000, shards=8,
          rule="writes, copies, selections, assignments and concatenations over several ray sets; all sets compared after every step"),
    Facet("views", lambda: st.fixed_dictionaries(dict(n=st.integers(1, 6), acts=st.lists(st.one_of(WRITE, VIEW), min_size=1, max_size=6))), check_live, quick=1000, thorough=20000, shards=2, rule="views taken once stay live"),
    Facet("large", lambda: st.fixed_dictionaries(dict(n=st.one_of(st.integers(1000, 40000), st.integers(40000, 200000), st.sampled_from([32768, 32769, 65536, 65537, 70000])), field=st.integers(0, 9), at=st.integers(0, 10**6))), check_large, quick=60, thorough=400, shards=1,
          rule="ray sets of 1000 to 200000 rays"),
]
