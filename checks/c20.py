"""C20: glass dispersion."""
import math

import numpy as np

from vlib import build, gen, geo, sim
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc
import pyrayt.materials as matl

RULE = "non-trivial = a dispersive glass with at least two different wavelengths (abbe: at least one coefficient change after the first query)"


def make(g):
    if g[0] == "glass":
        return matl.glass[g[1]]
    if g[0] == "n":
        return matl.BasicRefractor(g[1])
    return matl.SellmeierRefractor(*g[1:7])


def ok_wl(g, wl):
    if g[0] != "sell":
        return True
    w2 = wl * wl
    if any(abs(w2 - c) < 0.02 for c in g[4:7]):
        return False
    return 1 + sum(g[1 + i] * w2 / (w2 - g[4 + i]) for i in range(3)) > 0.05


def shaped(vals, shape):
    k = {"0d": 0, "1d": len(vals), "col": len(vals), "2d": 2 * (len(vals) // 2), "3d": 4 * (len(vals) // 4), "empty": 0}[shape]
    a = np.array(vals[:k] if shape != "0d" else vals[0])
    return {"0d": lambda: a, "1d": lambda: a, "col": lambda: a.reshape(-1, 1), "2d": lambda: a.reshape(2, -1), "3d": lambda: a.reshape(2, 2, -1), "empty": lambda: a}[shape]()


def check_index(spec, ctx):
    g = spec["glass"]
    wls = [w for w in spec["wl"] if ok_wl(g, w)]
    if not wls:
        return
    with sut("index_at"):
        m = make(g)
        for w in wls:
            v = m.index_at(w)
            require(np.ndim(v) == 0, "index at a single wavelength has shape %s", np.shape(v))
            e = sim.index_of(g, w)
            require(abs(float(v) - e) <= 1e-9 * e, "%s: index at %g um is %r, expected %r", g, w, float(v), e)
        a = shaped(wls, spec["shape"])
        before = a.copy()
        v = np.asarray(m.index_at(a))
        require(v.shape == a.shape, "%s: indices for wavelengths of shape %s have shape %s", g, a.shape, v.shape)
        require(np.array_equal(a, before), "the wavelength array is modified")
        for w, x in zip(a.reshape(-1).tolist(), v.reshape(-1).tolist()):
            e = sim.index_of(g, w)
            require(abs(x - e) <= 1e-9 * e, "%s: index at %g um in an array is %r, expected %r", g, w, x, e)
        # wavelengths that happen to be whole numbers, given as integers
        whole = [w for w in (1, 2, 3) if ok_wl(g, float(w))]
        for w in whole:
            v = m.index_at(w)
            e = sim.index_of(g, float(w))
            require(np.ndim(v) == 0 and abs(float(v) - e) <= 1e-9 * e, "%s: index at the whole number %d um is %r, expected %r", g, w, v, e)
        for dt in (np.int64, np.int32):
            v = np.asarray(m.index_at(np.array(whole, dtype=dt)))
            require(v.shape == (len(whole),), "%s: indices for %d wavelengths have shape %s", g, len(whole), v.shape)
            for w, x in zip(whole, v.tolist()):
                e = sim.index_of(g, float(w))
                require(abs(x - e) <= 1e-9 * e, "%s: index at %d um in an array of whole numbers is %r, expected %r", g, w, x, e)
        # many wavelengths at once
        if spec.get("many"):
            a = np.linspace(min(wls), min(wls) + 0.2, spec["many"])
            a = a[[ok_wl(g, w) for w in a.tolist()]]
            v = np.asarray(m.index_at(a))
            require(v.shape == a.shape, "%s: indices for %d wavelengths have shape %s", g, len(a), v.shape)
            e = np.array([sim.index_of(g, w) for w in a.tolist()])
            require(len(a) == 0 or np.abs(v / e - 1).max() <= 1e-9, "%s: indices of %d wavelengths are %s, expected %s", g, len(a), v.tolist(), e.tolist())
    ctx.label("shape-" + spec["shape"])
    ctx.nt(g[0] != "n" and len(set(wls)) > 1)


def abbe_ref(g):
    return (sim.index_of(g, 0.5893) - 1) / (sim.index_of(g, 0.4861) - sim.index_of(g, 0.6563))


def check_abbe(spec, ctx):
    gs = [list(g) for g in spec["glasses"]]
    with sut("create glass"):
        ms = [make(g) for g in gs]
    changed = set()
    queried = set()
    for act in spec["acts"]:
        j = act[1] % len(gs)
        g, m = gs[j], ms[j]
        if act[0] == "set":
            if g[0] != "sell":
                continue
            new = list(g)
            new[1 + act[2]] = act[3]
            if not all(ok_wl(new, w) for w in (0.4861, 0.5893, 0.6563)):
                continue
            with sut("change coefficient"):
                setattr(m, ["b1", "b2", "b3", "c1", "c2", "c3"][act[2]], act[3])
            gs[j] = new
            if j in queried:
                changed.add(j)
            continue
        if not all(ok_wl(g, w) for w in (0.4861, 0.5893, 0.6563)):
            continue
        dn = sim.index_of(g, 0.4861) - sim.index_of(g, 0.6563)
        if abs(dn) < 1e-6:
            continue
        with sut("abbe"):
            v = float(m.abbe())
            for w in (0.4861, 0.5893, 0.6563, 0.7):
                if ok_wl(g, w):
                    require(abs(float(m.index_at(w)) - sim.index_of(g, w)) <= 1e-9 * sim.index_of(g, w), "index after a coefficient change is wrong")
        e = abbe_ref(g)
        require(abs(v - e) <= 1e-6 * abs(e) + 1e-9 / abs(dn), "%s: Abbe number %r, expected %r", g, v, e)
        queried.add(j)
        if j in changed:
            ctx.nt(True)
    ctx.label("glasses-%d" % len(gs))


def check_trace(spec, ctx):
    """Every ray of a mixed batch goes as if it were alone, with the index of its own wavelength."""
    g = spec["glass"]
    wls = [w for w in spec["wl"] if ok_wl(g, w) and sim.index_of(g, w) > 1.05]
    if len(wls) < 2:
        return
    mat = make(g)
    n = len(wls)
    O = np.array([[-3.0, 0.2 * (i - n / 2) / n, 0.1 * i / n] for i in range(n)]).T
    D = np.array([[1.0, spec["dir"][0], spec["dir"][1]]] * n).T
    D = D / np.linalg.norm(D, axis=0)

    def system():
        with sut("create"):
            obj = {"ball": lambda: build.cg.Sphere(1.0, material=mat), "lens": lambda: pc.biconvex_lens(3, 3, 0.5, aperture=2, material=mat),
                   "prism": lambda: pc.equilateral_prism(3, 3, material=mat)}[spec["body"]]()
            return [obj, sim.sky(100.0)]
    t, res = sim.trace([sim.FixedSource(O, D, np.array(wls))], system(), limit=6)
    with sut("results"):
        for k, w in enumerate(wls):
            rows = res.of(k)
            t1, one = sim.trace([sim.FixedSource(O[:, k], D[:, k], w)], system(), limit=6)
            r1 = one.of(0)
            require(len(rows) == len(r1), "ray at %g um has %d rows in a mixed batch and %d alone", w, len(rows), len(r1))
            require(np.abs(res.end[:, rows] - one.end[:, r1]).max() <= 1e-7 and np.abs(res.index[rows] - one.index[r1]).max() <= 1e-9, "ray at %g um takes another path or index in a mixed batch", w)
            require(np.all(res.wavelength[rows] == w), "wavelength changes along the path")
            if len(rows) > 1:
                require(abs(res.index[rows[1]] - sim.index_of(g, w)) <= 1e-9, "ray at %g um is refracted with index %r, the glass has %r", w, res.index[rows[1]], sim.index_of(g, w))
                ctx.label("refracted")
                ctx.nt(g[0] != "n" and len(set(wls)) > 1)


WL = st.one_of(gen.milli(0.35, 2.3), gen.wavelength(0.35, 2.3), st.sampled_from([0.4861, 0.5893, 0.6563, 0.633, 0.5876, 1.0]))
B = st.one_of(gen.milli(0, 2), st.sampled_from([0.0, 1.0]))
COEF = st.tuples(B, B, B, gen.milli(0, 0.05), gen.milli(0, 0.08), gen.milli(10, 200)).map(lambda t: ["sell"] + list(t))
CAT = st.sampled_from([["glass", "BK7"], ["glass", "SF5"], ["glass", "SF2"], ["glass", "ideal"]])
GLASS = st.one_of(COEF, COEF, CAT, gen.milli(1, 4).map(lambda n: ["n", n]))

FACETS = [
    Facet("index", lambda: st.fixed_dictionaries(dict(glass=GLASS, wl=st.lists(WL, min_size=1, max_size=12), shape=st.sampled_from(["0d", "1d", "1d", "col", "2d", "3d", "empty"]), many=gen.weighted((30, st.just(0)), (9, st.integers(13, 400)), (1, st.integers(900, 4000))))),
          check_index, quick=2000, thorough=60000, shards=3, rule="random coefficients and catalogued glasses at random wavelengths and array shapes"),
    Facet("abbe", lambda: st.fixed_dictionaries(dict(
        glasses=st.lists(st.one_of(COEF, COEF, CAT), min_size=1, max_size=3),
        acts=st.lists(st.one_of(st.tuples(st.just("get"), st.integers(0, 2)), st.tuples(st.just("set"), st.integers(0, 2), st.integers(0, 5), st.one_of(gen.milli(0, 2), gen.milli(0, 0.06)))).map(list), min_size=2, max_size=8))),
        check_abbe, quick=1200, thorough=40000, shards=3, rule="queries interleaved with coefficient changes on 1-3 glasses"),
    Facet("trace", lambda: st.fixed_dictionaries(dict(
        glass=st.one_of(COEF, CAT), wl=st.lists(WL, min_size=2, max_size=5), dir=st.tuples(gen.milli(-0.1, 0.1), gen.milli(-0.1, 0.1)).map(list), body=st.sampled_from(["ball", "lens", "prism"]))),
        check_trace, quick=150, thorough=4000, shards=6, rule="mixed-wavelength batches against single-ray traces"),
]
