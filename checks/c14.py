"""C14: lamps."""
import math

import numpy as np

from vlib import build, gen, geo
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc

RULE = "non-trivial = at least two rays from a lamp with positive size (statistics: every case; static: a repeated request for the same number of rays after something else happened)"
ASSUMPTIONS = ["distribution statistics use thresholds whose chance of failing on a correct sampler is below 1e-8 per statistic"]


def make(s):
    cls = pc.StaticLamp if s.get("static") else pc.Lamp
    kw = {}
    if s["wl"] is not None:
        kw["wavelength"] = s["wl"]
    if s["a"] is not None:
        kw["max_angle"] = s["a"]
    return cls(s["w"], s["l"], **kw)


def local(R, m):
    mi = np.linalg.inv(m)
    o = (mi @ R[0])[:3]
    d = (mi @ R[1])[:3]
    return o, d / np.linalg.norm(d, axis=0)


def check_bounds(s, rs, n, m, wl, what):
    with sut(what):
        require(rs.n_rays == n, "%s: %s rays instead of %d", what, rs.n_rays, n)
        R = np.array(rs.rays, dtype=float)
        inten, w, idx, g, ids = [np.array(x, dtype=float) for x in (rs.intensity, rs.wavelength, rs.index, rs.generation, rs.id)]
    if n == 0:
        return
    require(np.all(w == wl), "%s: wavelengths %s, expected %s", what, w[:5].tolist(), wl)
    require(np.all(idx == 1) and np.all(g == 0) and len(set(ids.tolist())) == n, "%s: index, generation or ids wrong", what)
    require(np.abs(R[0, 3] - 1).max() < 1e-12 and np.all(R[1, 3] == 0), "%s: homogeneous coordinates wrong", what)
    require(np.abs(np.linalg.norm(R[1, :3], axis=0) - 1).max() < 1e-9, "%s: directions are not unit vectors", what)
    o, d = local(R, m)
    e = 1e-7
    require(np.abs(o[0]).max() <= e and np.abs(o[1]).max() <= s["w"] / 2 + e and np.abs(o[2]).max() <= s["l"] / 2 + e,
            "%s: starts outside the %s (y) by %s (z) rectangle: max |x| %s |y| %s |z| %s", what, s["w"], s["l"], np.abs(o[0]).max(), np.abs(o[1]).max(), np.abs(o[2]).max())
    amax = math.radians(90 if s["a"] is None else s["a"])
    th = np.arctan2(np.hypot(d[1], d[2]), d[0])
    require(th.max() <= amax + 1e-6, "%s: ray at %s degrees from the axis, limit %s", what, math.degrees(th.max()), s["a"])
    require(np.abs(inten - 100 * np.cos(th)).max() <= 1e-4, "%s: intensity %s for a ray at %s degrees", what, inten[np.argmax(np.abs(inten - 100 * np.cos(th)))], math.degrees(th[np.argmax(np.abs(inten - 100 * np.cos(th)))]))


def ks(u):
    """sqrt(n) times the Kolmogorov distance from the uniform distribution on [0, 1]."""
    u = np.sort(u)
    n = len(u)
    i = np.arange(1, n + 1)
    return math.sqrt(n) * max(np.abs(i / n - u).max(), np.abs(u - (i - 1) / n).max())


def check_stats(spec, ctx):
    s = spec["lamp"]
    np.random.seed(spec["seed"])
    with sut("generate rays"):
        lamp = make(s)
        chunks = [np.array(lamp.generate_rays(k).rays, dtype=float) for k in spec["counts"] for _ in range(max(1, spec["total"] // (k * len(spec["counts"]))))]
    R = np.concatenate(chunks, axis=2)
    o, d = local(R, np.eye(4))
    for name, x in (("y of the starts", R[0, 1]), ("z of the starts", R[0, 2]), ("angles", R[1, 0])):
        k = R.shape[2] - len(np.unique(x))
        require(k <= 3, "%d of %d %s repeat another ray's (a random value is practically never met twice)", k, R.shape[2], name)
    amax = math.radians(90 if s["a"] is None else s["a"])
    th = np.arctan2(np.hypot(d[1], d[2]), d[0])
    cols = {
        "y": o[1] / s["w"] + 0.5, "z": o[2] / s["l"] + 0.5,
        # 1 - cos without cancellation
        "solid angle": np.sin(th / 2) ** 2 / math.sin(amax / 2) ** 2,
        "azimuth": np.mod(np.arctan2(d[2], d[1]), 2 * math.pi) / (2 * math.pi)}
    n = R.shape[2]
    for k, u in cols.items():
        st_ = ks(u)
        require(st_ < 3.3, "lamp %s: %s of %d rays is not uniform (Kolmogorov statistic %.2f)", s, k, n, st_)
    names = list(cols)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            for f, fn in (("", lambda u: u - 0.5), ("fold ", lambda u: np.abs(u - 0.5) - 0.25), ("wave ", lambda u: np.cos(2 * np.pi * u))):
                x, y = fn(cols[a]), fn(cols[b])
                r = abs(np.mean(x * y) / (np.std(x) * np.std(y) + 1e-300)) * math.sqrt(n)
                require(r < 7.0, "lamp %s: %s and %s are not independent (%scorrelation %.1f sigma)", s, a, b, f, r)
    ctx.nt(True)


def check_lamp(spec, ctx):
    """Bounds through moves, rotations and uniform scalings."""
    s = spec["lamp"]
    np.random.seed(spec["seed"])
    with sut("create"):
        lamp = make(s)
    m, wl = np.eye(4), 0.633 if s["wl"] is None else s["wl"]
    for act in spec["acts"]:
        with sut("lamp " + act[0]):
            if act[0] == "wl":
                lamp.wavelength = act[1]
                wl = act[1]
                continue
            if act[0] == "op":
                geo.apply_op(lamp, act[1])
                m = geo.op_matrix(act[1]) @ m
                continue
            rs = lamp.generate_rays(act[1])
        check_bounds(s, rs, act[1], m, wl, "lamp")
        ctx.nt(act[1] > 1)


def check_static(spec, ctx):
    np.random.seed(spec["seed"])
    with sut("create"):
        lamps = [make(s) for s in spec["lamps"]]
    st_ = [dict(m=np.eye(4), wl=0.633 if s["wl"] is None else s["wl"], known={}, at={}) for s in spec["lamps"]]
    last = None
    rep = 0
    for i, act in enumerate(spec["acts"]):
        j = act[1] % len(lamps)
        s, lamp, t = spec["lamps"][j], lamps[j], st_[j]
        if act[0] == "wl":
            with sut("wavelength"):
                lamp.wavelength = act[2]
            t["wl"] = act[2]
        elif act[0] == "op":
            with sut("move lamp"):
                geo.apply_op(lamp, act[2])
            t["m"] = geo.op_matrix(act[2]) @ t["m"]
        elif act[0] == "spoil":
            if last is not None:
                last.rays[0, :3] += 5.0
                last.intensity = 1.0
                last.wavelength = 0.1
                last.generation = 7
        elif act[0] == "new":
            with sut("create"):
                make(s).generate_rays(act[2])
        elif act[0] == "seed":
            np.random.seed(act[2])
        else:
            n = act[2]
            with sut("generate rays"):
                rs = lamp.generate_rays(n)
            check_bounds(s, rs, n, t["m"], t["wl"], "static lamp")
            if n == 0:
                continue
            R, inten = np.array(rs.rays, dtype=float), np.array(rs.intensity, dtype=float)
            o, d = local(R, t["m"])
            if n in t["known"]:
                ko, kd, ki = t["known"][n]
                require(np.abs(o - ko).max() <= 1e-7 and np.abs(d - kd).max() <= 1e-7, "static lamp gives other rays the next time it is asked for %d", n)
                require(np.abs(inten - ki).max() <= 1e-9, "static lamp gives other intensities the next time it is asked for %d", n)
                rep += t["at"][n] < i - 1
            else:
                t["known"][n] = (o, d, inten)
            t["at"][n] = i
            last = rs
    ctx.label("repeats", rep)
    ctx.nt(rep > 0)


def lamp_spec(static):
    return st.fixed_dictionaries(dict(
        w=gen.milli(0.0, 4), l=gen.milli(0.0, 4), a=st.one_of(st.none(), gen.milli(0, 90), st.sampled_from([90.0, 30.0, 5.0])),
        wl=st.one_of(st.none(), gen.milli(0.3, 1.0)), static=st.just(static)))


def _limit(acts):
    m = 1.0
    out = []
    for a in acts:
        if a[0] == "op" and a[-1][0] == "sall":
            if not 0.1 <= m * a[-1][1] <= 10:
                continue
            m *= a[-1][1]
        out.append(a)
    return out


def strat_lamp():
    act = st.one_of(st.tuples(st.just("gen"), st.integers(0, 40)), st.tuples(st.just("op"), gen.SIMILAR_OP), st.tuples(st.just("wl"), gen.milli(0.3, 1))).map(list)
    return st.fixed_dictionaries(dict(lamp=st.one_of(lamp_spec(False), lamp_spec(True)), seed=st.integers(0, 2 ** 31),
                                      acts=st.tuples(st.lists(act, max_size=5).map(_limit), st.integers(2, 60)).map(lambda t: t[0] + [["gen", t[1]]])))


def strat_stats():
    return st.fixed_dictionaries(dict(
        lamp=st.fixed_dictionaries(dict(w=gen.milli(0.2, 4), l=gen.milli(0.2, 4), a=st.one_of(st.none(), gen.milli(1, 90), st.sampled_from([90.0, 5.0])), wl=st.none(), static=st.just(False))),
        seed=st.integers(0, 2 ** 31), total=st.sampled_from([2000, 4000]), counts=st.sampled_from([[4000], [2000], [500], [50], [10], [3], [1], [1, 100], [7, 300]])))


def strat_static():
    n = st.sampled_from([0, 1, 2, 3, 5, 8, 20])
    act = st.one_of(
        st.tuples(st.just("gen"), st.integers(0, 2), n), st.tuples(st.just("gen"), st.integers(0, 2), n), st.tuples(st.just("gen"), st.integers(0, 2), st.just(5)),
        st.tuples(st.just("op"), st.integers(0, 2), gen.RIGID_OP), st.tuples(st.just("wl"), st.integers(0, 2), gen.milli(0.3, 1)),
        st.tuples(st.just("spoil"), st.just(0)), st.tuples(st.just("new"), st.integers(0, 2), n), st.tuples(st.just("seed"), st.just(0), st.integers(0, 99))).map(list)
    return st.fixed_dictionaries(dict(lamps=st.lists(lamp_spec(True), min_size=1, max_size=3), seed=st.integers(0, 2 ** 31), acts=st.lists(act, min_size=2, max_size=12)))


FACETS = [
    Facet("bounds", strat_lamp, check_lamp, quick=1200, thorough=40000, shards=3, rule="plain and static lamps under rigid motions and uniform scalings"),
    Facet("uniform", strat_stats, check_stats, quick=160, thorough=4000, shards=4, rule="pooled statistics of 2000-4000 rays from one or many requests"),
    Facet("static", strat_static, check_static, quick=1200, thorough=40000, shards=4, rule="histories over 1-3 static lamps"),
]
