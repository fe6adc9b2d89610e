"""C13: deterministic sources."""
import math

import numpy as np

from vlib import build, gen, geo
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt.components as pc

RULE = "non-trivial = at least two rays and at least one transform or wavelength change"


def make(s):
    k, p, w = s["kind"], s["p"], s["wl"]
    cls = {"line": pc.LineOfRays, "circle": pc.CircleOfRays, "cone": pc.ConeOfRays, "wedge": pc.WedgeOfRays}[k]
    return cls(p) if w is None else cls(p, wavelength=w)


def even(vals, lo, hi):
    """vals (sorted) are evenly spaced from lo to hi."""
    v = np.sort(vals)
    return np.abs(v - np.linspace(lo, hi, len(v))).max() <= 1e-7 * (1 + abs(lo) + abs(hi))


def even_circle(ang):
    """Angles equally spaced around the full circle, none repeated."""
    n = len(ang)
    a = np.sort(np.mod(ang, 2 * math.pi))
    gaps = np.diff(np.append(a, a[0] + 2 * math.pi))
    return np.abs(gaps - 2 * math.pi / n).max() <= 1e-6


def check_pattern(s, n, o, d, what):
    """o, d: local starts and unit directions."""
    k, p = s["kind"], s["p"]
    size = max(1.0, p) * 1e-6
    if k in ("line", "circle"):
        require(np.abs(d - np.array([[1.0], [0], [0]])).max() <= 1e-6, "%s: directions %s, expected +x", what, d.T.tolist())
        require(np.abs(o[0]).max() <= size, "%s: starts %s are not in the yz plane", what, o.T.tolist())
    else:
        require(np.abs(o).max() <= 1e-6, "%s: starts %s, expected one point", what, o.T.tolist())
    if k == "line":
        require(np.abs(o[2]).max() <= size, "%s: starts %s are not along y", what, o.T.tolist())
        ok = abs(o[1, 0]) <= size if n == 1 else even(o[1], -p / 2, p / 2)
        require(ok, "%s: start positions %s are not evenly spaced over a line of length %s", what, sorted(o[1].tolist()), p)
    elif k == "circle":
        r = np.hypot(o[1], o[2])
        require(np.abs(r - p / 2).max() <= size, "%s: starts at radius %s, expected %s", what, r.tolist(), p / 2)
        if p > 0:
            require(even_circle(np.arctan2(o[2], o[1])), "%s: starts %s are not evenly spread around the circle", what, o.T.tolist())
    elif k == "cone":
        if n == 1:
            return  # the direction of a single ray of a cone is not specified
        a = np.arctan2(np.hypot(d[1], d[2]), d[0])
        require(np.abs(a - math.radians(p)).max() <= 1e-6, "%s: angles to the axis %s, expected %s degrees", what, np.degrees(a).tolist(), p)
        if 1e-3 < p < 179.99:
            require(even_circle(np.arctan2(d[2], d[1])), "%s: directions %s are not evenly spread around the cone", what, d.T.tolist())
    else:
        require(np.abs(d[2]).max() <= 1e-6, "%s: directions %s leave the xy plane", what, d.T.tolist())
        a = np.degrees(np.arctan2(d[1], d[0]))
        if n == 1:
            require(abs(a[0]) <= p / 2 + 1e-4, "%s: ray at %s degrees in a wedge of %s degrees", what, a.tolist(), p)
        elif p < 359:
            require(np.abs(np.sort(a) - np.linspace(-p / 2, p / 2, n)).max() <= 1e-4, "%s: ray angles %s are not evenly spread over a wedge of %s degrees", what, sorted(a.tolist()), p)


def check(spec, ctx):
    s = spec["src"]
    with sut("create source"):
        src = make(s)
    wl = 0.633 if s["wl"] is None else s["wl"]
    m = np.eye(4)
    seen = []
    for act in spec["acts"]:
        if act[0] == "wl":
            with sut("set wavelength"):
                src.wavelength = act[1]
                require(src.wavelength == act[1], "wavelength is %s after setting %s", src.wavelength, act[1])
            wl = act[1]
            continue
        if act[0] == "spoil":
            if seen:
                seen[-1][0][:] = 3.0  # rays handed out belong to the caller
                seen.pop()
            continue
        if act[0] == "op":
            with sut("move source"):
                geo.apply_op(src, act[1])
            m = geo.op_matrix(act[1]) @ m
            continue
        n = act[1]
        what = "%s(%s), %d rays" % (s["kind"], s["p"], n)
        with sut("generate rays"):
            rs = src.generate_rays(n)
            require(rs.n_rays == n and np.asarray(rs.rays).shape == (2, 4, n), "%s: %s rays generated", what, rs.n_rays)
            if n == 0:
                continue
            R = np.array(rs.rays, dtype=float)
            require(np.all(np.abs(R[0, 3] - 1) < 1e-12) and np.all(R[1, 3] == 0), "%s: homogeneous coordinates %s %s", what, R[0, 3].tolist(), R[1, 3].tolist())
            require(np.abs(np.linalg.norm(R[1, :3], axis=0) - 1).max() <= 1e-9, "%s: directions are not unit vectors", what)
            require(np.all(np.array(rs.wavelength) == wl), "%s: wavelengths %s, expected %s", what, np.array(rs.wavelength).tolist(), wl)
            require(np.all(np.array(rs.index) == 1) and np.all(np.array(rs.intensity) == 100) and np.all(np.array(rs.generation) == 0), "%s: index %s intensity %s generation %s", what, np.array(rs.index).tolist(), np.array(rs.intensity).tolist(), np.array(rs.generation).tolist())
            require(len(set(np.array(rs.id).tolist())) == n, "%s: ids are not distinct", what)
        mi = np.linalg.inv(m)
        o = (mi @ R[0])[:3]
        d = (mi @ R[1])[:3]
        d = d / np.linalg.norm(d, axis=0)
        # directions must also point the right way after the transform
        check_pattern(s, n, o, d, what)
        wd = m[:3, :3] @ d
        require(np.abs(wd / np.linalg.norm(wd, axis=0) - R[1, :3]).max() <= 1e-7, "%s: directions are not carried by the transform", what)
        seen.append((rs, np.array(rs)))
        ctx.label("kind-" + s["kind"])
        ctx.nt(n > 1 and len(spec["acts"]) > 1)
    for rs, copy in seen:
        require(np.array_equal(np.array(rs), copy), "rays handed out earlier were changed by later calls")
    with sut("generate rays"):
        first, again = [np.array(src.generate_rays(spec["acts"][-1][1])) for _ in range(2)]
        require(first.shape == again.shape and np.array_equal(first, again), "the same request gives different rays")


def strat():
    src = st.one_of(
        st.tuples(st.sampled_from(["line", "circle"]), st.one_of(gen.milli(0, 5), st.sampled_from([0.0, 1.0, 2.0]))),
        st.tuples(st.just("cone"), st.one_of(gen.milli(0, 90), gen.milli(90, 180), st.sampled_from([1.0, 10.0, 45.0, 90.0]))),
        st.tuples(st.just("wedge"), st.one_of(gen.milli(0, 180), gen.milli(180, 359), st.sampled_from([10.0, 90.0, 180.0, 270.0]))))
    wl = gen.milli(0.3, 1.0)
    n = st.one_of(st.integers(1, 40), st.integers(1, 12), st.sampled_from([0, 1, 2, 3, 4, 10]), st.integers(41, 1000))
    act = st.one_of(st.tuples(st.just("gen"), n), st.tuples(st.just("gen"), n), st.tuples(st.just("op"), gen.an_op(shear=True)),
                    st.tuples(st.just("op"), gen.an_op()), st.tuples(st.just("wl"), wl), st.just(("spoil",))).map(list)
    return st.fixed_dictionaries(dict(
        src=st.tuples(src, st.one_of(st.none(), wl)).map(lambda t: dict(kind=t[0][0], p=t[0][1], wl=t[1])),
        acts=st.tuples(st.lists(act, max_size=6).map(_limit), n).map(
            lambda t: t[0] + [["gen", t[1]]])))


def _limit(acts):
    m = np.eye(4)
    out = []
    for a in acts:
        if a[0] == "op":
            t = geo.op_matrix(a[1]) @ m
            s = np.linalg.svd(t[:3, :3], compute_uv=False)
            if s[0] > 15 or s[-1] < 0.07:
                continue
            m = t
        out.append(a)
    return out


FACETS = [Facet("patterns", strat, check, quick=3000, thorough=100000, shards=6, rule="histories of requests, moves, scalings, shears and wavelength changes", units=())]
