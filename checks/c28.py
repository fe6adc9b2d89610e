"""C28: quadratic roots against exact arithmetic."""
import math
from decimal import Decimal, getcontext

import numpy as np

from vlib import gen
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx.g3d import operations as ops

getcontext().prec = 60
RULE = "non-trivial = at least one case with two distinct real roots and one with none, or a tiny/zero/negative leading coefficient with real roots"
ASSUMPTIONS = ["|a| is 0 or 1e-24..1e3, |b| is 0 or 1e-6..1e3; triples whose discriminant is within 1e-9 of cancelling are skipped; the smallest-positive-root helper is used with |a| >= 1e-6"]
INF = float("inf")


def roots(a, b, c):
    """Exact sorted roots as Decimals; None = not decided."""
    A, B, C = Decimal(a), Decimal(b), Decimal(c)
    if a == 0:
        if b == 0:
            return (Decimal("-Infinity") if c <= 0 else Decimal("Infinity"), Decimal("Infinity"))
        r = -C / B
        return (r, r)
    disc = B * B - 4 * A * C
    scale = B * B + abs(4 * A * C)
    if scale and abs(disc) <= Decimal("1e-9") * scale:
        return None
    if disc < 0:
        return (Decimal("Infinity"),) * 2
    s = disc.sqrt()
    q = -(B + (s if B >= 0 else -s)) / 2
    r1 = q / A
    r2 = C / q if q != 0 else r1
    return (min(r1, r2), max(r1, r2))


def close(got, exp, rel):
    e = float(exp)
    if math.isinf(e):
        return got == e
    return abs(got - e) <= rel * abs(e) + 1e-300


def value(t):
    m, e, s = t
    return 0.0 if m == 0 else (-1.0 if s else 1.0) * (m / 1000.0) * 10.0 ** e


def coeffs(spec):
    out = []
    for q in spec["q"]:
        if q[0] == "roots":  # built from two known roots
            r1, r2, k = value(q[1]), value(q[2]), value(q[3])
            if k == 0:
                k = 1.0
            out.append((k, -k * (r1 + r2), k * r1 * r2))
        else:
            out.append(tuple(value(x) for x in q[1:4]))
    return out


def domain(a, b, c):
    return (a == 0 or 1e-24 <= abs(a) <= 1e3) and (b == 0 or 1e-6 <= abs(b) <= 1e3) and (c == 0 or 1e-9 <= abs(c) <= 1e4)


def check(spec, ctx):
    cs = [t for t in coeffs(spec) if domain(*t)]
    if not cs:
        return
    A, B, C = [np.array(x) for x in zip(*cs)]
    with sut("binomial_root"):
        keep = [x.copy() for x in (A, B, C)]
        if spec["disc"]:
            got = np.asarray(ops.binomial_root(A, B, C, B ** 2 - 4 * A * C), dtype=float)
        else:
            got = np.asarray(ops.binomial_root(A, B, C), dtype=float)
        require(all(np.array_equal(x, y) for x, y in zip(keep, (A, B, C))), "the coefficient arrays are modified")
        require(got.shape == (2, len(cs)), "roots of %d polynomials have shape %s", len(cs), got.shape)
    two = none = special = 0
    for i, (a, b, c) in enumerate(cs):
        e = roots(a, b, c)
        if e is None:
            ctx.label("skip-double-root")
            continue
        g = sorted(got[:, i].tolist())
        require(close(g[0], e[0], 1e-7) and close(g[1], e[1], 1e-7), "roots of %r x^2 + %r x + %r: %s, exactly %s", a, b, c, got[:, i].tolist(), [float(x) for x in e])
        if e[0] != e[1] and not e[0].is_infinite():
            two += 1
        none += e[0] == Decimal("Infinity")
        if abs(a) < 1e-5 and not e[0].is_infinite():
            special += 1
        ctx.label("linear" if a == 0 and b != 0 else "constant" if a == 0 else "tiny-a" if abs(a) < 1e-8 else "none" if e[0].is_infinite() else "two")
    # each element alone, as arrays of one and as plain numbers
    with sut("binomial_root of one"):
        for i, (a, b, c) in enumerate(cs[:3]):
            one = np.asarray(ops.binomial_root(np.array([a]), np.array([b]), np.array([c])), dtype=float).reshape(2)
            require(np.array_equal(one, got[:, i]) or np.allclose(one, got[:, i], rtol=1e-9, atol=0), "roots of (%r, %r, %r): %s alone, %s in an array of %d", a, b, c, one.tolist(), got[:, i].tolist(), len(cs))
            sc = np.asarray(ops.binomial_root(a, b, c), dtype=float).reshape(2)
            require(np.allclose(sc, got[:, i], rtol=1e-9, atol=0), "roots of (%r, %r, %r): %s as numbers, %s in an array of %d", a, b, c, sc.tolist(), got[:, i].tolist(), len(cs))
    ctx.nt((two and none) or special)


def check_pos(spec, ctx):
    cs = [t for t in coeffs(spec) if domain(*t) and abs(t[0]) >= 1e-6]
    if not cs:
        return
    A, B, C = [np.array(x) for x in zip(*cs)]
    with sut("smallest_positive_root"):
        got = np.asarray(ops.smallest_positive_root(A, B, C), dtype=float)
        require(got.shape == (len(cs),), "smallest roots of %d polynomials have shape %s", len(cs), got.shape)
    kinds = set()
    for i, (a, b, c) in enumerate(cs):
        e = roots(a, b, c)
        if e is None:
            ctx.label("skip-double-root")
            continue
        tol = 1e-9 * max([abs(float(x)) for x in e if not x.is_infinite()] + [abs(b / a)]) + 1e-12
        if c != 0 and any(abs(float(x)) <= 10 * tol for x in e):
            ctx.label("skip-near-zero")
            continue
        pos = [x for x in e if x >= 0]
        x = float(min(pos)) if pos else INF
        ok = got[i] == x if math.isinf(x) else abs(got[i] - x) <= tol
        require(ok, "smallest non-negative root of %r x^2 + %r x + %r: %r, exactly %r (roots %s)", a, b, c, float(got[i]), x, [float(y) for y in e])
        k = "none" if e[0].is_infinite() else "both" if e[0] > 0 else "one" if e[1] > 0 else "negative"
        kinds.add(k)
        ctx.label(k + ("-neg-a" if a < 0 else ""))
        with sut("smallest_positive_root of one"):
            s = float(ops.smallest_positive_root(a, b, c))
            require(s == got[i] or abs(s - got[i]) <= tol, "smallest root of (%r, %r, %r): %r as numbers, %r in an array", a, b, c, s, float(got[i]))
    ctx.nt(len(kinds) > 1)


def check_mass(spec, ctx):
    """Hundreds to thousands of polynomials at once, against their exact roots."""
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]

    def num(elo, ehi, zero):
        v = np.where(rng.random(n) < 0.5, -1, 1) * 10.0 ** rng.uniform(elo, ehi, n)
        return np.where(rng.random(n) < zero, 0.0, v)
    z = 0.0 if spec["positive"] else 0.1
    A, B, C = num(-4 if spec["positive"] else spec["low"], 2, z), num(-3, 2, 0.1), num(-4, 2, 0.1)
    known = rng.random(n) < 0.3  # from two known roots
    r1, r2 = num(-2, 2, 0), num(-2, 2, 0)
    k = rng.choice([1.0, -1.0, 2.0, 0.5], n)
    A, B, C = np.where(known, k, A), np.where(known, -k * (r1 + r2), B), np.where(known, k * r1 * r2, C)
    f = ops.smallest_positive_root if spec["positive"] else ops.binomial_root
    with sut(f.__name__ + " of many"):
        got = np.asarray(f(A, B, C), dtype=float)
        require(got.shape == ((n,) if spec["positive"] else (2, n)), "roots of %d polynomials have shape %s", n, got.shape)
    for i, (a, b, c) in enumerate(zip(A.tolist(), B.tolist(), C.tolist())):
        e = roots(a, b, c)
        if e is None:
            continue
        if not spec["positive"]:
            g = sorted(got[:, i].tolist())
            require(close(g[0], e[0], 1e-7) and close(g[1], e[1], 1e-7), "roots of %r x^2 + %r x + %r, number %d of %d: %s, exactly %s", a, b, c, i, n, got[:, i].tolist(), [float(x) for x in e])
            continue
        tol = 1e-9 * max([abs(float(x)) for x in e if not x.is_infinite()] + [abs(b / a)]) + 1e-12
        if c != 0 and any(abs(float(x)) <= 10 * tol for x in e):
            continue
        pos = [x for x in e if x >= 0]
        x = float(min(pos)) if pos else INF
        require(got[i] == x if math.isinf(x) else abs(got[i] - x) <= tol, "smallest non-negative root of %r x^2 + %r x + %r, number %d of %d: %r, exactly %r", a, b, c, i, n, float(got[i]), x)
    ctx.label("positive" if spec["positive"] else "both")
    ctx.nt(True)


def strat(lo=-24):
    def num(elo, ehi):
        return st.tuples(st.integers(0, 9999), st.integers(elo, ehi), st.booleans()).map(list)
    zero = st.just([0, 0, False])
    a = st.one_of(num(lo + 3, 2), num(-2, 1), zero) if lo < -10 else st.one_of(num(lo + 3, 2), num(-2, 1))
    b = st.one_of(num(-3, 2), num(-3, 2), zero)
    c = st.one_of(num(-4, 2), num(-4, 2), zero)
    free = st.tuples(st.just("abc"), a, b, c).map(list)
    # exactly representable small integers give exactly known roots
    r = st.tuples(st.integers(0, 50).map(lambda v: v * 1000), st.integers(0, 1), st.booleans()).map(list)
    k = st.tuples(st.sampled_from([1000, 2000, 4000, 500, 250]), st.just(0), st.booleans()).map(list)
    known = st.tuples(st.just("roots"), r, r, k).map(list)
    return st.fixed_dictionaries(dict(q=st.lists(st.one_of(free, free, known), min_size=1, max_size=10), disc=st.booleans()))


FACETS = [
    Facet("binomial", strat, check, quick=6000, thorough=200000, shards=8, rule="1-10 coefficient triples over 27 orders of magnitude, also as scalars and with a precomputed discriminant"),
    Facet("positive", lambda: strat(-6), check_pos, quick=4000, thorough=100000, shards=4, rule="smallest non-negative root, both signs of the leading coefficient"),
    Facet("mass", lambda: st.fixed_dictionaries(dict(n=st.one_of(st.integers(30, 300), st.integers(300, 4000)), seed=st.integers(0, 10 ** 6), positive=st.booleans(), low=st.sampled_from([-20, -8, -4, -2]))), check_mass,
          quick=60, thorough=1500, shards=2, rule="30 to 4000 polynomials at once"),
]
