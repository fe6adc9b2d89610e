"""C27: wavelength colours."""
import numpy as np
import pandas as pd

from vlib import gen
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from pyrayt.utils import wavelength_to_rgb

RULE = "non-trivial = wavelengths from at least two different bands"
KNOTS = [0.38, 0.44, 0.49, 0.51, 0.58, 0.645, 0.75]


def ref(w, gamma):
    w = min(max(w, 0.38), 0.75)
    if w < 0.44:
        a = 0.3 + 0.7 * (w - 0.38) / 0.06
        c = ((0.44 - w) / 0.06 * a, 0.0, a)
    elif w < 0.49:
        c = (0.0, (w - 0.44) / 0.05, 1.0)
    elif w < 0.51:
        c = (0.0, 1.0, (0.51 - w) / 0.02)
    elif w < 0.58:
        c = ((w - 0.51) / 0.07, 1.0, 0.0)
    elif w < 0.645:
        c = (1.0, (0.645 - w) / 0.065, 0.0)
    else:
        c = (0.3 + 0.7 * (0.75 - w) / 0.105, 0.0, 0.0)
    return [max(x, 0.0) ** gamma for x in c]


def check(spec, ctx):
    ws, g = spec["w"], spec["gamma"]
    kw = {} if g is None else dict(gamma=g)
    gg = 0.8 if g is None else g
    tol = 1e-9 if gg >= 0.3 else 1e-6
    with sut("wavelength_to_rgb"):
        for kind, arg in (("array", np.array(ws)), ("series", pd.Series(ws)), ("list", ws)):
            if kind == "list" and not spec["list"]:
                continue
            c = np.asarray(wavelength_to_rgb(arg, **kw) if kind != "list" else wavelength_to_rgb(np.array(ws, dtype="float64")[::-1][::-1], **kw))
            require(c.shape == (len(ws), 3), "%s of %d wavelengths gives colours of shape %s", kind, len(ws), c.shape)
            require(np.all((c >= 0) & (c <= 1)), "colour outside [0, 1]: %s", c.tolist())
            for i, w in enumerate(ws):
                e = ref(w, gg)
                # a power below 1 has unbounded slope at zero: compare there before the power
                ok = np.abs(c[i] - e).max() <= tol or np.abs(c[i] ** (1 / gg) - np.array(e) ** (1 / gg)).max() <= 1e-9
                require(ok, "wavelength %r at position %d of %d: colour %s, expected %s", w, i, len(ws), c[i].tolist(), e)
        one = np.asarray(wavelength_to_rgb(ws[0], **kw))
        require(one.shape == (3,) and np.abs(one - c[0]).max() <= 1e-12, "single wavelength %r gives %s, in an array %s", ws[0], one.tolist(), c[0].tolist())
        if spec["shuffle"]:
            r = np.asarray(wavelength_to_rgb(np.array(ws[::-1]), **kw))[::-1]
            require(np.array_equal(r, c), "colour depends on the position in the array")
        for k in KNOTS:  # continuity at the band limits
            a, b = np.asarray(wavelength_to_rgb(np.array([k - 1e-9, k, k + 1e-9]), **kw))[[0, 2]]
            require(np.abs(a ** (1 / gg) - b ** (1 / gg)).max() < 1e-6, "colour jumps at %g um from %s to %s", k, a.tolist(), b.tolist())
    bands = {sum(min(max(w, 0.3), 0.8) >= k for k in KNOTS) for w in ws}
    for b in bands:
        ctx.label("band-%d" % b)
    ctx.nt(len(bands) > 1)


def check_kinds(spec, ctx):
    """Whole numbers and single precision: the value counts, not the number type."""
    arr = np.array(spec["w"], dtype=spec["dtype"])
    exact = [float(x) for x in arr]
    with sut("wavelength_to_rgb of %s" % spec["dtype"]):
        c = np.asarray(wavelength_to_rgb(arr), dtype=float)
        require(c.shape == (len(arr), 3), "%d wavelengths give colours of shape %s", len(arr), c.shape)
        singles = [np.asarray(wavelength_to_rgb(x), dtype=float) for x in ([int(v) for v in arr] if arr.dtype.kind in "iu" else exact)]
    for i, w in enumerate(exact):
        e = np.array(ref(w, 0.8))
        require(np.abs(c[i] ** 1.25 - e ** 1.25).max() <= 2e-5, "wavelength %r (%s) at position %d: colour %s, expected %s", w, arr.dtype, i, c[i].tolist(), e.tolist())
        require(singles[i].shape == (3,) and np.abs(singles[i] ** 1.25 - e ** 1.25).max() <= 2e-5, "wavelength %r alone: colour %s, expected %s", w, singles[i].tolist(), e.tolist())
    ctx.label(str(arr.dtype))
    ctx.nt(len(set(exact)) > 1)


def check_mass(spec, ctx):
    """Thousands of wavelengths at once: each counts for itself."""
    rng = np.random.default_rng(spec["seed"])
    lo, hi = sorted(spec["range"])
    ws = lo + (hi + 0.001 - lo) * rng.random(spec["n"])
    g = spec["gamma"]
    with sut("wavelength_to_rgb of many"):
        c = np.asarray(wavelength_to_rgb(pd.Series(ws) if spec["series"] else ws, gamma=g))
        require(c.shape == (len(ws), 3), "%d wavelengths give colours of shape %s", len(ws), c.shape)
        require(np.all((c >= 0) & (c <= 1)), "colour outside [0, 1]")
    e = np.array([ref(w, g) for w in ws.tolist()])
    bad = (np.abs(c - e).max(axis=1) > 1e-9) & (np.abs(c ** (1 / g) - e ** (1 / g)).max(axis=1) > 1e-9)
    i = int(np.argmax(bad))
    require(not bad.any(), "wavelength %r at position %d of %d: colour %s, expected %s", float(ws[i]), i, len(ws), c[i].tolist(), e[i].tolist())
    ctx.nt(True)


def strat_mass():
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(60, 600), st.integers(600, 5000)), seed=st.integers(0, 10 ** 6), range=st.lists(gen.milli(0.3, 0.85), min_size=2, max_size=2), gamma=st.one_of(st.just(0.8), gen.milli(0.3, 2.0)), series=st.booleans()))


def strat_kinds():
    whole = st.fixed_dictionaries(dict(w=st.lists(st.integers(0, 20), min_size=1, max_size=8), dtype=st.sampled_from(["int64", "int32", "uint8", "int16"])))
    single = st.fixed_dictionaries(dict(w=st.lists(st.one_of(gen.milli(0.3, 0.85), st.sampled_from(KNOTS)), min_size=1, max_size=8), dtype=st.just("float32")))
    return st.one_of(whole, single)


def strat():
    w = st.one_of(gen.milli(0.3, 0.85), st.floats(0.3, 0.85), st.sampled_from(KNOTS + [0.0, 0.1, 1.0, 2.5, 10.0]), st.sampled_from(KNOTS).flatmap(lambda k: st.floats(k - 1e-3, k + 1e-3)))
    return st.fixed_dictionaries(dict(w=st.lists(w, min_size=1, max_size=10), gamma=st.one_of(st.none(), gen.milli(0.2, 2.0), st.sampled_from([1, 2])), list=st.booleans(), shuffle=st.booleans()))


FACETS = [Facet("colours", strat, check, quick=2500, thorough=80000, shards=4, rule="1-10 wavelengths as array, series and alone, any gamma"),
          Facet("kinds", strat_kinds, check_kinds, quick=300, thorough=8000, rule="whole numbers of any type, single precision"),
          Facet("mass", strat_mass, check_mass, quick=60, thorough=1500, rule="60 to 5000 wavelengths at once")]
