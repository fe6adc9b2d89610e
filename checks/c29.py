"""C29: merging sorted crossing lists."""
import numpy as np

from vlib import gen
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx.g3d import csg

RULE = "non-trivial = both objects have crossings on some ray and the two interval sets overlap or interleave there"
ASSUMPTIONS = ["crossings of the two different objects do not coincide (ties between objects have no defined order)"]
OPS = {"union": csg.Operation.UNION, "intersect": csg.Operation.INTERSECT, "difference": csg.Operation.DIFFERENCE}
INF = float("inf")


def reference(op, a, b):
    """a, b: sorted finite even-length lists.  Boundary points of the combination by midpoint membership."""
    ev = sorted(a + b)
    if not ev:
        return []
    probes = [ev[0] - 1.0] + [0.5 * (x + y) for x, y in zip(ev, ev[1:])] + [ev[-1] + 1.0]

    def inside(lst, t):
        return any(lo <= t <= hi for lo, hi in zip(lst[::2], lst[1::2]))

    def member(t):
        p, q = inside(a, t), inside(b, t)
        return (p or q) if op == "union" else (p and q) if op == "intersect" else (p and not q)
    m = [member(t) for t in probes]
    return [e for i, e in enumerate(ev) if m[i] != m[i + 1]]


def column(vals, rows):
    return vals + [INF] * (rows - len(vals))


def check(spec, ctx):
    cols, used = [], 0
    for a, b in spec["cols"]:
        a = sorted(set(a))
        b = sorted(set(b) - set(a))
        a, b = a[: len(a) // 2 * 2], b[: len(b) // 2 * 2]
        if spec.get("ints", "none") != "none":  # an object whose crossings are all whole numbers, as whole-number or float arrays
            if spec.get("ints", "none") in ("first", "both"):
                a = sorted({x // 1000 * 1000 for x in a})
            if spec.get("ints", "none") in ("second", "both"):
                b = sorted({x // 1000 * 1000 for x in b})
            a = [x for x in a if x not in b] if spec.get("ints", "none") == "second" else a
            b = [x for x in b if x not in a]
            a, b = a[: len(a) // 2 * 2], b[: len(b) // 2 * 2]
        cols.append(([x / 1000.0 for x in a], [x / 1000.0 for x in b]))
    if spec["dim"] == 1:
        cols = cols[:1]
    ra = max(2, max(len(a) for a, _ in cols)) + 2 * spec["pad"][0]
    rb = max(2, max(len(b) for _, b in cols)) + 2 * spec["pad"][1]
    A = np.array([column(a, ra) for a, _ in cols]).T
    B = np.array([column(b, rb) for _, b in cols]).T
    if spec["dim"] == 1:
        A, B = A[:, 0], B[:, 0]
    for X, name in ((A, "first"), (B, "second")):
        if spec.get("ints", "none") in (name, "both") and np.isfinite(X).all() and (X == np.floor(X)).all():
            if name == "first":
                A = A.astype(int)
            else:
                B = B.astype(int)
            ctx.label("whole-numbers-" + name)
    keep = A.copy(), B.copy()
    with sut("array_csg"):
        if spec["sort"] == "default":
            out = csg.array_csg(A, B, OPS[spec["op"]])
        else:
            out = csg.array_csg(A, B, OPS[spec["op"]], sort_output=spec["sort"] == "yes")
        out = np.asarray(out, dtype=float)
        require(np.array_equal(A, keep[0]) and np.array_equal(B, keep[1]), "the crossing lists are modified")
        require(out.ndim == spec["dim"] and (spec["dim"] == 1 or out.shape[1] == len(cols)), "result shape %s for inputs %s and %s", out.shape, A.shape, B.shape)
    got = out.reshape(len(out), -1)
    for i, (a, b) in enumerate(cols):
        e = reference(spec["op"], a, b)
        g = got[:, i]
        f = g[np.isfinite(g)].tolist()
        if spec["sort"] == "no":
            f = sorted(f)
        require(not np.isnan(g).any() and not (g == -INF).any(), "column %d contains %s", i, g.tolist())
        require(f == e, "%s of %s and %s: %s, expected %s", spec["op"], a, b, f, e)
        if spec["sort"] != "no":
            require(np.isinf(g[len(f):]).all(), "%s of %s and %s is not padded with infinity at the end: %s", spec["op"], a, b, g.tolist())
        if a and b:
            both = a[0] < b[-1] and b[0] < a[-1]
            used += both
            ctx.label("interleaved" if both else "apart")
        else:
            ctx.label("one-sided" if a or b else "both-miss")
    ctx.label("op-" + spec["op"])
    ctx.nt(used > 0)


def check_wide(spec, ctx):
    """Many rays at once: every ray's result is the one it has alone, however many rays are merged with it."""
    pairs = []
    for a, b in spec["cols"]:
        a = sorted(set(a))
        b = sorted(set(b) - set(a))
        pairs.append((a[: len(a) // 2 * 2], b[: len(b) // 2 * 2]))
    m, n = len(pairs), spec["n"]
    ra, rb = (max(2, max(len(p[k]) for p in pairs)) for k in (0, 1))
    j = np.arange(n)
    shift = 16.0 * ((j * spec["step"]) % n)
    A = np.array([column([x / 1024.0 for x in p[0]], ra) for p in pairs]).T[:, j % m] + shift  # exact: all values are multiples of 2**-10
    B = np.array([column([x / 1024.0 for x in p[1]], rb) for p in pairs]).T[:, j % m] + shift
    exp = [reference(spec["op"], [x / 1024.0 for x in a], [x / 1024.0 for x in b]) for a, b in pairs]
    with sut("array_csg"):
        out = np.asarray(csg.array_csg(A, B, OPS[spec["op"]]), dtype=float)
        require(out.ndim == 2 and out.shape[1] == n, "result shape %s for %d rays", out.shape, n)
    rows = max(max(map(len, exp)), len(out))
    E = np.array([column(e, rows) for e in exp]).T[:, j % m] + shift
    out = np.vstack((out, np.full((rows - len(out), n), INF)))
    bad = np.nonzero((out != E).any(axis=0))[0]
    if len(bad):
        k = int(bad[0])
        require(False, "%s, ray %d of %d: crossings %s and %s give %s, expected %s", spec["op"], k, n, A[:, k].tolist(), B[:, k].tolist(), out[:, k].tolist(), E[:, k].tolist())
    ctx.label("rays-1e%d" % int(np.log10(n)))
    ctx.label("op-" + spec["op"])
    ctx.nt(any(exp))


def check_nested(spec, ctx):
    """Merging results again behaves like the Boolean tree."""
    lists = []
    seen = set()
    for l in spec["lists"]:
        l = sorted(set(l) - seen)
        l = l[: len(l) // 2 * 2]
        seen.update(l)
        lists.append([x / 1000.0 for x in l])
    cur, arr = lists[0], np.array(column(lists[0], max(2, len(lists[0])))).reshape(-1, 1)
    with sut("array_csg"):
        for op, l, swap in zip(spec["ops"], lists[1:], spec["swap"]):
            other = np.array(column(l, max(2, len(l)))).reshape(-1, 1)
            x, y = (other, arr) if swap else (arr, other)
            e = reference(op, l, cur) if swap else reference(op, cur, l)
            arr = np.asarray(csg.array_csg(x, y, OPS[op]))
            f = arr[np.isfinite(arr)].tolist()
            require(f == e, "%s of %s and %s (swapped=%s): %s, expected %s", op, cur, l, swap, f, e)
            cur = e
    ctx.label("depth-%d" % min(len(lists) - 1, len(spec["ops"])))
    ctx.nt(len(lists) > 2 and len(cur) > 0)


def check_sheet(spec, ctx):
    """A zero-thickness crossing (flat rectangle: the same distance twice) inside or outside the other object."""
    b = sorted(set(spec["b"]))
    b = [x / 1000.0 for x in b[: len(b) // 2 * 2]]
    t = spec["t"] / 1000.0 + 0.0005
    inside = any(lo < t < hi for lo, hi in zip(b[::2], b[1::2]))
    A, B = np.array([[t], [t]]), np.array(column(b, max(2, len(b)))).reshape(-1, 1)
    exp = {"union": b if inside else sorted(b + [t, t]), "intersect": [t, t] if inside else [], "difference": [] if inside else [t, t]}[spec["op"]]
    with sut("array_csg"):
        x, y = (B, A) if spec["swap"] and spec["op"] != "difference" else (A, B)
        out = np.asarray(csg.array_csg(x, y, OPS[spec["op"]]))
        f = out[np.isfinite(out)].tolist()
        require(f == exp, "%s of a sheet at %g and %s: %s, expected %s", spec["op"], t, b, f, exp)
    ctx.label("inside" if inside else "outside")
    ctx.nt(bool(b))


def check_bad(spec, ctx):
    A, B = np.array([[0.0], [1.0]]), np.array([[0.5], [2.0]])
    if spec["dim"] == 1:
        A, B = A[:, 0], B[:, 0]
    op = {"none": None, "name": "UNION", "int": spec["n"], "float": 1.5}[spec["kind"]]
    try:
        out = csg.array_csg(A, B, op)
    except Exception as e:
        require(isinstance(e, (ValueError, TypeError)), "unknown operation %r raises %s", op, type(e).__name__)
    else:
        require(False, "unknown operation %r is accepted and gives %s", op, np.asarray(out).tolist())
    ctx.nt(True)


SHORT = st.lists(st.integers(-6000, 6000), max_size=8)
PTS = gen.weighted((4, SHORT), (1, st.lists(st.integers(-6000, 6000), min_size=10, max_size=48)))  # now and then many intervals


def strat():
    col = st.tuples(PTS, PTS).map(list)
    few = st.tuples(SHORT, SHORT).map(list)
    cols = gen.weighted((9, st.lists(col, min_size=1, max_size=6)), (1, st.lists(few, min_size=8, max_size=50)))
    return st.fixed_dictionaries(dict(cols=cols, dim=st.sampled_from([1, 2, 2]), op=st.sampled_from(sorted(OPS)), pad=st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), sort=st.sampled_from(["default", "yes", "no"]),
        ints=st.sampled_from(["none"] * 5 + ["first", "second", "both"])))


def strat_wide():
    few = st.tuples(SHORT, SHORT).map(list)
    return st.fixed_dictionaries(dict(cols=st.lists(few, min_size=1, max_size=7), op=st.sampled_from(sorted(OPS)), step=st.sampled_from([1, 1, 7, 13]),
        n=st.one_of(st.integers(100, 700), st.integers(4000, 45000), st.sampled_from([32767, 32768, 32769, 65535, 65536, 65537, 70001, 140000]))))


FACETS = [
    Facet("merge", strat, check, quick=6000, thorough=200000, shards=8, rule="0-4 (now and then up to 24) intervals per object and ray, 1-6 (now and then up to 50) rays, padded rows"),
    Facet("wide", strat_wide, check_wide, quick=150, thorough=3000, shards=4, rule="the same for 100 to 140 000 rays at once: each ray its own result"),
    Facet("nested", lambda: st.fixed_dictionaries(dict(lists=st.lists(PTS, min_size=2, max_size=5), ops=st.lists(st.sampled_from(sorted(OPS)), min_size=4, max_size=4), swap=st.lists(st.booleans(), min_size=4, max_size=4))), check_nested, quick=3000, thorough=80000, shards=4, rule="results merged again up to four times"),
    Facet("sheet", lambda: st.fixed_dictionaries(dict(b=PTS, t=st.integers(-6000, 6000), op=st.sampled_from(sorted(OPS)), swap=st.booleans())), check_sheet, quick=1500, thorough=20000, shards=1, rule="zero-length intervals (flat rectangles)"),
    Facet("unknown", lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(["none", "name", "int", "float"]), n=st.integers(-5, 9), dim=st.sampled_from([1, 2]))), check_bad, quick=60, thorough=200, shards=1, rule="unknown operations are rejected"),
]
