"""C31: plots of results and source labels."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib import colors as mcolors
from matplotlib.quiver import Quiver
import numpy as np

from checks import c27
from vlib import gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt
import pyrayt.components as pc

RULE = "non-trivial = at least two sources left rows"
ASSUMPTIONS = ["components whose bounding volume is not finite (empty intersections) are not drawn", "the sources generate the number of rays asked of them"]
AX = {"xy": ("x", "y"), "xz": ("x", "z")}


def setup(spec):
    s = system.System(dict(comps=spec["comps"], sources=spec["sources"]))
    # every source has a wavelength of its own: the results tell the sources apart without the ids
    for i, src in enumerate(s.sources):
        with sut("set wavelength"):
            src.wavelength = wl(i)
    with sut("create tracer"):
        s.listed = list(range(len(s.sources)))
        if spec.get("again") is not None:  # one of the sources is listed a second time
            s.listed.insert(spec["again"][1] % (len(s.listed) + 1), spec["again"][0] % len(s.listed))
        lst = [s.sources[i] for i in s.listed]
        one_src, one_comp = spec["bare"] and len(lst) == 1, spec["bare"] and len(s.objs) == 1 and not hasattr(s.objs[0], "__iter__")
        t = pyrayt.RayTracer(lst[0] if one_src else lst, s.objs[0] if one_comp else s.objs, rays_per_source=spec["n"], generation_limit=spec["limit"])
    return s, t


def wl(i):
    return 0.43 + 0.035 * i


def source_of(df, s, n):
    """Position in the list of sources that each row comes from."""
    i = np.rint((np.array(df["wavelength"], dtype=float) - 0.43) / 0.035).astype(int)
    at = np.array([s.listed.index(k) for k in range(len(s.sources))])[i]
    if len(s.listed) > len(s.sources):  # a source that is listed twice: its first rays have the lower ids
        twice = np.array([s.listed.count(k) > 1 for k in range(len(s.sources))])[i]
        at = np.where(twice, (np.array(df["id"], dtype=float) // n).astype(int), at)
    return at


def check_labels(spec, ctx):
    s, t = setup(spec)
    now = n = spec["n"]
    with sut("trace"):
        df = t.trace()
    for act in spec["acts"]:
        now = act[1] if act[0] == "n" else now
        n = now if act[0] == "trace" else n
        with sut("%s" % act):
            if act[0] == "n":
                t.set_rays_per_source(act[1])
            elif act[0] == "limit":
                t.set_generation_limit(act[1])
            elif act[0] == "empty":
                t.load_components([])
            elif act[0] == "ids":
                t.calculate_source_ids()
            elif act[0] == "trace":
                df = t.trace()
            elif act[0] == "move":
                geo.apply_op(s.sources[0], act[1])
                s.sources[0].wavelength = 0.9
            elif act[0] == "rays":
                s.sources[-1].generate_rays(act[1])
            elif act[0] == "back":
                t.load_components(s.objs)
            elif act[0] == "other":
                pyrayt.RayTracer(s.sources, s.objs, rays_per_source=act[1]).trace()
        if act[0] == "trace":
            for i, src in enumerate(s.sources):
                src.wavelength = wl(i)
            with sut("trace"):
                df = t.trace()
    before = [np.array(df[c], dtype=float) for c in sim.COLS]
    with sut("calculate_source_ids"):
        t.calculate_source_ids()
        res = t.get_results()
        require(len(res) == len(before[0]), "labelling the sources changes the number of rows from %d to %d", len(before[0]), len(res))
        require("source_id" in res.columns, "no source column was added, the columns are %s", list(res.columns))
        got = np.array(res["source_id"], dtype=float)
        for c, b in zip(sim.COLS, before):
            require(np.array_equal(b, np.array(res[c], dtype=float)), "labelling the sources changes column %s", c)
    want = source_of(res, s, n)
    bad = np.flatnonzero(got != want)
    if len(bad):
        k = int(bad[0])
        require(False, "row %d (ray %d, wavelength %g) comes from source %d, its label is %g", k, res["id"].iloc[k], res["wavelength"].iloc[k], want[k], got[k])
    ctx.label("rows", len(got))
    ctx.nt(len(set(want.tolist())) > 1)


def check_plot(spec, ctx):
    s, t = setup(spec)
    with sut("bounding volumes"):
        if not all(np.isfinite(np.asarray(c.bounding_volume.axis_spans)).all() for c in s.objs):
            ctx.label("skip-empty-component")
            return
    traced = spec["trace"]
    df = None
    now = n = spec["n"]
    if traced:
        with sut("trace"):
            df = t.trace()
        for act in spec["acts"]:
            now = act[1] if act[0] == "n" else now
            n = now if act[0] == "trace" else n
            with sut("%s" % act):
                if act[0] == "n":
                    t.set_rays_per_source(act[1])
                elif act[0] == "limit":
                    t.set_generation_limit(act[1])
                elif act[0] == "ids":
                    t.calculate_source_ids()
                elif act[0] == "move":
                    geo.apply_op(s.sources[0], act[1])
                elif act[0] == "reset":
                    t.reset()
                    traced = False
                elif act[0] == "trace":
                    df = t.trace()
                    traced = True
    try:
        fig, ax = plt.subplots()
        other = fig.add_axes([0.8, 0.8, 0.1, 0.1])
        kw = dict(resolution=16)
        if spec["axis"]:
            plt.sca(other)
            kw["axis"] = ax
        else:
            plt.sca(ax)
        if spec["color"] is not None:
            kw["color_function"] = spec["color"]
        if spec["view"] == "xz" or not spec["default"]:
            kw["view"] = spec["view"]
        if spec["shaded"]:
            kw["shaded"] = True
        with sut("show"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t.show(**kw)
            require(not other.images and not other.collections, "the plot went to another axis than the one asked for")
            require(len(ax.images) == 1, "the components were drawn %d times", len(ax.images))
        qs = [c for c in ax.collections if isinstance(c, Quiver)]
        n_arrows = sum(len(q.U) for q in qs)
        if not traced:
            require(n_arrows == 0, "no results, but %d arrows are drawn", n_arrows)
            ctx.label("untraced")
            return
        require(n_arrows == len(df), "%d rows of results, but %d arrows are drawn", len(df), n_arrows)
        if len(df) == 0:
            ctx.label("no-rows")
            return
        h, v = AX[spec["view"]]
        rows = np.stack([np.array(df[c], dtype=float) for c in (h + "0", v + "0", h + "1", v + "1")])
        arrows, cols = [], []
        for q in qs:
            xy = np.asarray(q.XY, dtype=float)
            arrows.append(np.stack((xy[:, 0], xy[:, 1], xy[:, 0] + np.asarray(q.U, dtype=float), xy[:, 1] + np.asarray(q.V, dtype=float))))
            fc = np.asarray(q.get_facecolor(), dtype=float)
            cols.append(np.broadcast_to(fc, (xy.shape[0], 4)) if len(fc) == 1 else fc)
        arrows, cols = np.hstack(arrows), np.vstack(cols)
        require(cols.shape[0] == arrows.shape[1], "%d arrows with %d colours", arrows.shape[1], cols.shape[0])
        # arrows and rows in a common order
        sc = 1 + np.abs(rows).max()
        if np.abs(arrows - rows).max() > 1e-9 * sc:
            a, r = np.lexsort(arrows.round(7)), np.lexsort(rows.round(7))
            i = int(np.argmax(np.abs(arrows[:, a] - rows[:, r]).max(axis=0)))
            require(np.abs(arrows[:, a] - rows[:, r]).max() <= 2e-6 * sc, "%s view: a row runs from %s to %s, the arrow in its place from %s to %s", spec["view"], rows[:2, r][:, i].tolist(), rows[2:, r][:, i].tolist(), arrows[:2, a][:, i].tolist(), arrows[2:, a][:, i].tolist())
            arrows, cols, df = arrows[:, a], cols[a], df.iloc[r]
            rows = rows[:, r]
        tips(fig, ax, qs[0], rows if len(qs) == 1 else None, ctx)
        src = source_of(df, s, n)
        if spec["color"] == "wavelength":
            for k in range(len(df)):
                e = c27.ref(float(df["wavelength"].iloc[k]), 0.8)
                require(np.abs(cols[k, :3] - e).max() < 1e-4, "row %d has wavelength %g: its arrow is %s, expected %s", k, df["wavelength"].iloc[k], cols[k].tolist(), e)
        elif spec["color"] == "source":
            seen = {}
            for k in range(len(df)):
                c = tuple(cols[k].tolist())
                require(np.isfinite(c).all() and seen.setdefault(int(src[k]), c) == c, "two rows of source %d are drawn in %s and %s", src[k], seen.get(int(src[k])), c)
            if len(s.listed) <= 12:
                require(len(set(seen.values())) == len(seen), "rows of different sources have the same colour: %s", seen)
        else:
            require(np.abs(cols - cols[0]).max() == 0, "without a colour function the arrows have several colours")
        require(np.all(cols[:, 3] == 1), "transparent arrows")
        ctx.label("arrows", n_arrows)
        ctx.nt(len(set(src.tolist())) > 1)
    finally:
        plt.close("all")


def tips(fig, ax, q, rows, ctx):
    """Where the drawn arrows end, in pixels."""
    if rows is None:
        return
    fig.canvas.draw()
    start = ax.transData.transform(rows[:2].T)
    end = ax.transData.transform(rows[2:].T)
    off = q.get_offset_transform().transform(np.asarray(q.get_offsets()))
    paths = q.get_paths()
    m = q.get_transform()
    wide = 0.01 * float(np.linalg.norm(ax.transData.transform((1.0, 0.0)) - ax.transData.transform((0.0, 0.0))))
    for k in range(rows.shape[1]):
        length = np.linalg.norm(end[k] - start[k])
        if length < max(8, 2 * wide) or length > 1e5:  # (arrows shorter than their width are drawn as dots)
            continue
        v = m.transform(np.asarray(paths[k].vertices)) + off[k]
        far = v[int(np.argmax(np.linalg.norm(v - start[k], axis=1)))]
        require(np.linalg.norm(off[k] - start[k]) < 0.5, "the arrow of row %d is drawn from pixel %s, the ray starts at pixel %s", k, off[k].tolist(), start[k].tolist())
        require(np.linalg.norm(far - end[k]) < 1.5 + 0.01 * length, "the arrow of row %d is drawn to pixel %s, the ray ends at pixel %s", k, far.tolist(), end[k].tolist())
        ctx.label("drawn")


# the reciprocal of 49, 98, 103, 107 ... times the number itself is not 1 in floating point
COUNT = gen.weighted((5, st.integers(1, 7)), (1, st.sampled_from([49, 98, 103, 107, 161])), (1, st.integers(8, 200)))


def sources(mx):
    kinds = st.one_of(system.lib_source(), st.fixed_dictionaries(dict(kind=st.sampled_from(["line", "wedge"]), p=gen.milli(1, 4), wl=st.none(), ops=st.just([]))))
    return st.one_of(st.lists(kinds, min_size=1, max_size=mx), st.lists(kinds, min_size=1, max_size=mx), st.lists(kinds, min_size=mx + 1, max_size=12))


def base(mx, **kw):
    return st.fixed_dictionaries(dict(
        comps=st.tuples(st.lists(system.comp(system.mats(["glass", "mirror", "mirror", "absorber"]), depth=1, lens=True), min_size=1, max_size=2), st.one_of(st.none(), system.room()))
        .map(lambda t: t[0] + ([t[1]] if t[1] is not None else [])),
        sources=sources(mx), n=COUNT, limit=st.integers(1, 6), bare=st.booleans(),
        again=st.one_of(st.none(), st.tuples(st.integers(0, 11), st.integers(0, 12)).map(list)), **kw))


LACT = st.one_of(st.tuples(st.just("n"), st.one_of(st.integers(1, 12), COUNT)).map(list), st.tuples(st.just("limit"), st.integers(1, 5)).map(list), st.sampled_from([["ids"], ["empty"], ["back"], ["trace"]]),
                 st.tuples(st.just("move"), gen.MOVE_OP).map(list), st.tuples(st.just("rays"), st.integers(1, 9)).map(list), st.tuples(st.just("other"), st.integers(1, 9)).map(list))
PACT = st.one_of(st.tuples(st.just("n"), st.one_of(st.integers(1, 12), COUNT)).map(list), st.tuples(st.just("limit"), st.integers(1, 5)).map(list), st.sampled_from([["ids"], ["trace"], ["reset"]]), st.tuples(st.just("move"), gen.MOVE_OP).map(list))

FACETS = [
    Facet("labels", lambda: base(5, acts=st.lists(LACT, max_size=4)), check_labels, quick=480, thorough=12000, shards=8, rule="traces with 1-5 sources, setting changes, then labels against the sources' wavelengths"),
    Facet("plot", lambda: base(5, acts=st.lists(PACT, max_size=3), trace=st.integers(0, 5).map(bool), view=st.sampled_from(["xy", "xz"]), color=st.sampled_from([None, "wavelength", "source", "source"]), axis=st.booleans(), default=st.booleans(), shaded=st.booleans()),
          check_plot, quick=400, thorough=8000, shards=8, rule="arrows of the plot against the rows, and where they are drawn"),
]
