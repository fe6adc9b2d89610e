"""C22: a reused tracer against fresh tracers."""
import numpy as np

from vlib import build, gen, geo, sim, system
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

import pyrayt
import pyrayt.materials as matl

RULE = "non-trivial = at least two traces on one tracer with a configuration change or failure in between, the last with rows"


class Boom(Exception):
    pass


class BoomComponent:
    """A component whose intersection fails."""
    surface_ids = ()

    def intersect(self, rays):
        raise Boom()


class BoomMaterial(matl.TracableMaterial):
    def trace(self, surface, ray_set):
        raise Boom()


class BoomSource(sim.FixedSource):
    armed = False

    def _local_ray_generation(self, n):
        if self.armed:
            raise Boom()
        return super()._local_ray_generation(n)


def frame(df):
    return np.array(df[sim.COLS], dtype=float)


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def container(kind, comps):
    return comps[0] if kind == "single" and len(comps) == 1 else tuple(comps) if kind == "tuple" else list(comps)


def check(spec, ctx):
    s = system.System(spec)
    pool, srcs = s.objs, list(s.sources)
    bad_src = BoomSource([[0.0], [50.0], [50.0]], [[0.0], [1.0], [0.0]])
    srcs.append(bad_src)
    n, limit = spec["n"], spec["limit"]
    # the tracer starts with some of the components, so that loading can bring in new ones
    cur = [pool[j] for j in sorted(set(j % len(pool) for j in spec["first"]))]
    arg = container(spec["start"], cur)
    live = arg if isinstance(arg, list) else None  # the list the tracer shares with the user
    with sut("create tracer"):
        t = pyrayt.RayTracer(srcs, arg, rays_per_source=n, generation_limit=limit)
    last = np.zeros((0, len(sim.COLS)))  # None = unknown after a failure
    traces = changes = rows = 0
    changed = False
    for i, act in enumerate(list(spec["acts"]) + [["trace"]]):
        k = act[0]
        what = "step %d %s" % (i, act)
        with sut(what):
            if k == "trace":
                if not cur:
                    continue
                df = t.trace()
                got = frame(df)
                fresh = pyrayt.RayTracer(list(srcs), list(cur), rays_per_source=n, generation_limit=limit)
                exp_df = fresh.trace()
                exp = frame(exp_df)
                require(list(df.columns) == list(exp_df.columns), "%s: columns %s, a fresh tracer gives %s", what, list(df.columns), list(exp_df.columns))
                require(same(got, exp), "%s after %s: rows %s, a fresh tracer with the same configuration gives %s", what, spec["acts"][:i], got.tolist(), exp.tolist())
                last = got.copy()
                traces += 1
                changes += changed
                rows = len(got)
                changed = False
            elif k == "reset":
                t.reset()
                require(len(t.get_results()) == 0, "%s: results are not empty after a reset", what)
                last = np.zeros((0, len(sim.COLS)))
                changed = True
            elif k == "load":
                pick = sorted(set(j % len(pool) for j in act[1]))
                cur = [pool[j] for j in pick]
                if act[3]:
                    cur.reverse()
                arg = container(act[2], cur)
                live = arg if isinstance(arg, list) else None
                t.load_components(arg)
                changed = True
            elif k == "edit" and live is not None:
                lst = t.get_system() if act[2] else live
                if act[1] == "append":
                    o = pool[act[3] % len(pool)]
                    if o in cur:
                        continue
                    lst.append(o)
                    cur.append(o)
                elif act[1] == "pop" and len(cur) > 1:
                    j = act[3] % len(cur)
                    lst.pop(j)
                    cur.pop(j)
                elif act[1] == "insert":
                    o = pool[act[3] % len(pool)]
                    if o in cur:
                        continue
                    lst.insert(0, o)
                    cur.insert(0, o)
                elif act[1] == "reverse":
                    lst.reverse()
                    cur.reverse()
                changed = True
            elif k == "move":
                geo.apply_op(pool[act[1] % len(pool)], act[2])
                changed = True
            elif k == "movesrc":
                geo.apply_op(s.sources[act[1] % len(s.sources)], act[2])
                changed = True
            elif k == "wl":
                s.sources[act[1] % len(s.sources)].wavelength = act[2]
                changed = True
            elif k == "mat":
                ids = pool[act[1] % len(pool)].surface_ids
                ids[act[2] % len(ids)][1].material = build.material(act[3])
                changed = True
            elif k == "rays":
                n = act[1]
                t.set_rays_per_source(n)
                changed = True
            elif k == "limit":
                limit = act[1]
                t.set_generation_limit(limit)
                changed = True
            elif k == "source_ids":
                if last is None or not traces or len(last) == 0:
                    continue
                t.calculate_source_ids()
            elif k == "scribble":
                df = t.get_results()
                if len(df):
                    df.loc[:, "x0"] = 77.0
                    df.drop(df.index[0], inplace=True)
                    last = None
            elif k == "fail":
                last = None
                changed = True
                if act[1] == "component":
                    t.load_components([BoomComponent()] + cur)
                    fails(t, what)
                    t.load_components(container("list", cur))
                    live = None
                elif act[1] == "material":
                    ids = pool[act[2] % len(pool)].surface_ids
                    surf = ids[act[2] % len(ids)][1]
                    old = surf.material
                    surf.material = BoomMaterial()
                    fails(t, None)
                    surf.material = old
                else:
                    bad_src.armed = True
                    fails(t, what)
                    bad_src.armed = False
            # the getters at all times
            require(t.get_rays_per_source() == n, "after %s: get_rays_per_source gives %s, configured %s", what, t.get_rays_per_source(), n)
            require(t.get_generation_limit() == limit, "after %s: get_generation_limit gives %s, configured %s", what, t.get_generation_limit(), limit)
            sysl = t.get_system()
            sysl = list(sysl) if hasattr(sysl, "__iter__") else [sysl]
            require(len(sysl) == len(cur) and all(a is b for a, b in zip(sysl, cur)), "after %s: get_system gives %s, loaded %s", what, sysl, cur)
            if last is not None:
                require(same(frame(t.get_results()), last), "after %s: get_results differs from the last trace", what)
        ctx.label(k)
    ctx.nt(traces > 1 and changes > 0 and rows > 0)


def fails(t, what):
    try:
        t.trace()
    except Boom:
        return
    require(what is None, "%s: an error raised inside the trace does not reach the caller", what)


MAT = system.mats(["glass", "mirror", "absorber", "loss"])
ACT = st.one_of(
    st.just(["trace"]), st.just(["trace"]), st.just(["reset"]), st.just(["source_ids"]), st.just(["scribble"]),
    st.tuples(st.just("load"), st.lists(st.integers(0, 9), min_size=1, max_size=4), st.sampled_from(["list", "tuple", "single"]), st.booleans()).map(list),
    st.tuples(st.just("edit"), st.sampled_from(["append", "pop", "insert", "reverse"]), st.booleans(), st.integers(0, 9)).map(list),
    st.tuples(st.just("move"), st.integers(0, 9), gen.an_op()).map(list),
    st.tuples(st.just("movesrc"), st.integers(0, 9), st.one_of(gen.RIGID_OP)).map(list),
    st.tuples(st.just("wl"), st.integers(0, 9), gen.wavelength()).map(list),
    st.tuples(st.just("mat"), st.integers(0, 9), st.integers(0, 9), MAT).map(list),
    st.tuples(st.just("rays"), st.integers(1, 7)).map(list), st.tuples(st.just("limit"), st.integers(1, 8)).map(list),
    st.tuples(st.just("fail"), st.sampled_from(["component", "material", "source"]), st.integers(0, 9)).map(list))


def strat():
    base = system.scene(mat=MAT, ncomp=(2, 4), depth=1, nsrc=(1, 2), source=st.one_of(system.fixed_source(1, 4), system.lib_source()), limit=st.integers(1, 6))
    return st.tuples(base, st.sampled_from(["list", "list", "tuple", "single"]), st.lists(ACT, min_size=3, max_size=12), st.lists(st.integers(0, 9), min_size=1, max_size=3)).map(lambda t: dict(t[0], start=t[1], acts=t[2], first=t[3]))


def check_created(spec, ctx):
    """However a tracer is created (defaults, names, single objects, groups), it traces what a list-made tracer traces."""
    s = system.System(spec)
    srcs, comps = list(s.sources), list(s.objs)
    n, limit, given = spec["n"], spec["limit"], spec["given"]
    kw = {}
    if given & 1:
        kw["rays_per_source"] = n
    if given & 2:
        kw["generation_limit"] = limit
    en, el = kw.get("rays_per_source", 10), kw.get("generation_limit", 10)

    def wrap(kind, items):
        if kind == "single" and len(items) == 1:
            return items[0]
        if kind == "group":
            from tinygfx import g3d as cg
            return cg.ObjectGroup(items)
        return tuple(items) if kind == "tuple" else np.array(items, dtype=object) if kind == "array" else list(items)
    with sut("create tracer"):
        a, b = wrap(spec["how"][0], srcs), wrap(spec["how"][1], comps)
        if spec["named"]:
            t = pyrayt.RayTracer(components=b, sources=a, **kw)
        elif given == 3:
            t = pyrayt.RayTracer(a, b, n, limit)
        else:
            t = pyrayt.RayTracer(a, b, **kw)
        require(t.get_rays_per_source() == en and t.get_generation_limit() == el, "a new tracer made with %s has %s rays per source and a generation limit of %s", kw, t.get_rays_per_source(), t.get_generation_limit())
        require(len(t.get_results()) == 0, "a new tracer already has %d results", len(t.get_results()))
        got = frame(t.trace())
        f = pyrayt.RayTracer(srcs, comps, 1, 1)
        f.set_rays_per_source(en)
        f.set_generation_limit(el)
        exp = frame(f.trace())
    require(same(got, exp), "a tracer created with %s from %s gives other rows than one made from lists: %s rows, expected %s", kw, spec["how"], got.shape[0], exp.shape[0])
    ctx.label("rows", len(got))
    ctx.label("limit-reached", int((exp[:, 0] >= el - 1).any()) if len(exp) else 0)
    ctx.nt(len(got) > 0 and (given < 3 or spec["how"] != ["list", "list"]))


def created():
    base = system.scene(mat=st.sampled_from(["mirror", ["glass", "BK7"]]), ncomp=(1, 2), depth=1, nsrc=(1, 2), source=st.one_of(system.fixed_source(1, 4), system.lib_source()), limit=st.integers(1, 12))
    how = st.tuples(st.sampled_from(["list", "single", "tuple", "group", "array"]), st.sampled_from(["list", "single", "tuple", "group"])).map(list)
    return st.tuples(base, how, st.integers(0, 3), st.booleans()).map(lambda t: dict(t[0], how=t[1], given=t[2], named=t[3]))


FACETS = [
    Facet("created", created, check_created, quick=300, thorough=6000, shards=4, rule="ways of creating a tracer: omitted settings, single objects, tuples, groups"),
    Facet("history", strat, check, quick=1500, thorough=40000, shards=8, rule="3-12 calls on one tracer: traces, resets, loads, list edits, moves, new materials, settings, failures"),
]
