"""C12: pin restores what it pinned."""
import numpy as np

from vlib import build, gen, geo, rays
from vlib.core import Facet, fail, require, sut
from hypothesis import strategies as st

import pyrayt
import pyrayt.components as pc
from tinygfx import g3d as cg

RULE = "non-trivial = some pinned object was displaced inside its context"


class Boom(Exception):
    pass


class Obj:
    def __init__(self, spec):
        self.spec = spec
        k = spec["t"]
        self.parts = {}  # name -> object of the code under test
        self.ref = {}  # name -> reference matrix
        self.tree = None
        if k == "tree":
            self.built = build.Built(spec["tree"])
            for p, o in self.built.nodes.items():
                self.parts[p] = o
        elif k == "group":
            members = [build.Built(s) for s in spec["members"]]
            inner = cg.ObjectGroup([m.root for m in members])
            self.parts[""] = cg.ObjectGroup([inner, cg.Sphere(1)]) if spec["nest"] else inner
            if spec["nest"]:
                self.parts["in"] = inner
                self.parts["extra"] = self.parts[""][1]
            for i, m in enumerate(members):
                for p, o in m.nodes.items():
                    self.parts["%d%s" % (i, p)] = o
        else:
            self.parts[""] = {"line": lambda: pc.LineOfRays(2), "cone": lambda: pc.ConeOfRays(10), "camera": lambda: cg.OrthographicCamera(4, 2, 1),
                              "lens": lambda: pc.biconvex_lens(5, 5, 1), "world": cg.WorldObject}[k]()
        self.read()

    def read(self):
        for p, o in self.parts.items():
            self.ref[p] = np.array(o.get_world_transform(), dtype=float)

    def apply(self, op):
        t = geo.op_matrix(op)
        if any(np.linalg.svd((t @ m)[:3, :3], compute_uv=False)[0] > 30 or np.linalg.svd((t @ m)[:3, :3], compute_uv=False)[-1] < 0.03 for m in self.ref.values()):
            return
        geo.apply_op(self.parts[""], op)
        for p in self.ref:
            self.ref[p] = t @ self.ref[p]

    def check(self, what):
        for p, o in self.parts.items():
            m = self.ref[p]
            w = np.asarray(o.get_world_transform(), dtype=float)
            tol = 1e-7 * (1 + np.abs(m).max())
            require(np.abs(w - m).max() <= tol, "%s: '%s' is placed by %s, expected %s", what, p, w.tolist(), m.tolist())
            require(np.abs(np.asarray(o.get_position()) - m[:, 3]).max() <= tol, "%s: position %s, expected %s", what, np.asarray(o.get_position()).tolist(), m[:, 3].tolist())
            z = m[:3, 2] / np.linalg.norm(m[:3, 2])
            require(np.abs(np.asarray(o.get_orientation())[:3] - z).max() <= 1e-6, "%s: orientation %s, expected %s", what, np.asarray(o.get_orientation()).tolist(), z.tolist())
            inv = np.linalg.inv(m)
            require(np.abs(np.asarray(o.get_object_transform()) - inv).max() <= 1e-6 * (1 + np.abs(inv).max()), "%s: object transform %s, expected %s", what, np.asarray(o.get_object_transform()).tolist(), inv.tolist())


def check(spec, ctx):
    with sut("create"):
        objs = [Obj(s) for s in spec["objs"]]
    n = len(objs)
    disp = [0]

    def everything(what):
        with sut(what):
            for i, o in enumerate(objs):
                o.check("%s: object %d (%s)" % (what, i, o.spec["t"]))

    def run(body, depth):
        for act in body:
            if act[0] == "op":
                with sut("operation"):
                    objs[act[1] % n].apply(act[2])
            else:
                block(act[1], depth + 1)

    def block(b, depth):
        idx = [i % n for i in b["pin"]]
        # a pinned member of a pinned container may be listed before or after it
        extra = []
        for i in idx:
            parts = sorted(p for p in objs[i].parts if p)
            if b["members"] and parts:
                extra.append(objs[i].parts[parts[b["members"] % len(parts)]])
        todo = [objs[i].parts[""] for i in idx]
        todo = extra + todo if b["first"] else todo + extra
        with sut("pin"):
            context = pyrayt.pin(*todo)
        enter(b, depth, context, todo, idx)
        if b.get("again") is not None:  # the same pin object used a second time, from another state
            with sut("operation"):
                for i, op in b["again"]:
                    objs[i % n].apply(op)
            ctx.label("again")
            enter(b, depth, context, todo, idx)

    def enter(b, depth, context, todo, idx):
        snap = {i: {p: m.copy() for p, m in objs[i].ref.items()} for i in idx}
        reached = False
        err = None
        try:
            with context as got:
                require(len(got) == len(todo) and all(x is y for x, y in zip(got, todo)), "the context does not provide the pinned objects")
                run(b["body"], depth)
                for i in idx:
                    if any(np.abs(objs[i].ref[p] - snap[i][p]).max() > 1e-6 for p in snap[i]):
                        disp[0] += 1
                everything("inside the context")
                if b["exc"]:
                    raise Boom("x%d" % depth)
            reached = True
        except Boom as e:
            err = e
        except AssertionError:
            raise
        except Exception as e:
            fail("leaving the context raised %s: %s", type(e).__name__, e)
        if b["exc"]:
            require(err is not None and str(err) == "x%d" % depth, "the exception raised inside does not reach the caller unchanged: %r", err)
            ctx.label("exception")
        else:
            require(reached, "exception %r out of nowhere", err)
        for i in idx:
            for p in snap[i]:
                objs[i].ref[p] = snap[i][p]
        everything("after leaving the context" + (" by an exception" if b["exc"] else ""))

    trees = []
    for i, o in enumerate(objs):
        if o.spec["t"] == "tree":
            ref = geo.build_ref(o.spec["tree"])
            O, D = rays.resolve(ref, spec["rays"])
            keep = [j for j in range(O.shape[1]) if geo.crossings(ref, O[:, j], D[:, j]) is not None]
            with sut("intersect"):
                h = np.asarray(o.parts[""].intersect(rays.homogeneous(O, D))[0])
            trees.append((i, O, D, keep, h, np.array(o.ref[""])))
    b = spec["block"]
    block(b, 1)
    pinned = {i % n for i in b["pin"]}
    for i, O, D, keep, h, m in trees:
        if i not in pinned or b.get("again"):
            continue
        with sut("intersect"):
            h2 = np.asarray(objs[i].parts[""].intersect(rays.homogeneous(O, D))[0])
        for j in keep:
            a, c = h[:, j][np.isfinite(h[:, j])], h2[:, j][np.isfinite(h2[:, j])]
            require(len(a) == len(c) and np.allclose(a, c, rtol=1e-5, atol=1e-5), "a ray meets the pinned object at %s, before it was %s", c.tolist(), a.tolist())
            ctx.label("ray")
    ctx.label("depth-%d" % depth_of(b))
    ctx.nt(disp[0] > 0)


def depth_of(b):
    return 1 + max([depth_of(a[1]) for a in b["body"] if a[0] == "block"] or [0])


# displacements so small that a lazy restore would leave them
SMALL = st.sampled_from([["sall", 1.000005], ["sall", 0.999992], ["scale", 1.000008, 1, 1], ["rx", 4e-4], ["ryr", -2e-6], ["move", 5e-6, 0, 0], ["move", 0, -8e-6, 2e-6]])


def blocks(depth):
    op = st.tuples(st.just("op"), st.integers(0, 3), gen.weighted((6, gen.an_op(shear="mirror")), (1, SMALL))).map(list)
    act = op if depth == 0 else gen.weighted((3, op), (1, st.tuples(st.just("block"), blocks(depth - 1)).map(list)))
    return st.fixed_dictionaries(dict(
        pin=st.lists(st.integers(0, 3), min_size=0 if depth < 2 else 1, max_size=4), members=st.sampled_from([0, 0, 1, 2, 3]), first=st.booleans(),
        again=st.one_of(st.none(), st.none(), st.lists(st.tuples(st.integers(0, 3), gen.an_op(shear="mirror")).map(list), max_size=2)),
        exc=st.sampled_from([False, False, True]), body=st.lists(act, min_size=1, max_size=4)))


def strat():
    t = st.one_of(gen.tree(depth=2, planes=True), gen.leaf(shear="mirror"))
    obj = st.one_of(
        t.map(lambda x: dict(t="tree", tree=x)), t.map(lambda x: dict(t="tree", tree=x)),
        st.tuples(st.lists(t, min_size=1, max_size=2), st.booleans()).map(lambda x: dict(t="group", members=x[0], nest=x[1])),
        st.sampled_from(["line", "cone", "camera", "lens", "world"]).map(lambda k: dict(t=k)))
    return st.fixed_dictionaries(dict(objs=st.lists(obj, min_size=1, max_size=3), block=blocks(2), rays=gen.ray_specs(2, 4)))


def check_many(spec, ctx):
    """Dozens of objects, all or every other of them pinned."""
    with sut("create"):
        objs = [[lambda: cg.Sphere(1), lambda: cg.WorldObject(), lambda: pc.LineOfRays(1), lambda: pc.baffle(1), lambda: cg.csg.union(cg.Sphere(1), cg.Sphere(2))][(i + spec["first"]) % 5]() for i in range(spec["n"])]
    k = len(spec["ops"])
    ref = []
    with sut("operation"):
        for i, o in enumerate(objs):
            geo.apply_op(o, spec["ops"][i % k])
            ref.append(np.array(o.get_world_transform(), dtype=float))
    todo = [i for i in range(len(objs)) if not spec["half"] or i % 2]
    with sut("pin"):
        context = pyrayt.pin(*[objs[i] for i in todo])
        try:
            with context:
                for i, o in enumerate(objs):
                    op = spec["ops"][(i + 1) % k]
                    geo.apply_op(o, op)
                    if i not in todo:
                        ref[i] = geo.op_matrix(op) @ ref[i]
                if spec["exc"]:
                    raise Boom()
        except Boom:
            pass
        for i, o in enumerate(objs):
            w = np.asarray(o.get_world_transform(), dtype=float)
            require(np.abs(w - ref[i]).max() <= 1e-7 * (1 + np.abs(ref[i]).max()), "object %d of %d (%s) is placed by %s after the context, expected %s", i, len(objs), "pinned" if i in todo else "not pinned", w.tolist(), ref[i].tolist())
    ctx.nt(True)


FACETS = [
    Facet("many", lambda: st.fixed_dictionaries(dict(n=st.integers(5, 30), first=st.integers(0, 4), ops=st.lists(gen.an_op(shear="mirror"), min_size=2, max_size=5), half=st.booleans(), exc=st.booleans())), check_many,
          quick=100, thorough=3000, rule="5 to 30 objects, all or every other pinned"),
    Facet("contexts", strat, check, quick=1600, thorough=50000, shards=8, rule="nested contexts over 1-3 objects with operations and exceptions", units=()),
]
