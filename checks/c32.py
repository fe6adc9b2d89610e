"""C32: groups and compound objects carry their members."""
import numpy as np

from vlib import build, gen, geo
from vlib.core import Facet, require, sut
from hypothesis import strategies as st

from tinygfx import g3d as cg
import pyrayt.components as pc

RULE = "non-trivial = at least one operation on a container with members and at least one membership change or operation on a member"


class M:
    """Reference: one scene graph node."""

    def __init__(self, obj, kind, m=None):
        self.obj, self.kind, self.ch = obj, kind, []
        self.m = np.eye(4) if m is None else m

    def apply(self, t):
        self.m = t @ self.m
        for c in self.ch:
            c.apply(t)

    def below(self):
        out = [self]
        for c in self.ch:
            out += c.below()
        return out


def check(spec, ctx):
    nodes = []

    def leaf(k):
        with sut("create"):
            o = {0: lambda: cg.Sphere(1.0), 1: lambda: cg.Cuboid(), 2: lambda: pc.LineOfRays(1), 3: lambda: cg.XYPlane(1, 2), 4: lambda: cg.Cylinder(1, 0, 2)}[k]()
        n = M(o, "surface" if k != 2 else "source")
        nodes.append(n)
        return n

    for k in spec["leaves"]:
        leaf(k)
    owned = set()  # members of a compound object
    moved_container = changed = 0

    def contains(a, b):
        return b in a.below()

    for act in spec["acts"]:
        k = act[0]
        if k == "crowd":  # a group with many new members
            mem = [leaf(0 if act[2] else j % 5) for j in range(act[1])]
            with sut("create group"):
                g = cg.ObjectGroup([x.obj for x in mem])
            n = M(g, "group")
            n.ch = mem
            nodes.append(n)
            ctx.label("crowd")
        elif k == "group":
            mem = []
            for i in act[1]:
                n = nodes[i % len(nodes)]
                if n not in mem and not any(contains(x, n) or contains(n, x) for x in mem):
                    mem.append(n)
            with sut("create group"):
                g = cg.ObjectGroup([x.obj for x in mem]) if mem else cg.ObjectGroup()
            n = M(g, "group")
            n.ch = mem
            nodes.append(n)
        elif k == "csg":
            free = [n for n in nodes if n.kind in ("surface", "csg") and n not in owned]
            if len(free) < 2:
                continue
            a = free[act[1] % len(free)]
            free.remove(a)
            b = free[act[2] % len(free)]
            with sut("combine"):
                o = getattr(cg.csg, act[3])(a.obj, b.obj)
            n = M(o, "csg")
            n.ch = [a, b]
            owned.update((a, b))
            nodes.append(n)
        elif k in ("append", "insert", "iadd", "extend"):
            groups = [n for n in nodes if n.kind == "group"]
            if not groups:
                continue
            g = groups[act[1] % len(groups)]
            n = nodes[act[2] % len(nodes)]
            if contains(n, g) or any(contains(c, n) or contains(n, c) for c in g.ch):
                continue
            with sut(k):
                if k == "append":
                    g.obj.append(n.obj)
                    g.ch = g.ch + [n]
                elif k == "insert":
                    g.obj.insert(act[3], n.obj)
                    ch = list(g.ch)
                    ch.insert(act[3], n)
                    g.ch = ch
                elif k == "extend":
                    g.obj.extend([n.obj])
                    g.ch = g.ch + [n]
                else:
                    go = g.obj
                    go += [n.obj]
                    require(go is g.obj, "+= replaces the group")
                    g.ch = g.ch + [n]
            # nested double membership would apply an operation twice to one object: not generated
            if any(len(x.below()) != len(set(x.below())) for x in nodes):
                with sut("remove"):
                    del g.obj[[c is n for c in g.ch].index(True)]
                g.ch = [c for c in g.ch if c is not n]
                continue
            changed += 1
        elif k in ("remove", "pop", "del", "clear"):
            groups = [n for n in nodes if n.kind == "group" and n.ch]
            if not groups:
                continue
            g = groups[act[1] % len(groups)]
            i = act[2] % len(g.ch)
            with sut(k):
                if k == "remove" and g.ch[i].kind != "group":  # lists compare by equality: only for plain members
                    g.obj.remove(g.ch[i].obj)
                elif k == "pop":
                    require(g.obj.pop(i) is g.ch[i].obj, "pop returns another member")
                elif k in ("del", "remove"):
                    del g.obj[i]
                else:
                    g.obj.clear()
            g.ch = [] if k == "clear" else g.ch[:i] + g.ch[i + 1:]
            changed += 1
        elif k == "bad":
            n = nodes[act[1] % len(nodes)]
            try:
                n.obj.scale(*act[2])
            except Exception:
                pass
            else:
                require(False, "scaling by %s is accepted", act[2])
            ctx.label("rejected")
        else:
            n = nodes[act[1] % len(nodes)]
            t = geo.op_matrix(act[2])
            big = max(np.abs(np.linalg.svd((t @ x.m)[:3, :3], compute_uv=False)).max() for x in n.below())
            small = min(np.abs(np.linalg.svd((t @ x.m)[:3, :3], compute_uv=False)).min() for x in n.below())
            if big > 30 or small < 0.03:
                continue
            with sut("operation"):
                r = geo.apply_op(n.obj, act[2])
            require(r is n.obj, "%s does not return the object", act[2])
            n.apply(t)
            if n.ch:
                moved_container += 1
            else:
                changed += 1
            ctx.label("op-on-" + n.kind)
        for i, n in enumerate(nodes):
            with sut("state"):
                w = np.asarray(n.obj.get_world_transform(), dtype=float)
                require(np.abs(w - n.m).max() <= 1e-9 * (1 + np.abs(n.m).max()), "after %s: %s %d is at %s, expected %s", act, n.kind, i, w.tolist(), n.m.tolist())
                if n.kind == "group":
                    require(len(n.obj) == len(n.ch) and all(a is b.obj for a, b in zip(n.obj, n.ch)), "after %s the group's members are not the ones put in", act)
                    require(all(n.obj[j] is c.obj for j, c in enumerate(n.ch)) and all(c.obj in n.obj for c in n.ch), "group does not index like a list")
    ctx.nt(moved_container > 0 and changed > 0)


def strat():
    i = st.integers(0, 30)
    mv = st.one_of(gen.an_op(), gen.an_op(), gen.an_op(shear=True))
    act = st.one_of(
        st.tuples(st.just("op"), i, mv).map(list), st.tuples(st.just("op"), i, mv).map(list), st.tuples(st.just("op"), i, mv).map(list),
        st.tuples(st.just("group"), st.one_of(st.lists(i, max_size=3), st.lists(i, max_size=3), st.lists(i, min_size=4, max_size=24, unique=True))).map(list),
        st.tuples(st.just("csg"), i, i, st.sampled_from(["union", "intersect", "difference"])).map(list),
        st.tuples(st.sampled_from(["append", "insert", "iadd", "extend"]), i, i, st.integers(0, 3)).map(list),
        st.tuples(st.sampled_from(["append", "append", "insert"]), i, i, st.integers(0, 3)).map(list),
        st.tuples(st.sampled_from(["remove", "pop", "del", "remove", "clear"]), i, i).map(list),
        st.tuples(st.just("bad"), i, st.sampled_from([[0, 1, 1], [1, -1, 1], [1, 1, 0], [-2, 1, 1]])).map(list))
    start = st.sampled_from([[], [["group", [0, 1]]], [["csg", 0, 1, "union"], ["group", [0, 30]]], [["group", [0]], ["group", [1, 2]]], [["csg", 0, 1, "difference"]],
                             [["group", [0, 1]], ["append", 0, 2, 0]], [["group", list(range(24))]], [["group", list(range(12))], ["op", 30, ["mx", 1.0]]]])
    # many members, moved together (index -1 is the newest node, the group)
    crowd = st.tuples(st.one_of(st.integers(25, 140), st.sampled_from([64, 65, 100, 128, 129])), st.booleans(), gen.an_op()).map(lambda t: [["crowd", t[0], t[1]], ["op", -1, t[2]]])
    start = gen.weighted((9, start), (1, crowd))
    return st.fixed_dictionaries(dict(
        leaves=st.one_of(st.lists(st.integers(0, 4), min_size=2, max_size=4), st.lists(st.integers(0, 4), min_size=2, max_size=4), st.lists(st.integers(0, 4), min_size=5, max_size=24)),
        acts=st.tuples(start, st.lists(act, min_size=3, max_size=12)).map(lambda t: t[0] + t[1])))


FACETS = [Facet("scene", strat, check, quick=2000, thorough=60000, shards=8, rule="up to 14 actions building and moving nested groups and compound objects")]
