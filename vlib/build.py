"""Builds objects of the code under test from specs."""
import numpy as np

from . import env  # noqa: F401
from . import geo

import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl
from tinygfx import g3d as cg
from tinygfx.g3d.materials import gooch
from tinygfx.g3d.materials.color import RGBAColor


def raise_ids(least=70000):
    """Uses up object numbers, as a long session does."""
    for _ in range(least):
        if cg.world_objects.CountedObject().get_id() >= least:
            return


class Attenuator(matl.TracableMaterial):
    """User-defined material: passes rays straight through with their intensity scaled."""

    def __init__(self, factor):
        super().__init__()
        self.factor = factor

    def trace(self, surface, ray_set):
        ray_set.intensity = ray_set.intensity * self.factor
        return ray_set


class HalfMirror(matl.TracableMaterial):
    """User-defined material: reflects with a loss."""

    def __init__(self, factor):
        super().__init__()
        self.factor = factor

    def trace(self, surface, ray_set):
        normals = surface.get_world_normals(ray_set.rays[0])
        d = ray_set.rays[1]
        ray_set.rays[1] = d - 2 * normals * np.sum(d * normals, axis=0)
        ray_set.intensity = ray_set.intensity * self.factor
        return ray_set


def material(m):
    """Material specs: 'absorber', 'mirror', ['n', index], ['glass', name], ['sell', b1..c3], ['att', f]."""
    if m is None:
        return None
    if m == "absorber":
        return matl.absorber
    if m == "mirror":
        return matl.mirror
    if m[0] == "n":
        return matl.BasicRefractor(m[1])
    if m[0] == "glass":
        return matl.glass[m[1]]
    if m[0] == "sell":
        return matl.SellmeierRefractor(*m[1:7])
    if m[0] == "att":
        return Attenuator(m[1])
    if m[0] == "half":
        return HalfMirror(m[1])
    if m[0] == "gooch":
        return getattr(gooch, m[1])
    if m[0] == "flat":  # one colour at any angle
        c = RGBAColor(*m[1:4])
        return gooch.GoochMaterial(base_color=c, warm_color=c, cool_color=c)
    raise ValueError(m)


def leaf(spec):
    k, p = spec["kind"], spec["p"]
    kw = {}
    if spec.get("mat") is not None:
        kw["material"] = material(spec["mat"])
    if k == "sphere":
        o = cg.Sphere(p[0], **kw)
    elif k == "cyl":
        o = cg.Cylinder(p[0], p[1], p[2], **kw)
    elif k == "par":
        o = cg.Paraboloid(p[0], p[1], **kw)
    elif k == "box":
        o = cg.Cuboid(tuple(p[:3]), tuple(p[3:]), **kw)
    elif k == "plane":
        o = cg.XYPlane(p[0], p[1], **kw)
    else:
        raise ValueError(k)
    return o


class Built:
    """An object tree of the code under test with the nodes by path."""

    def __init__(self, spec):
        self.nodes = {}
        self.spec = spec
        self.root = self._rec(spec, "")
        for path, op in spec.get("later", []):
            geo.apply_op(self.nodes[path], op)

    def _rec(self, s, path):
        if s["k"] == "leaf":
            o = leaf(s)
        else:
            left, right = self._rec(s["l"], path + "l"), self._rec(s["r"], path + "r")
            o = getattr(cg.csg, s["op"])(left, right)
        for op in s.get("ops", []):
            geo.apply_op(o, op)
        self.nodes[path] = o
        return o

    def id_of(self, path):
        return self.nodes[path].get_id()
