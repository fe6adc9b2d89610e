"""Reference solids of the finished components, from their documentation (optical axis = x)."""
import math

import numpy as np

from . import geo
from .geo import Leaf, Node

AX = np.array([[0.0, 0, 1, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1]])  # local x,y,z -> world y,z,x


def corner(ap):
    """Largest distance of an aperture point from its centre as the documentation's bounding measure."""
    return abs(ap) / 2 if not isinstance(ap, (list, tuple)) else math.hypot(ap[0], ap[1]) / 2


def slab(ap, x0, x1, off=(0.0, 0.0), tag="slab"):
    """Aperture outline extruded from x0 to x1.  ap: d | [y, z] | [-y, -z]."""
    t = geo.op_matrix(["move", 0.0, off[0], off[1]])
    if not isinstance(ap, (list, tuple)):
        return Leaf("cyl", [abs(ap) / 2, x0, x1], t @ AX, tag=tag)
    y, z = abs(ap[0]), abs(ap[1])
    if ap[0] > 0:
        return Leaf("box", [x0, -y / 2, -z / 2, x1, y / 2, z / 2], t, tag=tag)
    return Leaf("cyl", [1.0, x0, x1], t @ AX @ np.diag([y / 2, z / 2, 1.0, 1.0]), tag=tag)


def ball(r, cx, tag="ball"):
    return Leaf("sphere", [abs(r)], geo.op_matrix(["mx", cx]), tag=tag)


def sag_max(r, ap):
    return abs(r) - math.sqrt(r * r - corner(ap) ** 2)


def thick(r1, r2, t, ap):
    """x from -t/2 (first vertex) to t/2; r1 > 0 and r2 < 0 are convex."""
    pad = 0.3 + t
    x0 = -t / 2 if math.isinf(r1) else (-t / 2 - pad if r1 > 0 else -t / 2 - sag_max(r1, ap) - 0.02 * abs(r1))
    x1 = t / 2 if math.isinf(r2) else (t / 2 + pad if r2 < 0 else t / 2 + sag_max(r2, ap) + 0.02 * abs(r2))
    node = slab(ap, x0, x1)
    if not math.isinf(r1):
        node = Node("intersect" if r1 > 0 else "difference", node, ball(r1, -t / 2 + r1, "s1"))
    if not math.isinf(r2):
        node = Node("intersect" if r2 < 0 else "difference", node, ball(r2, t / 2 + r2, "s2"))
    return node


def prism_planes(s, w):
    h = s * math.sqrt(3) / 2
    c, q = math.sqrt(3) / 2, 0.5
    return [((0, 0, -1.0), h / 2), ((c, 0, q), h / 4), ((-c, 0, q), h / 4), ((0, 1.0, 0), w / 2), ((0, -1.0, 0), w / 2)]


class Poly(Leaf):
    """A convex polyhedron as one reference leaf: list of (outward normal, offset)."""

    def __init__(self, planes, m=None, tag="poly"):
        super().__init__("poly", planes, np.eye(4) if m is None else m, tag)

    def _clip(self, o, d, grow):
        tin, tout, fi, fo = -math.inf, math.inf, None, None
        for k, (n, c) in enumerate(self.p):
            c = c * (1 + grow)
            no, nd = float(np.dot(n, o)), float(np.dot(n, d))
            if abs(nd) < 1e-13:
                if no > c:
                    return None
                continue
            t = (c - no) / nd
            if nd > 0:
                if t < tout:
                    tout, fo = t, k
            elif t > tin:
                tin, fi = t, k
        return None if tin > tout else (tin, tout, fi, fo)

    def interval(self, o, d, grow=0.0):
        return self._clip(*self.local_ray(o, d), grow)

    def robust(self, o, d, eps=geo.EPS):
        lo, ld = self.local_ray(o, d)
        mid, big, small = self._clip(lo, ld, 0.0), self._clip(lo, ld, eps), self._clip(lo, ld, -eps)
        if mid is None and big is None:
            return "miss", None
        if mid is None or big is None or small is None:
            return "marginal", None
        size = max(c for _, c in self.p)
        for t, face in ((mid[0], mid[2]), (mid[1], mid[3])):
            # where it passes through an edge or a corner, the cuts that made them may be counted as extra crossings
            if face is None or any(k != face and abs(float(np.dot(n, lo + t * ld)) - c) < max(eps, 1e-9) * size for k, (n, c) in enumerate(self.p)):
                return "marginal", None
        return "hit", (mid[0], mid[1], abs(big[0] - small[0]), abs(big[1] - small[1]))

    def contains(self, x, grow=0.0):
        mi = self.minv
        y = mi[:3, :3] @ x + mi[:3, 3]
        return all(float(np.dot(n, y)) <= c * (1 + grow) for n, c in self.p)

    def world_normal(self, x, edge=1e-3):
        mi = self.minv
        y = mi[:3, :3] @ x + mi[:3, 3]
        ds = sorted((abs(c - float(np.dot(n, y))), k) for k, (n, c) in enumerate(self.p))
        if ds[1][0] < edge * max(c for _, c in self.p):
            return None
        g = mi[:3, :3].T @ np.array(self.p[ds[0][1]][0])
        return g / np.linalg.norm(g)
