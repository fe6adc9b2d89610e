"""Reference geometry, written without the code under test.

Every primitive is a convex set in its own coordinates given by convex constraints, so a line meets it
in one interval, obtained by clipping.  `grow` scales every constraint outwards by a relative amount and is
used to tell robust answers from marginal (grazing) ones.  Compound solids are evaluated by membership of
midpoints between successive leaf events.  All functions are vectorised over rays (o, d: 3 x n)."""
import math

import numpy as np

EPS = 1e-6  # relative growth used for the marginality test
INF = float("inf")


# ---------------------------------------------------------------- transforms
def op_matrix(op):
    k = op[0]
    m = np.eye(4)
    if k == "move":
        m[:3, 3] = op[1:4]
    elif k in ("mx", "my", "mz"):
        m["xyz".index(k[1]), 3] = op[1]
    elif k == "scale":
        m = np.diag([op[1], op[2], op[3], 1.0])
    elif k in ("sx", "sy", "sz"):
        i = "xyz".index(k[1])
        m[i, i] = op[1]
    elif k == "sall":
        m = np.diag([op[1], op[1], op[1], 1.0])
    elif k in ("rx", "ry", "rz", "rxr", "ryr", "rzr"):
        a = op[1] if k.endswith("r") and len(k) == 3 else math.radians(op[1])
        axis = np.zeros(3)
        axis["xyz".index(k[1])] = 1.0
        m[:3, :3] = axis_rotation(axis, a)
    elif k == "tf":
        m = np.array(op[1], dtype=float).reshape(4, 4)
    else:
        raise ValueError(k)
    return m


def axis_rotation(axis, a):
    """Right-handed rotation (Rodrigues)."""
    x, y, z = axis
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + math.sin(a) * k + (1 - math.cos(a)) * (k @ k)


def ops_matrix(ops, start=None):
    m = np.eye(4) if start is None else start
    for op in ops:
        m = op_matrix(op) @ m
    return m


def apply_op(obj, op):
    """Applies one op spec to an object of the code under test; returns what the call returned."""
    k = op[0]
    if k == "move":
        return obj.move(op[1], op[2], op[3])
    if k in ("mx", "my", "mz"):
        return getattr(obj, "move_" + k[1])(op[1])
    if k == "scale":
        return obj.scale(op[1], op[2], op[3])
    if k in ("sx", "sy", "sz"):
        return getattr(obj, "scale_" + k[1])(op[1])
    if k == "sall":
        return obj.scale_all(op[1])
    if k in ("rx", "ry", "rz"):
        return getattr(obj, "rotate_" + k[1])(op[1])
    if k in ("rxr", "ryr", "rzr"):
        return getattr(obj, "rotate_" + k[1])(op[1], "rad")
    if k == "tf":
        return obj.transform(np.array(op[1], dtype=float).reshape(4, 4))
    raise ValueError(k)


# ---------------------------------------------------------------- primitives
# kinds: sphere [r]; cyl [r, h0, h1]; par [f, h]; box [x0,y0,z0,x1,y1,z1]; plane [w, l]
SHEET = 1e-9  # half thickness given to the flat rectangle


def _quad_interval(a, b, c):
    """{t: a t^2 + b t + c <= 0} for a >= 0 (an interval, possibly unbounded or empty)."""
    if a < 1e-28:
        if abs(b) < 1e-14:
            return (-INF, INF) if c <= 0 else (INF, -INF)
        r = -c / b
        return (-INF, r) if b > 0 else (r, INF)
    disc = b * b - 4 * a * c
    if disc < 0:
        return (INF, -INF)
    s = math.sqrt(disc)
    q = -0.5 * (b + math.copysign(s, b))
    r1 = q / a
    r2 = c / q if q != 0 else r1
    return (min(r1, r2), max(r1, r2))


def _slab(o, d, lo, hi):
    if abs(d) < 1e-13:
        return (-INF, INF) if lo <= o <= hi else (INF, -INF)
    a, b = (lo - o) / d, (hi - o) / d
    return (a, b) if a <= b else (b, a)


def constraints(kind, p, o, d, grow=0.0):
    """List of (interval, feature) for one local ray; the leaf is their intersection."""
    g = 1.0 + grow
    ox, oy, oz = o
    dx, dy, dz = d
    if kind == "sphere":
        r = abs(p[0]) * g
        dd = dx * dx + dy * dy + dz * dz
        # closest approach form, independent of the textbook discriminant
        t0 = -(ox * dx + oy * dy + oz * dz) / dd
        mx, my, mz = ox + t0 * dx, oy + t0 * dy, oz + t0 * dz
        h2 = (r * r - (mx * mx + my * my + mz * mz)) / dd
        if h2 < 0:
            return [((INF, -INF), "s")]
        h = math.sqrt(h2)
        return [((t0 - h, t0 + h), "s")]
    if kind == "cyl":
        r, h0, h1 = p[0] * g, p[1], p[2]
        pad = 0.5 * (g - 1.0) * (abs(h1 - h0) + r)
        a = dx * dx + dy * dy
        if a < 1e-26:
            side = (-INF, INF) if ox * ox + oy * oy <= r * r else (INF, -INF)
        else:
            t0 = -(ox * dx + oy * dy) / a
            mx, my = ox + t0 * dx, oy + t0 * dy
            h2 = (r * r - mx * mx - my * my) / a
            side = (t0 - math.sqrt(h2), t0 + math.sqrt(h2)) if h2 >= 0 else (INF, -INF)
        return [(side, "side"), (_slab(oz, dz, min(h0, h1) - pad, max(h0, h1) + pad), "z")]
    if kind == "par":
        f, h = p
        f, pad = f * g, (g - 1.0) * (h + f)
        a = dx * dx + dy * dy
        b = 2 * (ox * dx + oy * dy) - 4 * f * dz
        c = ox * ox + oy * oy - 4 * f * (oz + pad)
        return [(_quad_interval(a, b, c), "par"), (_slab(oz, dz, -INF if False else -1e300, h + pad), "z")]
    if kind == "box":
        out = []
        for i in range(3):
            lo, hi = min(p[i], p[i + 3]), max(p[i], p[i + 3])
            pad = 0.5 * (g - 1.0) * max(hi - lo, 1e-3 + abs(lo) + abs(hi))
            out.append((_slab(o[i], d[i], lo - pad, hi + pad), "xyz"[i]))
        return out
    if kind == "plane":
        w, l = p[0] * g / 2, p[1] * g / 2
        if abs(dz) < 1e-13:
            t = (INF, -INF)
        else:
            t = (-oz / dz, -oz / dz)
        return [(t, "face"), (_slab(ox, dx, -w, w), "x"), (_slab(oy, dy, -l, l), "y")]
    raise ValueError(kind)


def leaf_interval(kind, p, o, d, grow=0.0):
    """(t_in, t_out, feature_in, feature_out) or None."""
    tin, tout, fin, fout = -INF, INF, None, None
    for (a, b), feat in constraints(kind, p, o, d, grow):
        if a > tin:
            tin, fin = a, feat
        if b < tout:
            tout, fout = b, feat
    if not tin <= tout:
        return None
    return tin, tout, fin, fout


def robust_interval(kind, p, o, d, eps=EPS):
    """Returns ('miss', None) / ('hit', (tin, tout, tol_in, tol_out)) / ('marginal', None)."""
    mid = leaf_interval(kind, p, o, d)
    big = leaf_interval(kind, p, o, d, eps)
    small = leaf_interval(kind, p, o, d, -eps)
    if mid is None and big is None:
        return "miss", None
    if mid is None or big is None or small is None:
        return "marginal", None
    tol_in = abs(big[0] - small[0])
    tol_out = abs(big[1] - small[1])
    return "hit", (mid[0], mid[1], tol_in, tol_out)


def inside_local(kind, p, x, grow=0.0):
    """Signed-ish membership: True if local point x lies in the closed primitive grown by `grow`."""
    g = 1.0 + grow
    X, Y, Z = x
    if kind == "sphere":
        return X * X + Y * Y + Z * Z <= (p[0] * g) ** 2
    if kind == "cyl":
        lo, hi = min(p[1], p[2]), max(p[1], p[2])
        pad = 0.5 * (g - 1) * (hi - lo + p[0])
        return X * X + Y * Y <= (p[0] * g) ** 2 and lo - pad <= Z <= hi + pad
    if kind == "par":
        pad = (g - 1) * (p[0] + p[1])
        return X * X + Y * Y <= 4 * p[0] * g * (Z + pad) and Z <= p[1] + pad
    if kind == "box":
        for i, v in enumerate((X, Y, Z)):
            lo, hi = min(p[i], p[i + 3]), max(p[i], p[i + 3])
            pad = 0.5 * (g - 1) * max(hi - lo, 1e-3 + abs(lo) + abs(hi))
            if not lo - pad <= v <= hi + pad:
                return False
        return True
    if kind == "plane":
        return abs(X) <= p[0] * g / 2 and abs(Y) <= p[1] * g / 2 and abs(Z) <= (g - 1) + 1e-12
    raise ValueError(kind)


def extents(kind, p):
    """Local axis-aligned extents: lo(3), hi(3)."""
    if kind == "sphere":
        r = abs(p[0])
        return np.array([-r] * 3), np.array([r] * 3)
    if kind == "cyl":
        return np.array([-p[0], -p[0], min(p[1:])]), np.array([p[0], p[0], max(p[1:])])
    if kind == "par":
        r = math.sqrt(4 * p[0] * p[1])
        return np.array([-r, -r, 0]), np.array([r, r, p[1]])
    if kind == "box":
        a = np.array(p).reshape(2, 3)
        return a.min(0), a.max(0)
    if kind == "plane":
        return np.array([-p[0] / 2, -p[1] / 2, 0]), np.array([p[0] / 2, p[1] / 2, 0])
    raise ValueError(kind)


def surface_features(kind, p, x):
    """List of (distance to feature surface / size, outward gradient) for a local point on the surface,
    ordered by distance: used to pick the face and to detect edge zones."""
    X, Y, Z = x
    if kind == "sphere":
        n = math.sqrt(X * X + Y * Y + Z * Z)
        return [(abs(n - abs(p[0])), np.array(x, dtype=float))]
    if kind == "cyl":
        lo, hi = min(p[1:]), max(p[1:])
        rho = math.hypot(X, Y)
        f = [(abs(rho - p[0]), np.array([X, Y, 0.0])), (abs(Z - lo), np.array([0, 0, -1.0])), (abs(Z - hi), np.array([0, 0, 1.0]))]
    elif kind == "par":
        f = [(abs(X * X + Y * Y - 4 * p[0] * Z) / (2 * math.sqrt(X * X + Y * Y + 4 * p[0] ** 2)), np.array([2 * X, 2 * Y, -4 * p[0]])),
             (abs(Z - p[1]), np.array([0, 0, 1.0]))]
    elif kind == "box":
        f = []
        for i, v in enumerate((X, Y, Z)):
            for s, b in ((-1.0, min(p[i], p[i + 3])), (1.0, max(p[i], p[i + 3]))):
                g = np.zeros(3)
                g[i] = s
                f.append((abs(v - b), g))
    else:
        return [(abs(Z), np.array([0, 0, 1.0]))]
    return sorted(f, key=lambda q: q[0])


# ---------------------------------------------------------------- solids (trees)
class Leaf:
    def __init__(self, kind, p, m, tag=None, mat=None):
        self.kind, self.p, self.tag, self.mat = kind, list(p), tag, mat
        self.m = m
        self._minv = None

    @property
    def minv(self):
        if self._minv is None:
            self._minv = np.linalg.inv(self.m)
        return self._minv

    def leaves(self):
        return [self]

    def transform(self, t):
        self.m = t @ self.m
        self._minv = None

    def local_ray(self, o, d):
        mi = self.minv
        return mi[:3, :3] @ o + mi[:3, 3], mi[:3, :3] @ d

    def interval(self, o, d, grow=0.0):
        lo, ld = self.local_ray(o, d)
        return leaf_interval(self.kind, self.p, lo.tolist(), ld.tolist(), grow)

    def robust(self, o, d, eps=EPS):
        lo, ld = self.local_ray(o, d)
        if self.kind == "plane" and abs(ld[2]) < 1e-6 * np.linalg.norm(ld):
            return "marginal", None
        r = robust_interval(self.kind, self.p, lo.tolist(), ld.tolist(), eps)
        if self.kind == "plane" and r[0] == "hit":  # a flat face has no growth to derive a tolerance from: the rounding of its height over the slope
            a, b, ta, tb = r[1]
            mi = self.minv
            rnd = 4e-15 * (np.linalg.norm(mi[2, :3]) * (np.linalg.norm(o) + abs(a) * np.linalg.norm(d)) + abs(mi[2, 3])) / abs(ld[2])
            r = "hit", (a, b, ta + rnd, tb + rnd)
        return r

    def member(self, iv, t):
        a = iv[self]
        return a is not None and a[0] <= t <= a[1]

    def contains(self, x, grow=0.0):
        mi = self.minv
        return inside_local(self.kind, self.p, (mi[:3, :3] @ x + mi[:3, 3]).tolist(), grow)

    def world_normal(self, x, edge=1e-3):
        """Outward unit normal at a world surface point; None in an edge zone."""
        mi = self.minv
        loc = (mi[:3, :3] @ x + mi[:3, 3]).tolist()
        f = surface_features(self.kind, self.p, loc)
        lo, hi = extents(self.kind, self.p)
        size = max(float(np.max(hi - lo)), 1e-3, float(np.max(np.abs(lo))), float(np.max(np.abs(hi))))
        if len(f) > 1 and f[1][0] < edge * size:
            return None
        g = mi[:3, :3].T @ f[0][1]
        n = np.linalg.norm(g)
        return None if n == 0 else g / n


class Node:
    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r

    def leaves(self):
        return self.l.leaves() + self.r.leaves()

    def transform(self, t):
        self.l.transform(t)
        self.r.transform(t)

    def member(self, iv, t):
        a, b = self.l.member(iv, t), self.r.member(iv, t)
        if self.op == "union":
            return a or b
        if self.op == "intersect":
            return a and b
        return a and not b

    def contains(self, x, grow=0.0):
        if self.op == "union":
            return self.l.contains(x, grow) or self.r.contains(x, grow)
        if self.op == "intersect":
            return self.l.contains(x, grow) and self.r.contains(x, grow)
        return self.l.contains(x, grow) and not self.r.contains(x, -grow)


def crossings(tree, o, d, eps=EPS, tie=2e-6):
    """Boundary crossings of the line o + t d with the solid: list of (t, tol, leaf, entering), or None if the
    answer is not robust (grazing contact or two different surfaces within tolerance)."""
    iv, events = {}, []
    for leaf in tree.leaves():
        st, r = leaf.robust(o, d, eps)
        if st == "marginal":
            return None
        if st == "miss":
            iv[leaf] = None
            continue
        tin, tout, a, b = r
        if leaf.kind == "plane":
            tol = a + 1e-9
            iv[leaf] = (tin - SHEET, tin + SHEET)
            events.append((tin, tol, leaf, True, -SHEET))
            events.append((tin, tol, leaf, False, SHEET))
        else:
            iv[leaf] = (tin, tout)
            events.append((tin, a, leaf, True, 0.0))
            events.append((tout, b, leaf, False, 0.0))
    events.sort(key=lambda e: (e[0] + e[4]))
    for e, f in zip(events, events[1:]):
        gap = f[0] - e[0]
        lim = tie * (1 + abs(e[0])) + e[1] + f[1]
        if gap < lim and not (e[2] is f[2] and e[2].kind == "plane"):
            return None
    out = []
    for i, (t, tol, leaf, ent, s) in enumerate(events):
        te = t + s
        prev = 0.5 * (events[i - 1][0] + events[i - 1][4] + te) if i else te - 1.0
        nxt = 0.5 * (events[i + 1][0] + events[i + 1][4] + te) if i + 1 < len(events) else te + 1.0
        a, b = tree.member(iv, prev), tree.member(iv, nxt)
        if a != b:
            out.append((t, tol, leaf, b))
    return out


def build_ref(spec):
    """Reference tree of a component spec (see gen.py); leaves are tagged with their path."""
    def rec(s, path):
        if s["k"] == "leaf":
            node = Leaf(s["kind"], s["p"], np.eye(4), tag=path, mat=s.get("mat"))
        else:
            node = Node(s["op"], rec(s["l"], path + "l"), rec(s["r"], path + "r"))
        for op in s.get("ops", []):
            node.transform(op_matrix(op))
        return node
    root = rec(spec, "")
    for path, op in spec.get("later", []):
        subtree(root, path).transform(op_matrix(op))
    return root


def subtree(root, path):
    n = root
    for c in path:
        n = n.l if c == "l" else n.r
    return n
