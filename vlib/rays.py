"""Turns ray specs into world rays aimed at a reference solid."""
import math

import numpy as np

from . import geo


def _local_point(leaf, u):
    lo, hi = geo.extents(leaf.kind, leaf.p)
    c, h = 0.5 * (lo + hi), 0.5 * (hi - lo)
    h = np.maximum(h, 0.0)
    return c + h * np.array(u, dtype=float)


def resolve(tree, rs, unit=True):
    """Returns (o, d) world arrays of shape (3, n); degenerate specs fall back to +x rays."""
    leaves = tree.leaves() if not isinstance(tree, list) else [x for t in tree for x in t.leaves()]
    O, D = [], []
    fill = 0

    def copies():  # displaced copies of the rays so far
        k = len(O)
        for i in range(k, fill if k else 0):
            O.append(O[i % k] + 0.2 * np.array([math.sin(1.7 * i), math.sin(2.9 * i + 1), math.sin(4.3 * i + 2)]))
            D.append(D[i % k])
    for r in rs:
        if "fill" in r:
            fill = r["fill"]
            copies()
            continue
        leaf = leaves[r["leaf"] % len(leaves)]
        m = leaf.m
        if "axis" in r:
            i, s = r["axis"] % 3, (1.0 if r["axis"] < 3 else -1.0)
            dl = np.zeros(3)
            dl[i] = s
            dl[(i + 1 + r["taxis"]) % 3] += r["tilt"]
            tgt = m[:3, :3] @ _local_point(leaf, r["tgt"]) + m[:3, 3]
            d = m[:3, :3] @ dl if r["frame"] == "local" else dl
            d = d / np.linalg.norm(d)
            o = tgt - r["back"] * d
        elif "leaf2" in r:
            other = leaves[r["leaf2"] % len(leaves)]
            tgt = m[:3, :3] @ _local_point(leaf, r["tgt"]) + m[:3, 3]
            d = other.m[:3, :3] @ _local_point(other, r["tgt2"]) + other.m[:3, 3] - tgt
            n = np.linalg.norm(d)
            d = d / n if n > 1e-3 else np.array([1.0, 0.0, 0.0])
            o = tgt - r["back"] * d
        elif "src" in r:
            o = m[:3, :3] @ _local_point(leaf, r["src"]) + m[:3, 3]
            d = np.array(r["d"], dtype=float)
        else:
            tgt = m[:3, :3] @ _local_point(leaf, r["tgt"]) + m[:3, 3]
            o = np.array(r["o"], dtype=float)
            d = tgt - o
            far = r.get("far", 1)
            if far != 1:
                o = tgt - far * d
        n = np.linalg.norm(d)
        if n < 1e-3:
            d, n = np.array([1.0, 0.0, 0.0]), 1.0
        if unit or n > 20:
            d = d / n
        O.append(o)
        D.append(d)
    copies()
    return np.array(O).T.reshape(3, -1), np.array(D).T.reshape(3, -1)


def homogeneous(o, d):
    n = o.shape[1]
    rays = np.zeros((2, 4, n))
    rays[0, :3], rays[0, 3] = o, 1.0
    rays[1, :3] = d
    return rays
