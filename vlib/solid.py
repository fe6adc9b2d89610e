"""Comparing a finished component with a reference solid: hits, normals, materials."""
import numpy as np

from . import geo, rays
from .core import require, sut


def outward(leaf, x, d, entering):
    """Outward normal of the whole solid at a crossing, None near an edge or at grazing incidence."""
    n = leaf.world_normal(x)
    if n is None:
        return None
    c = float(n @ d) / float(np.linalg.norm(d))
    if abs(c) < 1e-3:
        return None
    return -n if (c > 0) == entering else n


def compare(obj, ref, o, d, ctx, name, material=None, normals=True):
    """material: None or function(leaf tag) -> the expected material object.  Returns the number of rays hitting the solid."""
    with sut("intersect"):
        hits, ids = [np.asarray(a, dtype=float) for a in obj.intersect(rays.homogeneous(o, d))]
        require(hits.ndim == 2 and hits.shape == ids.shape and hits.shape[1] == o.shape[1], "%s: result shapes %s %s", name, hits.shape, ids.shape)
        lut = dict(obj.surface_ids)
        n_hit = 0
        for i in range(o.shape[1]):
            cr = geo.crossings(ref, o[:, i], d[:, i])
            if cr is None:
                ctx.label("skip-ambiguous")
                continue
            keep = np.isfinite(hits[:, i])
            t, s = hits[keep, i], ids[keep, i]
            exp = [c[0] for c in cr]
            require(len(t) == len(cr), "%s: ray from %s along %s crosses it at %s, documented solid: %s", name, o[:, i].tolist(), d[:, i].tolist(), t.tolist(), exp)
            ctx.label("ray-hit" if cr else "ray-miss")
            n_hit += bool(cr)
            for j, (te, tol, leaf, ent) in enumerate(cr):
                require(abs(t[j] - te) <= tol + 1e-7 * (1 + abs(te)), "%s: ray from %s along %s crosses it at %s, documented solid: %s", name, o[:, i].tolist(), d[:, i].tolist(), t.tolist(), exp)
                require(s[j] in lut, "%s: crossing names surface %s which is not part of the object", name, s[j])
                surf = lut[s[j]]
                if material is not None:
                    m = material(leaf.tag)
                    require(surf.material is m, "%s: surface hit at %s has material %r, expected %r", name, (o[:, i] + te * d[:, i]).tolist(), surf.material, m)
                x = o[:, i] + te * d[:, i]
                n = outward(leaf, x, d[:, i], ent) if normals else None
                if n is not None:
                    g = np.asarray(surf.get_world_normals(np.append(x, 1.0).reshape(4, 1)), dtype=float)[:3, 0]
                    require(np.abs(g - n).max() <= 1e-5 * max(1.0, float(np.linalg.cond(leaf.m[:3, :3]))), "%s: normal at %s is %s, outward normal of the documented solid is %s", name, x.tolist(), g.tolist(), n.tolist())
                    ctx.label("normal")
    return n_hit
