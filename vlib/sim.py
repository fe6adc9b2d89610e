"""Running traces of the code under test on explicit rays, and reference optics."""
import math

import numpy as np

from . import env  # noqa: F401
from .core import require, sut

import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl
from tinygfx import g3d as cg

COLS = ["generation", "intensity", "wavelength", "index", "id", "surface", "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt"]


class FixedSource(pc.Source):
    """A source that emits explicit rays (o, d: 3 x n), carried by its own transform like any source."""

    def __init__(self, o, d, wl=0.633, intensity=None):
        super().__init__()
        self.o, self.d = np.array(o, dtype=float).reshape(3, -1), np.array(d, dtype=float).reshape(3, -1)
        self.wl, self.inten = wl, intensity

    def _local_ray_generation(self, n_rays):
        n = self.o.shape[1]
        rs = pyrayt.RaySet(n)
        rs.rays[0, :3] = self.o
        rs.rays[1, :3] = self.d
        rs.wavelength = self.wl
        if self.inten is not None:
            rs.intensity = self.inten
        return rs


class Res:
    """Rows of a results table as plain arrays."""

    def __init__(self, df):
        self.n = len(df)
        for c in COLS:
            setattr(self, c, np.array(df[c], dtype=float))
        self.start = np.stack((self.x0, self.y0, self.z0))
        self.end = np.stack((self.x1, self.y1, self.z1))
        self.tilt = np.stack((self.x_tilt, self.y_tilt, self.z_tilt))

    def of(self, rid):
        """Row numbers of one ray in generation order."""
        i = np.flatnonzero(self.id == rid)
        return i[np.argsort(self.generation[i], kind="stable")]


def trace(sources, components, limit=10, rays=1, what="trace"):
    with sut(what):
        t = pyrayt.RayTracer(sources, components, rays_per_source=rays, generation_limit=limit)
        df = t.trace()
        return t, Res(df)


def sky(radius=500.0):
    """An absorbing sphere around everything: every escaping ray ends on it and leaves a row."""
    return cg.Sphere(radius, material=matl.absorber)


# ------------------------------------------------------------------ reference optics
SELL = {  # coefficients from the Schott data sheets
    "BK7": (1.03961212, 0.231792344, 1.01046945, 0.00600069867, 0.0200179144, 103.560653),
    "SF5": (1.52481889, 0.187085527, 1.42729015, 0.011254756, 0.0588995392, 129.141675),
    "SF2": (1.40301821, 0.231767504, 0.939056586, 0.0105795466, 0.0493226978, 112.405955),
}


def sellmeier(c, wl):
    w2 = float(wl) ** 2
    return math.sqrt(1 + sum(c[i] * w2 / (w2 - c[i + 3]) for i in range(3)))


def index_of(mat, wl):
    """Reference index of a material spec ('glass' name, ['n', x], ['sell', ...])."""
    if mat[0] == "n":
        return float(mat[1])
    if mat[0] == "glass":
        return 1.5 if mat[1] == "ideal" else sellmeier(SELL[mat[1]], wl)
    if mat[0] == "sell":
        return sellmeier(mat[1:7], wl)
    raise ValueError(mat)


def snell(d, n, n1, n2):
    """Reference refraction in the plane of incidence, by angles.  d, n unit; n towards the incoming side is chosen here.
    Returns (direction, new index) with total reflection keeping n1; None when too close to the critical angle."""
    d, n = np.array(d, dtype=float), np.array(n, dtype=float)
    c = float(d @ n)
    if c > 0:
        n, c = -n, -c
    tang = d - c * n  # in-plane component along the surface, length sin(theta1)
    s1 = float(np.linalg.norm(tang))
    s2 = s1 * n1 / n2
    if abs(s2 - 1) < 1e-6:
        return None
    if s2 > 1:
        return d - 2 * c * n, n1
    if s1 < 1e-14:
        return d, n2
    out = tang / s1 * s2 - n * math.sqrt(1 - s2 * s2)
    return out / np.linalg.norm(out), n2


def mirror_dir(d, n):
    d, n = np.array(d, dtype=float), np.array(n, dtype=float)
    return d - 2 * float(d @ n) * n
