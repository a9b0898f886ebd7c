"""Random grids, densities and models for the fitting conformance checks."""
import numpy as np
from bfit.grid import UniformRadialGrid, ClenshawRadialGrid, CubicGrid, _BaseRadialGrid
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from expr import LD, ev, mag, close, env_params, ld
from models import radii


class DuckGrid:
    """Any object with points and integrate is a grid."""

    def __init__(self, points, weights):
        self.points, self.w = points, weights

    def integrate(self, arr):
        return np.sum(self.w * arr)


def trapz_weights(x):
    x = ld(x)
    w = np.zeros(len(x), dtype=LD)
    if len(x) > 1:
        d = np.diff(x)
        w[:-1] += d / 2
        w[1:] += d / 2
    return w


GRIDS = ["uniform", "clenshaw", "radial", "duck1", "duck3", "cubic", "duck2"]


SCALES = [1e-3, .05, 10., 40., 1e3]


def scaled(rng, grid, w):
    """The same problem in another unit of length: (grid, weights, scale)."""
    s = SCALES[int(rng.integers(len(SCALES)))]
    pts = np.asarray(grid.points, float) * s
    if isinstance(grid, DuckGrid):
        g = DuckGrid(pts, np.asarray(grid.w, float) * s ** (1 if pts.ndim == 1 else pts.shape[1]))
        return g, g.w, s
    if pts.ndim == 1:
        g = _BaseRadialGrid(pts)
        return g, trapz_weights(g.points), s
    ax = np.asarray(grid.axes, float) * s
    g = CubicGrid(np.asarray(grid.points[0], float) * s, ax, grid.kit_shape)
    return g, np.full(len(g.points), abs(np.linalg.det(ax))), s


def make_grid(rng, kind):
    """Returns (grid, weights); 1-D kinds first."""
    dt = [np.longdouble, np.float64][int(rng.integers(2))]
    if rng.random() < .05:
        return large_grid(rng, kind, dt)
    if kind == "uniform":
        g = UniformRadialGrid(int(rng.integers(20, 80)), 0. if rng.random() < .6 else float(rng.uniform(0.01, .5)), float(rng.uniform(3., 8.)), dtype=dt)
        return g, trapz_weights(g.points)
    if kind == "clenshaw":
        extra = None if rng.random() < .5 else [9.25, 12.5]
        g = ClenshawRadialGrid(int(rng.integers(1, 8)), int(rng.integers(15, 40)), int(rng.integers(10, 30)), extra, bool(rng.random() < .5), dtype=dt)
        return g, trapz_weights(g.points)
    if kind == "radial":
        g = _BaseRadialGrid(np.sort(rng.uniform(0., 6., int(rng.integers(15, 40)))))
        return g, trapz_weights(g.points)
    if kind == "duck1":
        n = int(rng.integers(5, 30))
        g = DuckGrid(rng.uniform(0., 4., n), rng.uniform(0.05, 1., n))
        return g, g.w
    dim = 2 if kind == "duck2" else 3
    if kind in ("duck3", "duck2"):
        n = int(rng.integers(8, 40))
        g = DuckGrid(rng.uniform(-2., 2., (n, dim)), rng.uniform(0.05, 1., n))
        return g, g.w
    sh = tuple(int(x) for x in rng.integers(3, 6, 3))
    ax = np.diag(rng.uniform(.4, .9, 3)) + 0.05 * rng.normal(size=(3, 3))
    g = CubicGrid(rng.uniform(-2., -1., 3), ax, sh)
    g.kit_shape = sh
    return g, np.full(len(g.points), abs(np.linalg.det(ax)))


def large_grid(rng, kind, dt):
    """The same kinds at the size people use."""
    n = int(rng.integers(300, 3000))
    if kind == "uniform":
        g = UniformRadialGrid(n, 0., float(rng.uniform(4., 12.)), dtype=dt)
        return g, trapz_weights(g.points)
    if kind == "clenshaw":
        g = ClenshawRadialGrid(int(rng.integers(1, 20)), n, int(rng.integers(50, 600)), None, bool(rng.random() < .5), dtype=dt)
        return g, trapz_weights(g.points)
    if kind == "radial":
        g = _BaseRadialGrid(np.sort(rng.uniform(0., 8., n)))
        return g, trapz_weights(g.points)
    if kind == "duck1":
        g = DuckGrid(rng.uniform(0., 6., n), rng.uniform(0.01, .1, n))
        return g, g.w
    if kind in ("duck3", "duck2"):
        g = DuckGrid(rng.uniform(-2., 2., (n, 2 if kind == "duck2" else 3)), rng.uniform(0.01, .1, n))
        return g, g.w
    sh = tuple(int(x) for x in rng.integers(8, 14, 3))
    ax = np.diag(rng.uniform(.2, .4, 3)) + 0.02 * rng.normal(size=(3, 3))
    g = CubicGrid(rng.uniform(-2., -1., 3), ax, sh)
    g.kit_shape = sh
    return g, np.full(len(g.points), abs(np.linalg.det(ax)))


def is_1d(kind):
    return kind in ("uniform", "clenshaw", "radial", "duck1")


def make_model(rng, grid, b, norm, s=1.):
    dim = 1 if grid.points.ndim == 1 else grid.points.shape[1]
    if rng.random() < .2:
        norm = np.bool_(norm)
    if len(b) == 1 and rng.random() < 0.7:
        ctr = None if rng.random() < .4 else np.round(rng.uniform(-.6, .6, dim), 3) * s
        return AtomicGaussianDensity(grid.points, center=ctr, num_s=b[0][0], num_p=b[0][1], normalize=norm), [ctr]
    coords = np.round(rng.uniform(-1.2, 1.2, (len(b), dim)), 3) * s
    return MolecularGaussianDensity(grid.points, coords, np.array(b), normalize=norm), list(coords)


def density(rng, grid, kind, s=1.):
    r = np.abs(ld(grid.points)) if grid.points.ndim == 1 else np.sqrt(np.sum(ld(grid.points) ** 2, axis=1))
    if s != 1.:
        r = r / s
    d = rng.uniform(.5, 4.) * np.exp(-rng.uniform(.3, 2.) * r) + rng.uniform(.1, 2.) * np.exp(-rng.uniform(.3, 3.) * r ** 2)
    d = d * rng.uniform(.8, 1.2, len(r))
    if rng.random() < .08:              # a point that sticks out
        d[[0, -1, int(rng.integers(len(d)))][int(rng.integers(3))]] *= 10. ** rng.uniform(1., 6.)
    if kind == "zeros":
        d[rng.random(len(r)) < .3] = 0.
        if not np.any(d > 0):
            d[len(d) // 2] = 1.
    if grid.points.dtype != np.longdouble:
        d = d.astype(float)
    return d


def fit_env(grid, centers, f, norm, mask, pen=100000.0, alpha=2., w=1.):
    env = {"f": ld(f), "norm": LD(norm), "mask": LD(mask), "penalty": LD(pen), "alpha": LD(alpha), "w": ld(w)}
    if grid.points.ndim == 1:
        env["x"] = ld(grid.points)
    for k, c in enumerate(centers, 1):
        env[f"r{k}"] = radii(grid.points, c)
    return env


def set_params(env, val, c, a):
    env.update(env_params(c, a))
    env["g"] = np.broadcast_to(ev(val, env), env["f"].shape)
    return env


def quad(weights):
    w = ld(weights)
    return lambda arr: np.sum(w * np.broadcast_to(arr, w.shape))


def describe(kind, grid, f, b, norm, centers, c, a, **kw):
    d = {"grid": kind, "npoints": len(grid.points), "points": np.asarray(grid.points, float).tolist()[:40],
         "density": np.asarray(f, float).tolist()[:40], "basis": b, "normalize": norm,
         "centers": [None if x is None else np.asarray(x, float).tolist() for x in centers],
         "coeffs": np.asarray(c, float).tolist(), "exps": np.asarray(a, float).tolist()}
    d.update(kw)
    return d


def undecidable(g, scale, mask, signed=False):
    """Is some model value within rounding of a class boundary (zero, the mask, underflow)?"""
    ag = np.abs(g)
    if (mask < 1e-200 or signed) and np.any((ag > 0) & (ag < 1e-250)):
        return True
    if mask > 0 and np.any(np.abs(g - mask) < 1e-7 * mask):
        return True
    return bool(signed and np.any(ag < 1e-10 * scale))
