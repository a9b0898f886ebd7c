"""Seeded numeric instances with deliberately unusual features."""
import numpy as np

LD = np.longdouble


def params(rng, n, kind):
    """Coefficients and exponents of n functions with the named feature."""
    c = rng.uniform(0.1, 5., n)
    a = np.exp(rng.uniform(-2.5, 3., n))
    if kind == "equal":
        a[:] = a[0]
        c[:] = c[0]
    elif kind == "signed":
        c = rng.uniform(-3., 3., n)
        c[rng.integers(n)] = 0.
    elif kind == "wide":
        a = np.exp(rng.uniform(-7., 14., n))
        c = np.exp(rng.uniform(-9., 12., n))
    elif kind == "ints":
        c = rng.integers(-3, 4, n)
        a = rng.integers(1, 5, n) if rng.random() < .5 else np.exp(rng.uniform(-2., 1., n))
    elif kind == "descending":
        a = np.sort(a)[::-1]
    return c, a


def growing(rng, c, a):
    """Some negative exponents: an optimizer's trial values of an un-normalized model."""
    a = np.array(a, dtype=float)
    k = rng.permutation(len(a))[:int(rng.integers(1, len(a) + 1))]
    a[k] = -rng.uniform(.01, .8, len(k))
    return c, a


def rescaled(rng, pts, center, c, a, norm):
    """The same model in another unit of length, so that very sharp and very diffuse functions are seen near their centre."""
    s = float(rng.choice([1e-6, 1e-4, 3e-3, 50., 1e4]))
    a = np.asarray(a, float) / s ** 2
    if s < 1e-2 and rng.random() < .5 and np.all(a >= 1.):
        a = np.round(a).astype(int)
    return np.asarray(pts) * s, None if center is None else np.asarray(center) * s, np.asarray(c, float) * s ** 3 if norm else c, a


KINDS = ["plain", "equal", "signed", "wide", "ints", "descending"]


def points(rng, dim, kind, centers=None):
    """Points array of the given dimension (0 means a 1-D array of radii)."""
    n = {"one": 1, "few": 7, "many": 1501, "huge": 1500 + int(rng.integers(19000))}.get(kind, 24)
    if dim == 0:
        p = rng.uniform(0., 4., n)
        if kind == "neg":
            p = rng.uniform(-4., 4., n)
        if kind != "one":
            p[rng.integers(n)] = 0.
            p = rng.permutation(p)
    else:
        p = rng.uniform(-3., 3., (n, dim))
        if n > 2:
            p[0] = 0.
    if centers is not None and n > 3 and dim > 0:
        for k, ctr in enumerate(centers[: n - 2]):
            p[k + 1] = ctr             # points exactly on the centres
    if kind == "ints":
        p = np.round(p).astype(int)
    if kind == "ld":
        p = p.astype(LD)
    if kind == "strided":
        p = np.repeat(p, 2, axis=0)[::2]
    if kind == "fortran":
        p = np.asfortranarray(p)
    if kind == "reversed":
        p = p[::-1]
    if kind == "readonly":
        p.setflags(write=False)
    return p


PKINDS = ["one", "few", "many", "neg", "ints", "ld", "strided", "fortran", "reversed", "readonly", "huge"]
