import numpy as np
from vlib import run_check, guarded
import models as M
from expr import LD, ev, mag, close, env_params, ld
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from bfit.grid import CubicGrid


def body(ck):
    rng = np.random.default_rng(ck.seed + 3)
    big = [[[int(rng.integers(4, 30)), int(rng.integers(4, 30))]], [[0, int(rng.integers(5, 12))]], [[int(rng.integers(5, 12)), 0]]]
    recs = M.mol_records(ck, False, 3, 2, ck.n(4, 6), big)
    ck.rule = ("TLC proves norm x moment = 1 for both types, the moment recursion, and the integral of every layout; the real model is "
               "integrated by an exponentially convergent radial quadrature (exponents 1e-24..1e28) and on cubic lattices with random centres")
    t = np.linspace(-16., 14., 6001)
    r = np.exp(t)
    w = 4 * np.pi * r ** 3 * (t[1] - t[0])
    for rec in recs:
        if len(rec["b"]) == 1:
            s, p = rec["b"][0]
            for _ in range(ck.n(16, 60)):
                c = rng.uniform(-2., 3., rec["n"])
                # as sharp or diffuse as they come: everything scales with the exponents
                scale = 10. ** float(rng.choice([0., 0., -20., -9., -5., 4., 9., 20.]))
                a = 10. ** rng.uniform(-4., 8., rec["n"]) * scale
                norm = rec["norm"] if rng.random() < .7 else np.bool_(rec["norm"])
                if scale == 1. and rng.random() < .25:          # whole numbers of any size
                    a = np.ceil(a).astype(int)
                rs, ws = r / np.sqrt(scale), w / scale ** 1.5
                env = env_params(c, a)
                want, sc = ev(rec["integral"], env), mag(rec["integral"], env)
                dim3 = rng.random() < 0.5
                if dim3:
                    d = rng.normal(size=3)
                    d /= np.linalg.norm(d)
                    ctr = rng.uniform(-1e-3, 1e-3, 3) * 0
                    pts = rs[:, None] * d[None, :]
                    m = AtomicGaussianDensity(pts, center=ctr, num_s=s, num_p=p, normalize=norm)
                else:
                    m = AtomicGaussianDensity(rs, num_s=s, num_p=p, normalize=norm)
                replay = M.describe(rec, rs[:3], [None], c, a)
                ck.case((s, p, rec["norm"], float(np.round(np.log10(a[0]), 1))), sample=replay)
                ok, g = guarded(ck, "evaluate", replay, m.evaluate, c, a)
                if ok and not close(np.sum(ld(g) * ws), want, 1e-8, sc):
                    ck.fail(f"layout {rec['b']} normalize={rec['norm']}: integral {float(np.sum(g * ws))!r}, specified {float(want)!r}", replay)
        elif rng.random() < 1.0:
            a = rng.uniform(0.6, 2.5, rec["n"])
            c = rng.uniform(0.2, 2., rec["n"])
            h, L = 0.45, 7.5
            k = int(2 * L / h)
            grid = CubicGrid(np.array([-L, -L, -L]) + 0.1, np.diag([h] * 3), (k, k, k))
            coords = rng.uniform(-1., 1., (len(rec["b"]), 3))
            m = MolecularGaussianDensity(grid.points, coords, np.array(rec["b"]), normalize=rec["norm"])
            env = env_params(c, a)
            want, sc = ev(rec["integral"], env), mag(rec["integral"], env)
            replay = M.describe(rec, grid.points[:3], list(coords), c, a)
            ck.case((str(rec["b"]), rec["norm"], "cubic"), sample=replay)
            ok, g = guarded(ck, "evaluate", replay, m.evaluate, c, a)
            if ok and not close(grid.integrate(g), want, 1e-5, sc):
                ck.fail(f"molecule {rec['b']} normalize={rec['norm']}: integral {grid.integrate(g)!r}, specified {float(want)!r}", replay)


if __name__ == "__main__":
    run_check("C09", "model_checking", body)
