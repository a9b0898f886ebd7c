import numpy as np
from vlib import run_check, guarded
import models as M
import gen
from expr import LD
from bfit.model import AtomicGaussianDensity


def body(ck, derivs=False):
    rng = np.random.default_rng(ck.seed)
    big = [[[int(rng.integers(5, 14)), int(rng.integers(4, 11))]], [[int(rng.integers(15, 25)), 0]],
           [[0, int(rng.integers(6, 12))]], [[1, int(rng.integers(5, 9))]],
           [[int(rng.integers(26, 48)), int(rng.integers(0, 30))]], [[0, int(rng.integers(13, 40))]]]
    recs = M.atomic_records(ck, derivs, ck.n(4, 6) if not derivs else ck.n(3, 4), big)
    ck.rule = ("every (num_s, num_p) up to the bound plus larger random ones, times normalization, replayed on the real "
               "model with parameter features " + ",".join(gen.KINDS) + " and point features " + ",".join(gen.PKINDS) +
               " in 1-D, 2-D, 3-D, with and without centre; distinct = (layout, feature, dimension, centre)")
    rep = ck.n(1 if derivs else 3, 10)
    for rec in recs:
        ns, np_ = rec["b"][0]
        for _ in range(rep):
            order = rng.permutation(len(gen.KINDS))
            for q, ki in enumerate(order):
                kind = gen.KINDS[ki]
                pk = gen.PKINDS[int(rng.integers(len(gen.PKINDS)))]
                dim = int(rng.integers(0, 5))      # 0: one-dimensional array; 1..4: columns
                cdim = max(dim, 1)
                center = None if rng.random() < 0.35 else np.round(rng.uniform(-2., 2., cdim), 3)
                if pk == "ints" and center is not None and rng.random() < .6:
                    center = np.round(center).astype(int)
                pts = gen.points(rng, dim, pk, None if center is None else [center])
                c, a = gen.params(rng, rec["n"], kind)
                if not rec["norm"] and rng.random() < .15:
                    c, a = gen.growing(rng, c, a)
                    kind += "-growing"
                elif rng.random() < .2:
                    pts, center, c, a = gen.rescaled(rng, pts, center, c, a, rec["norm"])
                    kind += "-rescaled"
                replay = M.describe(rec, pts, [center], c, a)
                numtype = (int, np.int64)[q % 2]
                ok, m = guarded(ck, "construct", replay, AtomicGaussianDensity, pts, center=center,
                                num_s=numtype(ns), num_p=numtype(np_), normalize=rec["norm"])
                if not ok:
                    continue
                ck.case((ns, np_, rec["norm"], kind, pk, dim, center is None), sample={k: replay[k] for k in ("basis", "normalize", "coeffs", "exps")})
                what = f"atomic model s={ns} p={np_} normalize={rec['norm']} dim={dim} {kind}/{pk}"
                M.compare(ck, what, m, rec, pts, [center], c, a, derivs, replay)
                if not derivs:
                    if (m.num_s, m.num_p, m.nbasis, m.natoms) != (ns, np_, rec["n"], 1):
                        ck.fail(what + ": counts", replay)
                    if not np.allclose(np.asarray(m.prefactor, float), [x[1] / x[2] for x in rec["pref"]]) or len(m.prefactor) != rec["n"]:
                        ck.fail(what + ": pre-factors", replay)
                    if not M.close(np.ravel(m.radii), M.radii(pts, center), 1e-10) or not np.array_equal(m.points, pts):
                        ck.fail(what + ": distances or points", replay)


if __name__ == "__main__":
    run_check("C07", "model_checking", body)
