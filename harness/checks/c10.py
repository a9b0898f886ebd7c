import numpy as np
from vlib import run_check, guarded, tlc
import models as M
import gen
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity


def body(ck, structure=True):
    rng = np.random.default_rng(ck.seed + 17)
    big = [[[int(rng.integers(0, 4)), int(rng.integers(1, 4))] for _ in range(int(rng.integers(4, 7)))] for _ in range(4)]
    big += [[[int(rng.integers(0, 4)), int(rng.integers(1, 4))] for _ in range(int(rng.integers(8, 14)))] for _ in range(2)]
    big += [[[int(rng.integers(9, 20)), int(rng.integers(0, 9))] for _ in range(2)]]
    recs = M.mol_records(ck, True, 2, 3, ck.n(4, 5), big)
    ck.rule = ("every molecular basis (up to 3 centres, up to 2 s and 2 p each, bounded total) plus larger random ones, times "
               "normalization; block structure enumerated by the specification; distinct = (basis, features, dimension)")
    for rec in recs:
        b = rec["b"]
        for _ in range(ck.n(2, 6)):
            kind = gen.KINDS[int(rng.integers(len(gen.KINDS)))]
            pk = gen.PKINDS[int(rng.integers(len(gen.PKINDS)))]
            dim = int(rng.integers(0, 4))
            coords = np.round(rng.uniform(-2., 2., (len(b), max(dim, 1))), 3)
            if pk == "ints" and rng.random() < .6:
                coords = np.round(coords).astype(int)
            if rng.random() < 0.2 and len(b) > 1:
                coords[-1] = coords[0]                 # coinciding centres
            far = rng.random() < .12 and pk != "ints"   # a centre far away from all points
            pts = gen.points(rng, dim, pk, coords)
            if far:
                k = int(rng.integers(len(b)))
                coords[k] += 10. ** rng.uniform(1.5, 3.5) * rng.choice([-1., 1.], coords.shape[1])
            c, a = gen.params(rng, rec["n"], kind)
            if not rec["norm"] and not far and rng.random() < .12:
                c, a = gen.growing(rng, c, a)
                kind += "-growing"
            if far:
                a[rng.integers(rec["n"])] = 10. ** -rng.uniform(2, 6) if kind != "ints" else 1
                kind += "-far"
            if rng.random() < .35:                     # all or some coefficients of one centre are zero
                k = int(rng.integers(len(b))) + 1
                c = np.array([0 * x if rec["center"][i] == k and (kind != "signed" or i % 2) else x for i, x in enumerate(c)])
                kind += "-zeros"
            if not far and "growing" not in kind and rng.random() < .15:
                pts, coords, c, a = gen.rescaled(rng, pts, coords, c, a, rec["norm"])
                kind += "-rescaled"
            replay = M.describe(rec, pts, list(coords), c, a)
            ok, m = guarded(ck, "construct", replay, MolecularGaussianDensity, pts, coords, np.array(b), normalize=rec["norm"])
            if not ok:
                continue
            ck.case((tuple(map(tuple, b)), rec["norm"], kind, pk, dim), sample={k: replay[k] for k in ("basis", "normalize", "coeffs", "exps")})
            what = f"molecular model {b} normalize={rec['norm']} dim={dim} {kind}/{pk}"
            M.compare(ck, what, m, rec, pts, list(coords), c, a, True, replay)
            if not structure:
                continue
            if (int(m.nbasis), int(m.natoms)) != (rec["n"], len(b)):
                ck.fail(what + ": counts", replay)
            idx = list(range(rec["n"]))
            rng.shuffle(idx)
            for i in idx:
                ok, k = guarded(ck, what + f" assign {i}", replay, m.assign_basis_to_center, i)
                if ok and int(k) != rec["center"][i] - 1:
                    ck.fail(what + f": basis {i} assigned to centre {k}, specified {rec['center'][i] - 1}", replay)
            for bad in (rec["n"], rec["n"] + 1, rec["n"] + 5):
                try:
                    m.assign_basis_to_center(bad)
                    ck.fail(what + f": index {bad} outside the basis accepted", replay)
                except (ValueError, IndexError):
                    pass
            if len(m.prefactor) != rec["n"] or not np.allclose(np.asarray(m.prefactor, float), [x[1] / x[2] for x in rec["pref"]]):
                ck.fail(what + ": pre-factors", replay)
            rad = np.asarray(m.radii)
            if rad.shape != (len(b), len(pts)) or not all(
                    M.close(rad[k], M.radii(pts, coords[k]), 1e-10) for k in range(len(b))):
                ck.fail(what + ": distances", replay)
            # superposition of independently built atoms (no specification arithmetic involved)
            tot, lo = 0., 0
            for k, (s, p) in enumerate(b):
                at = AtomicGaussianDensity(pts, center=coords[k], num_s=s, num_p=p, normalize=rec["norm"])
                tot = tot + at.evaluate(np.asarray(c[lo:lo + s + p]), np.asarray(a[lo:lo + s + p]))
                lo += s + p
            g = m.evaluate(c, a)
            env = M.env_of(rec, pts, list(coords), c, a)
            tot_d = np.zeros((len(pts), 2 * rec["n"]))
            lo = 0
            for k, (s, p) in enumerate(b):
                at = AtomicGaussianDensity(pts, center=coords[k], num_s=s, num_p=p, normalize=rec["norm"])
                d = at.evaluate(np.asarray(c[lo:lo + s + p]), np.asarray(a[lo:lo + s + p]), deriv=True)[1]
                tot_d[:, lo:lo + s + p], tot_d[:, rec["n"] + lo:rec["n"] + lo + s + p] = d[:, :s + p], d[:, s + p:]
                lo += s + p
            ok, gd = guarded(ck, what, replay, m.evaluate, c, a, True)
            if ok and not M.close(gd[1], tot_d, 1e-9, np.abs(tot_d) + 1e-12 * np.abs(tot_d).max()):
                ck.fail(what + ": derivatives are not those of its atoms", replay)
            if not M.close(g, tot, 1e-9, M.bcast(M.mag(rec["val"], env), len(pts))):
                ck.fail(what + ": not the superposition of its atoms", replay)
    layouts(ck, rng)


def layouts(ck, rng):
    """Structure of bases as large as those of real molecules."""
    js = []
    for k in range(ck.n(5, 20)):
        nat = int(rng.integers(1, 40))
        per = [40, 12, 150, 300, 6][k % 5] if nat < 12 else 10
        js.append([[int(rng.integers(0, per + 1)), int(rng.integers(1 if rng.random() < .9 else 0, per // 2 + 2))] for _ in range(nat)])
        js[-1] = [b if sum(b) else [0, 1] for b in js[-1]]     # every centre has a function
    js.append([[300, 0], [0, 1], [1, 0]])
    r = ck.model(tlc("LayoutCases", invariants=["Last", "Monotone", "Emit"], inputs={"layouts.json": js}))
    for rec in r.records:
        b = np.array(rec["b"])
        for dt in [int, np.int32] + [t for t in (np.int8, np.uint8, np.int16) if b.max() <= np.iinfo(t).max]:
            replay = {"basis": rec["b"]}
            what = f"basis of {rec['n']} functions on {len(b)} centres"
            coords, pts, norm = rng.uniform(-4, 4, (len(b), 3)), rng.uniform(-3, 3, (5, 3)), bool(rng.random() < .5)
            ok, m = guarded(ck, what, replay, MolecularGaussianDensity, pts, coords, b.astype(dt), norm)
            if not ok:
                continue
            ck.case(("layout", rec["n"], len(b)))
            if (int(m.nbasis), int(m.natoms)) != (rec["n"], len(b)):
                ck.fail(what + f": {m.nbasis} functions counted", replay)
            for i in rng.permutation(rec["n"]):
                ok, k = guarded(ck, what + f" assign {i}", replay, m.assign_basis_to_center, int(i))
                if not ok or int(k) != rec["center"][i] - 1:
                    ck.fail(what + f": basis {i} assigned to centre {k if ok else None}, specified {rec['center'][i] - 1}", replay)
                    break
            if len(m.prefactor) != rec["n"] or not np.allclose(np.asarray(m.prefactor, float), [x[1] / x[2] for x in rec["pref"]]):
                ck.fail(what + ": pre-factors", replay)
            c, a = gen.params(rng, rec["n"], "plain")
            tot, lo = 0., 0
            d = np.zeros((5, 2 * rec["n"]))
            for k, (s, p) in enumerate(rec["b"]):
                if s + p:
                    at = AtomicGaussianDensity(pts, center=coords[k], num_s=s, num_p=p, normalize=norm)
                    g, dd = at.evaluate(c[lo:lo + s + p], a[lo:lo + s + p], True)
                    tot = tot + g
                    d[:, lo:lo + s + p], d[:, rec["n"] + lo:rec["n"] + lo + s + p] = dd[:, :s + p], dd[:, s + p:]
                lo += s + p
            ok, gd = guarded(ck, what, replay, m.evaluate, c, a, True)
            if ok and not (M.close(gd[0], tot, 1e-9) and M.close(gd[1], d, 1e-9, np.abs(d) + 1e-12 * np.abs(d).max())):
                ck.fail(what + ": not the superposition of its atoms", replay)


if __name__ == "__main__":
    run_check("C10", "model_checking", body)
