import numpy as np
from vlib import run_check, guarded, tlc
import fitkit as K
import greedyrun as G
import models
from expr import LD, ev, mag, close, ld, env_params
from bfit.greedy import GreedyLeastSquares, GreedyKLFPI
from bfit.grid import UniformRadialGrid, ClenshawRadialGrid, _BaseRadialGrid


def radial(rng):
    kind = ["uniform", "clenshaw", "radial", "duck1"][int(rng.integers(4))]
    g, w = K.make_grid(rng, kind)
    return kind, g, w


def body(ck):
    rng = np.random.default_rng(ck.seed + 34)
    r = ck.model(tlc("Start", invariants=["NonSingular", "Normal", "Exact"], constants=dict(Vals="{0, 1, 3}", Wts=ck.n("{1, 2, 5}", "{1, 2, 3, 5}"))))
    st = r.records[0]
    ck.model(tlc("Nnls", invariants=["Optimal"], constants=dict(MaxM=3, MaxD=ck.n(3, 5), MaxX=3)))
    ck.rule = ("exact reproduction by the weighted fits and sufficiency of the optimality conditions are TLC invariants; the real start is "
               "compared with the best of the specified fits, exact Gaussians must be reproduced, and the coefficients handed to the optimizer "
               "must satisfy the conditions for the specified basis")
    for it in range(ck.n(300, 3000)):
        kind, grid, w = radial(rng)
        pts = ld(grid.points)
        norm, sph = bool(rng.integers(2)), bool(rng.integers(2))
        gauss = rng.random() < .4
        if gauss:
            c0, a0 = float(np.exp(rng.uniform(-3, 4))), float(np.exp(rng.uniform(-2, 1.5)))
            if rng.random() < .3:       # of any size
                c0 *= 10. ** int(rng.integers(-38, 30))
            amp = c0 * ((LD(a0) / ev(["pi"], {})) ** LD(1.5) if norm else 1)
            f = amp * np.exp(-LD(a0) * pts ** 2)
            if np.any(f < 1e-250):
                continue
        else:
            f = ld(K.density(rng, grid, "pos"))
            if rng.random() < .4:       # densities of any size
                f = f * LD(10.) ** int(rng.integers(-25, 12))
        if grid.points.dtype != np.longdouble:
            f = f.astype(float)
        given = None if rng.random() < .6 else float(rng.uniform(.5, 9.))
        desc = {"grid": kind, "points": np.asarray(grid.points, float).tolist()[:40], "density": np.asarray(f, float).tolist()[:40], "normalize": norm, "spherical": sph}
        what = f"least-squares start on {kind} normalize={norm} spherical={sph} gaussian={gauss}"
        opts = {"choice": G.STRATEGIES[int(rng.integers(3))], "with_constraint": bool(rng.integers(2)), "method": ["slsqp", "SLSQP", "trust-constr"][int(rng.integers(3))],
                "l_maxiter": int(rng.integers(1, 200)), "g_maxiter": int(rng.integers(1, 2000)), "local_tol": 10. ** -int(rng.integers(0, 12))}
        desc["options"] = opts
        ok, obj = guarded(ck, what, desc, GreedyLeastSquares, grid, f, normalize=norm, spherical=sph, integral_dens=given, **opts)
        if not ok:
            continue
        ok, got = guarded(ck, what, desc, obj.get_best_one_function_solution)
        if not ok:
            continue
        ck.case((what, it), sample=what)
        s1 = lambda arr: np.sum(np.broadcast_to(arr, pts.shape))
        q = K.quad(w)
        cands = []
        for wt in (np.ones(len(pts), dtype=LD), ld(f), ld(f) ** 2):
            env = {"f": ld(f), "r1": np.abs(pts), "x": pts, "w": wt}
            e = st["norm"] if norm else st["plain"]
            c, a = ev(e["c"], env, s1), ev(e["a"], env, s1)
            env["g"] = c * np.exp(-a * pts ** 2) * ((a / ev(["pi"], {})) ** LD(1.5) if norm else 1)
            o = ev(st["obj"][1 if sph else 0], env, q)
            # rounding in ill-conditioned normal equations
            s0, s2, s4 = (s1(wt * pts ** k) for k in (0, 2, 4))
            det = s0 * s4 - s2 * s2
            acc = 1e-6 + 1e-14 * float(s0 * s4 / det) * (1. + float(np.max(np.abs(np.log(ld(f)))))) if det > 0 else np.inf
            cands.append((o, c, a, acc))
        if gauss:
            if not close(got, np.array([c0, a0]), max(x[3] for x in cands)):
                ck.fail(what + f": start {got} does not reproduce the Gaussian ({c0}, {a0})", desc)
            continue
        if not all(np.isfinite(float(o)) for o, _, _, _ in cands) or max(x[3] for x in cands) > .1:
            continue
        best = min(x[0] for x in cands)
        # rounding may exchange nearly equal objectives, and normal equations are ill-conditioned
        okc = [i for i, (o, _, _, _) in enumerate(cands) if o <= best * (1 + 1e-7 + 10 * max(x[3] for x in cands) * (max(x[3] for x in cands) > 2e-6))]
        if not any(close(got, np.array([cands[i][1], cands[i][2]]), cands[i][3]) for i in okc):
            ck.fail(what + f": start {got}, specified {[float(v) for v in cands[okc[0]][1:3]]} (objectives {[float(x[0]) for x in cands]})", desc)
    # Kullback-Leibler start
    for it in range(ck.n(150, 1000)):
        kind, grid, w = radial(rng)
        f = K.density(rng, grid, "pos")
        if rng.random() < .4:
            f = f * 10. ** int(rng.integers(-25, 12))
        given = None if rng.random() < .5 else float(np.exp(rng.uniform(-9., 5.)))
        desc = {"grid": kind, "points": np.asarray(grid.points, float).tolist()[:40], "density": np.asarray(f, float).tolist()[:40], "norm": given}
        opts = {"choice": G.STRATEGIES[int(rng.integers(3))], "mask_value": [0., 1e-12, 1e-3][int(rng.integers(3))],
                "l_maxiter": int(rng.integers(1, 200)), "g_maxiter": int(rng.integers(1, 2000)), "l_eps_coeff": 10. ** -int(rng.integers(0, 12))}
        desc["options"] = opts
        ok, obj = guarded(ck, "KL start", desc, GreedyKLFPI, grid, f, integral_dens=given, spherical=True, **opts)
        if not ok:
            continue
        env = K.fit_env(grid, [None], f, 1., 0.)
        q = K.quad(w)
        env["norm"] = LD(given) if given is not None else q(4 * ev(["pi"], {}) * env["x"] ** 2 * env["f"])
        ok, got = guarded(ck, "KL start", desc, obj.get_best_one_function_solution)
        ck.case(("kl", it))
        if ok and not close(got, np.array([ev(st["kl"]["c"], env, q), ev(st["kl"]["a"], env, q)]), 1e-9):
            ck.fail(f"KL start on {kind} norm={given}: {got}, specified {float(ev(st['kl']['c'], env, q))}, {float(ev(st['kl']['a'], env, q))}", desc)
    # non-negative coefficients
    recs = models.atomic_records(ck, True, ck.n(3, 4))
    for rec in recs:
        ns, np_ = rec["b"][0]
        if ns == 0:
            continue
        for rep in range(ck.n(4, 12)):
            kind, grid, w = radial(rng)
            if len(grid.points) < rec["n"] + 2:
                continue
            f = K.density(rng, grid, "pos")
            a = np.exp(rng.uniform(-2., 2.5, rec["n"]))
            wide = rec["norm"] and rec["n"] > 1 and rng.random() < .4       # diffuse and very sharp functions together
            if wide:
                t = np.concatenate(([0.], np.exp(np.linspace(-9., 1.6, int(rng.integers(40, 90))))))
                kind, grid = "logarithmic", _BaseRadialGrid(t)
                a = np.exp(np.linspace(-1.5, float(rng.uniform(9., 12.)), rec["n"]))
                env = env_params(np.ones(rec["n"]), a)
                env["r1"] = models.radii(grid.points, None)
                cols = [np.broadcast_to(ev(rec["cols"][j], env), t.shape).astype(float) for j in range(rec["n"])]
                f = sum(float(rng.uniform(.3, 2.)) * m / np.max(m) for m in cols)
            c = rng.uniform(.5, 3., rec["n"])
            desc = {"grid": kind, "points": np.asarray(grid.points, float).tolist()[:40], "density": np.asarray(f, float).tolist()[:40],
                    "num_s": ns, "num_p": np_, "normalize": rec["norm"], "exps": a.tolist()}
            what = f"least-squares coefficients {ns}s{np_}p normalize={rec['norm']} on {kind}"
            ok, obj = guarded(ck, what, desc, GreedyLeastSquares, grid, f, normalize=rec["norm"], l_maxiter=1, g_maxiter=1,
                              choice=G.STRATEGIES[rep % 3], with_constraint=bool(rep % 2), spherical=bool(rng.integers(2)))
            if not ok:
                continue
            obj.model.change_numb_s_and_numb_p(ns, np_)
            seen, orig = [], obj.fitting_obj.run

            def run(c0, e0, *args, **kw):
                seen.append((np.array(c0), np.array(e0)))
                return orig(c0, e0, *args, **kw)
            obj.fitting_obj.run = run
            local = bool(rng.integers(2))
            ok, out = guarded(ck, what, desc, obj.get_optimization_routine, np.concatenate((c, a)), local=local)
            if not ok or not seen:
                continue
            ck.traces += 1
            ck.case((ns, np_, rec["norm"], kind, rep))
            x, e0 = ld(seen[0][0]), seen[0][1]
            if x.shape != (rec["n"],) or not np.array_equal(e0, a):
                ck.fail(what + f": optimizer started from {x}, {e0}", desc)
                continue
            env = env_params(c, a)
            env["r1"] = models.radii(grid.points, None)
            M = np.stack([np.broadcast_to(ev(rec["cols"][j], env), env["r1"].shape) for j in range(rec["n"])], axis=1)
            M, d = M.astype(LD), ld(f)
            g = M.T @ (M @ x - d)
            nrm = np.sqrt(np.sum(M * M, axis=0)) * np.sqrt(np.sum(d * d)) + LD(1e-300)
            if np.any(x < 0) or np.any(g < -1e-8 * nrm) or np.any((x > 0) & (np.abs(g) > 1e-8 * nrm)):
                ck.fail(what + f": coefficients {x.astype(float)} are not the non-negative least-squares optimum (scaled gradient {(g / nrm).astype(float)})", desc)


    # the problem in itself, of any size
    for it in range(ck.n(400, 4000)):
        m, n = int(rng.integers(4, 40)), int(rng.integers(1, 5))
        M = rng.uniform(0., 1., (m, n)) if rng.random() < .5 else np.exp(-np.outer(np.linspace(0., 3., m) ** 2, np.exp(rng.uniform(-2., 2.5, n))))
        d = M @ rng.uniform(-.3, 2., n) + rng.normal(0., .1, m)
        sm, sd = 10. ** rng.uniform(-12., 9.), 10. ** rng.uniform(-12., 9.)
        if np.linalg.cond(M) > 1e5:
            continue
        M, d = M * sm, d * sd
        desc = {"matrix": M.tolist(), "density": d.tolist()}
        ok, x = guarded(ck, "non-negative least squares", desc, GreedyLeastSquares.optimize_using_nnls, d, M)
        ck.case(("nnls", m, n, it))
        if not ok:
            continue
        x, g = ld(x), ld(M).T @ (ld(M) @ ld(x) - ld(d))
        nrm = np.sqrt(np.sum(ld(M) ** 2, axis=0)) * np.sqrt(np.sum(ld(d) ** 2))
        if np.any(x < 0) or np.any(g < -1e-8 * nrm) or np.any((x > 0) & (np.abs(g) > 1e-8 * nrm)):
            ck.fail(f"{m} points, {n} functions of size {sm:.1e}, density of size {sd:.1e}: coefficients {x.astype(float)} are not the non-negative "
                    f"least-squares optimum (scaled gradient {(g / nrm).astype(float)})", desc)


if __name__ == "__main__":
    run_check("C34", "model_checking", body)
