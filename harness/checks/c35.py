import warnings
import numpy as np
from scipy.optimize import nnls, OptimizeResult
from vlib import run_check, guarded, tlc
import fitkit as K
import greedyrun as G
import bfit.fit
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares
from bfit.grid import UniformRadialGrid, ClenshawRadialGrid, _BaseRadialGrid
from bfit.measure import SquaredDifference
from bfit.model import AtomicGaussianDensity

INV = ["HistoryFree", "Apart", "NoneIgnored", "GivenUsed"]
WORDS = {"no": False, "density": None, "slsqp": "SLSQP"}
REPORTED = {"ls": {s: s for s in ("local_tol", "global_tol", "l_maxiter", "g_maxiter", "with_constraint")},
            "kl": {"l_eps_coeff": "l_threshold_coeff", "l_eps_exp": "l_threshold_exp", "l_eps_obj": "l_threshold_obj",
                   "g_eps_coeff": "g_threshold_coeff", "g_eps_exp": "g_threshold_exp", "g_eps_obj": "g_threshold_obj",
                   "l_maxiter": "l_maxiter", "g_maxiter": "g_maxiter"}}
ROLE = {"tol": "tol", "maxiter": "maxiter", "constraint": "with_constraint", "c": "c_threshold", "e": "e_threshold", "d": "d_threshold"}


def value(rng, name, given, norm, bounded):
    """A setting that was given or is at its specified default."""
    if given != "given":
        return WORDS[given] if given in WORDS else int(given) if name.endswith("maxiter") else float(given)
    if name == "l_maxiter":
        return int(rng.integers(1, 7))
    if name == "g_maxiter":
        return int(rng.integers(4, 30))
    if name in ("with_constraint", "normalize", "spherical"):
        return True
    if name == "method":
        return ["trust-constr", "slsqp", "Trust-Constr"][int(rng.integers(3))]
    if name == "integral_dens":
        return float(norm * rng.uniform(.6, 1.7))
    if name == "mask_value":
        return [0., 1e-3, .05, 1e-6][int(rng.integers(4))]
    if rng.random() < .15 and bounded:
        return 0.
    lo, hi = (1, 5) if name.startswith("l") else (3, 10 if bounded else 6)        # quick settings are usually, not always, looser
    return 10. ** -rng.uniform(lo, hi)


def fresh(kind, grid, d, cfg, ns, np_):
    """The specified fit, built directly."""
    model = AtomicGaussianDensity(grid.points, num_s=ns, num_p=np_, normalize=cfg.get("normalize", True))
    if kind == "ls":
        return ScipyFit(grid, d, model, measure=SquaredDifference(), method=cfg["method"], integral_dens=cfg["integral_dens"],
                        spherical=cfg["spherical"])
    return KLDivergenceFPI(grid, d, model, cfg["mask_value"], cfg["integral_dens"], cfg["spherical"])


def reference(kind, grid, d, cfg, req, guess, rng, jitter):
    n = req["ns"] + req["np"]
    fit = fresh(kind, grid, d, cfg, req["ns"], req["np"])
    c, a = guess[:n].copy(), guess[n:].copy()
    if req["start"] == "least-squares":
        M = np.stack([fit.model.evaluate(np.eye(n)[j], a) for j in range(n)], axis=1)
        c = nnls(M, d)[0]
    if jitter:
        c, a = c * (1 + jitter * rng.standard_normal(n)), a * (1 + jitter * rng.standard_normal(n))
    kw = {ROLE[r]: cfg[s["name"]] for r, s in req["run"].items()}
    try:
        res = fit.run(c, a, True, True, **kw)
    except ValueError:          # the optimizer left the domain
        return np.full(2 * n, np.nan)
    return np.concatenate((res["coeffs"], res["exps"]))


def recorded(call):
    """What is asked of the optimizer, which does nothing, while something is called."""
    orig, seen = bfit.fit.minimize, []

    def fake(fun, x0, args=(), method=None, **kw):
        val, g = fun(np.array(x0), *args)
        seen.append((np.array(x0, float), str(method).lower(), kw.get("options"), kw.get("tol"), [len(np.atleast_1d(x)) for x in args if not isinstance(x, str)],
                     bool(kw.get("constraints")), val))
        return OptimizeResult(x=np.array(x0, float), fun=val, jac=g, grad=g, success=True, status=0, message="scripted", nit=1, nfev=1, njev=1, niter=1)
    bfit.fit.minimize = fake
    try:
        call()
    finally:
        bfit.fit.minimize = orig
    return seen


def alike(s, t):
    return len(s) == len(t) and all(x[0].shape == y[0].shape and np.allclose(x[0], y[0], rtol=1e-7, atol=1e-9 * np.max(np.abs(y[0]))) and x[1:6] == y[1:6] for x, y in zip(s, t))


def scripted(ck, rng, rec, grid, d, cfg, given):
    """The requests of a behaviour to an optimizer that only records them: settings may be anything."""
    cfg, given = dict(cfg), dict(given)
    for s in given:
        if s.endswith("maxiter"):
            cfg[s] = given[s] = int(10. ** rng.uniform(0., 7.))
        elif s.endswith("tol"):
            cfg[s] = given[s] = float(10. ** -rng.uniform(0., 16.))
    what, desc = "scripted optimizer: " + " ".join(f"{s}={v}" for s, v in sorted(given.items())), {"given": given, "density": d.tolist(), "log": rec["log"]}
    ok, obj = guarded(ck, what, desc, GreedyLeastSquares, grid, d, **given)
    n = 0
    for req in rec["log"] if ok else []:
        ns, np_ = req["ns"], req["np"]
        if (ns, np_) != (obj.model.num_s, obj.model.num_p):
            obj.model.change_numb_s_and_numb_p(ns, np_)
        m = ns + np_
        guess = np.concatenate((rng.uniform(.2, 3., m), np.exp(rng.uniform(-1., 1.) + np.cumsum(rng.uniform(.3, .8, m)) - .4 * m)))
        want = recorded(lambda: reference("ls", grid, d, cfg, req, guess, rng, 0.))
        got = []
        ok, _ = guarded(ck, what, desc, lambda: got.extend(recorded(lambda: obj.get_optimization_routine(guess, local=req["mode"] == "local"))))
        if not ok or not want or not got:
            continue
        n += 1
        if not alike(got, want):
            ck.fail(f"{what}: request {req['mode']} {ns}s{np_}p asks the optimizer {got}, specified {want}", desc)
    return n


def body(ck):
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed + 35)
    ck.model(tlc("GreedyConf", spec="Spec", invariants=INV, constants=dict(Kinds='{"ls", "kl"}', MaxLen=2, MaxGiven=ck.n(1, 20), MaxFn=ck.n(3, 2), Burst=0), workers=4))
    ck.rule = ("which settings an optimization uses is a function of the construction and the kind of request, checked by TLC over every set of given "
               "settings; sampled behaviours (settings, resizes, requests) are made on a real object and every outcome compared with one run of the "
               "specified fit with the specified settings and start; outcomes that rounding could change are not judged")
    told, judged, total, asked = {}, 0, 0, 0
    for kind in ("ls", "kl"):
        recs = []
        for length, num, fn in ((3, ck.n(100, 900) if kind == "ls" else ck.n(60, 500), 4), (30, ck.n(3, 30), 4), (2, ck.n(20, 100), 14)):
            r = ck.model(tlc("GreedyConf", spec="Spec", invariants=INV + ["Emit"], constants=dict(Kinds='{"%s"}' % kind, MaxLen=length, MaxGiven=20, MaxFn=fn,
                                                                                                   Burst=0 if length < 30 else 14),
                             simulate=num, depth=4 * length, seed=ck.seed + 35))
            recs += r.records
        for it, rec in enumerate(recs):
            gk = int(rng.integers(3))
            grid = (UniformRadialGrid(int(rng.integers(25, 50)), 0.01, 6., dtype=float) if gk == 0 else
                    ClenshawRadialGrid(4, 16, 10, None, False, dtype=float) if gk == 1 else
                    _BaseRadialGrid(np.cumsum(rng.uniform(.05, .3, 35))))
            rr = grid.points
            d = rng.uniform(1, 4) * np.exp(-rng.uniform(.6, 2) * rr) + rng.uniform(.2, 2) * np.exp(-rng.uniform(.2, 2.) * rr * rr)
            sph = rec["fit"]["spherical"] == "given"
            norm = float(grid.integrate(d * (4 * np.pi * rr ** 2 if sph else 1.)))
            bounded = len(rec["log"]) > 3 or rec["all"]["l_maxiter"] == rec["all"]["g_maxiter"] == "given"
            cfg = {s: value(rng, s, v, norm, bounded) for s, v in rec["all"].items()}
            given = {s: v for s, v in cfg.items() if rec["all"][s] == "given"}
            if len(rec["log"]) > 3 or "method" in cfg and cfg["method"].lower() == "trust-constr":
                # would take very long
                for s in ("l_maxiter", "g_maxiter"):
                    if s not in given:
                        cfg[s] = given[s] = int(rng.integers(2, 12))
            choice = G.STRATEGIES[int(rng.integers(3))]
            what = f"{kind} {choice} " + " ".join(f"{s}={v:.3g}" if isinstance(v, float) else f"{s}={v}" for s, v in sorted(given.items()))
            desc = {"kind": kind, "choice": choice, "given": given, "points": rr.tolist(), "density": d.tolist(), "log": rec["log"]}
            ok, obj = guarded(ck, what, desc, {"ls": GreedyLeastSquares, "kl": GreedyKLFPI}[kind], grid, d, choice, **given)
            if not ok:
                continue
            ck.case((kind, tuple(sorted(given)), it), sample=what)
            for s, attr in REPORTED[kind].items():
                if getattr(obj, attr) != cfg[s]:
                    ck.fail(what + f": reports {attr}={getattr(obj, attr)}, specified {cfg[s]}", desc)
            want_norm = norm if cfg["integral_dens"] is None else cfg["integral_dens"]
            if abs(obj.integral_dens - want_norm) > 1e-12 * abs(want_norm):
                ck.fail(what + f": norm {obj.integral_dens}, specified {want_norm}", desc)
            if kind == "ls" and hasattr(bfit.fit, "minimize"):
                asked += scripted(ck, rng, rec, grid, d, cfg, given)
            if obj.grid is not grid or obj.density is not d or obj.model.num_s != 1 or obj.model.num_p != 0:
                ck.fail(what + ": grid, density or model are not the given ones", desc)
            for k, req in enumerate(rec["log"]):
                ns, np_ = req["ns"], req["np"]
                n = ns + np_
                if (ns, np_) != (obj.model.num_s, obj.model.num_p):
                    obj.model.change_numb_s_and_numb_p(ns, np_)
                a = np.exp(rng.uniform(-1.5, 2.) + np.cumsum(rng.uniform(.3, 1.2, n)) - .6 * n)
                guess = np.concatenate((rng.uniform(.2, 3., n), a))
                g0 = guess.copy()
                why = f"{what}: request {k} ({req['mode']} {ns}s{np_}p)"
                rp = dict(desc, request=k, guess=guess.tolist())
                refs = [reference(kind, grid, d, cfg, req, guess, rng, j) for j in (0., 1e-12)]
                total += 1
                if not all(np.all(np.isfinite(x)) for x in refs):
                    continue
                scale = np.abs(refs[0]) + 1e-6 * np.max(np.abs(refs[0])) + 1e-12
                ok, got = guarded(ck, why, rp, obj.get_optimization_routine, guess, local=req["mode"] == "local")
                if not ok:
                    continue
                got = np.asarray(got)
                if not np.array_equal(guess, g0):
                    ck.fail(why + ": modified its argument", rp)
                if got.shape != (2 * n,):
                    ck.fail(why + f": shape {got.shape}", rp)
                    continue
                if max(np.max(np.abs(x - refs[0]) / scale) for x in refs[1:]) > 1e-7:
                    continue                    # rounding decides the outcome
                bad = not np.all(np.abs(got - refs[0]) <= 1e-5 * scale)
                if bad:                         # look harder whether rounding decides the outcome
                    more = [reference(kind, grid, d, cfg, req, guess, rng, j) for j in (1e-15, 1e-14, 1e-13, 1e-11, 1e-10, 1e-9) for _ in range(2)]
                    if not all(np.max(np.abs(x - refs[0]) / scale) <= 1e-6 for x in more):
                        continue
                judged += 1
                ck.traces += 1
                if bad:
                    ck.fail(why + f": {got}, specified {refs[0]}", rp)
                # is the outcome able to tell the two kinds of run apart?
                if judged % 4 == 0:
                    other = dict(req, run=req["other"])
                    x = reference(kind, grid, d, cfg, other, guess, rng, 0.)
                    key = f"{kind} {'differs' if not np.all(np.abs(x - refs[0]) <= 1e-5 * scale) else 'same'}"
                    told[key] = told.get(key, 0) + 1
    ck.extra["requests"] = {"made": total, "judged": judged, "made to a recording optimizer": asked, "quick and refining settings": told}


if __name__ == "__main__":
    run_check("C35", "model_checking", body)
