import warnings
import numpy as np
from scipy.optimize import OptimizeResult, NonlinearConstraint, minimize
from vlib import run_check, guarded, tlc
import fitkit as K
from expr import LD, ev, mag, close, ld
import bfit.fit
from bfit.fit import ScipyFit
from bfit.measure import SquaredDifference, KLDivergence, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity


class Recorder:
    """Records the parameters at which the model is evaluated with derivatives."""

    def __init__(self, model):
        self.calls, orig = [], model.evaluate

        def evaluate(coeffs, expons, deriv=False):
            self.calls.append((np.array(coeffs, float), np.array(expons, float)))
            return orig(coeffs, expons, deriv) if deriv else orig(coeffs, expons)
        model.evaluate = evaluate


def instance(vec, c, e, x):
    """Numbers for a vector of symbols."""
    return np.array([{"c": c, "e": e, "x": x}[k][i - 1] for k, i in vec])


def asked(ask, fit, c, e, tol, maxiter, jitter=0., rng=None):
    """Asks scipy directly for what the specification says a run asks for."""
    x0 = np.concatenate([{"c": c, "e": e}[k][i - 1:i] for k, i in ask["start"]]).astype(float)
    if jitter:
        x0 = x0 * (1 + jitter * rng.standard_normal(len(x0)))
    args = {"none": (), "fixed_expons": ("fixed_expons", e), "fixed_coeffs": ("fixed_coeffs", c)}[ask["fixed"]]
    cons = [NonlinearConstraint(lambda x: fit.const_norm(x, *args), 0., 0., jac="3-point")] if ask["algorithm"] == "trust-constr" else \
        [{"type": "eq", "fun": fit.const_norm, "args": args}]
    opts = {k: {"tol": tol, "maxiter": maxiter}[v] for k, v in ask["options"].items()}
    try:
        res = minimize(fit.func, x0, args, ask["algorithm"], jac=True, bounds=[(10. ** b[1] * b[0], np.inf) for b in ask["lower"]],
                       constraints=cons if ask["norm"] else [], options=opts)
    except (ValueError, np.linalg.LinAlgError, FloatingPointError):
        return None
    return np.append(res["x"], float(res["success"]))


def assembly(ck, rng):
    """The optimizer replaced by a scripted environment that returns a chosen point and verdict."""
    r = ck.model(tlc("ScipyRun", spec="Spec", invariants=["Sizes", "FixedAsGiven", "NoProgressIsStart", "Faithful", "AllAsked", "Emit"],
                     constants=dict(MaxN=ck.n(5, 7), More=ck.n('{9, 17, 40}', '{9, 10, 17, 30, 40, 65}'))))
    asks = {(q["cfg"]["mode"], q["cfg"]["n"], q["cfg"]["method"], q["cfg"]["con"]): q["ask"] for q in r.records}
    if not hasattr(bfit.fit, "minimize"):
        ck.extra["scripted_optimizer"] = "not reachable"
        return asks
    orig = bfit.fit.minimize
    reached = 0
    for rec in r.records:
        cfg = rec["cfg"]
        n, mode = cfg["n"], cfg["mode"]
        grid, w = K.make_grid(rng, "uniform")
        ns = int(rng.integers(0, n + 1))
        model = AtomicGaussianDensity(grid.points, num_s=ns, num_p=n - ns, normalize=bool(rng.integers(2)))
        f = K.density(rng, grid, "pos")
        c, e = rng.uniform(.5, 2., n), rng.uniform(.5, 2., n)
        if mode == "exps" and rng.random() < .5:           # fixed ones may be anything
            c[int(rng.integers(n))] = [0., -.7, 1e-15][int(rng.integers(3))]
        if mode == "coeffs" and rng.random() < .5:
            e[int(rng.integers(n))] = [0., 1e-15, 1e9][int(rng.integers(3))]
        xs = rng.uniform(.5, 2., 2 * n)
        if rng.random() < .4:               # a parameter at its bound, or near it
            xs[int(rng.integers(2 * n))] = [1e-12, 1.5e-12, 4e-12, 1e-11][int(rng.integers(4))]
        if mode != "both" and rng.random() < .4:            # fixed ones more precise than the optimizer's
            fine = lambda v: ld(v) * (1 + LD(2) ** -60)
            c, e = (fine(c), e) if mode == "exps" else (c, fine(e))
        seen, status = [], int(rng.choice([0, 0, 1, 3, 4, 5, 6, 7, 8, 9]))

        def fake(fun, x0, args=(), **kw):
            x = instance(rec["x"], c, e, xs).astype(float)
            val, g = fun(x, *args)
            seen.append((np.array(x0), kw, val, np.array(g)))
            return OptimizeResult(x=x, fun=val, jac=g, grad=g, success=rec["verdict"], status=status, message="scripted",
                                  nit=int(rng.integers(0, 12)), nfev=int(rng.integers(1, 40)), njev=int(rng.integers(0, 12)), niter=int(rng.integers(0, 12)))
        replay = {"spec": rec, "num_s": ns, "num_p": n - ns, "coeffs": c.tolist(), "exps": e.tolist(), "x": xs.tolist()}
        what = f"{cfg} verdict={rec['verdict']}"
        tol, maxiter = float(10. ** -int(rng.integers(1, 15))), int(rng.choice([0, 1, 2, 10, 1000, 50000]))
        wt = [None, np.ones(len(f)), rng.uniform(0., 2., len(f)), (rng.random(len(f)) < .7) * 1., 1e4 * rng.uniform(.5, 1., len(f))][int(rng.integers(5))]
        ok, fit = guarded(ck, what, replay, ScipyFit, grid, f, model, SquaredDifference(), cfg["method"], wt, spherical=True)
        if not ok:
            continue
        bfit.fit.minimize = fake
        try:
            with warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always")
                ok, res = guarded(ck, what, replay, fit.run, c, e, mode != "exps", mode != "coeffs", maxiter, tol, False, cfg["con"])
        finally:
            bfit.fit.minimize = orig
        if not ok or not seen:
            continue
        reached += 1
        ck.traces += 1
        ck.case(("scripted", str(cfg), rec["verdict"], rec["x"][0][0] == "x"), sample=what)
        x0, kw, val, g = seen[0]
        if not np.array_equal(x0, instance(rec["start"], c, e, xs)):
            ck.fail(what + f": the optimizer starts from {x0}", replay)
        if bool(res["success"]) != rec["out"]["success"]:
            ck.fail(what + f": reports success={res['success']}", replay)
        if res["message"] != "scripted":
            ck.fail(what + f": reports the message {res['message']!r}, the optimizer's is 'scripted'", replay)
        told = [str(m.message) for m in warned if "scripted" in str(m.message)]
        if len(told) != rec["out"]["warnings"]:
            ck.fail(what + f": {len(told)} warnings of a failed optimization, specified {rec['out']['warnings']}", replay)
        for key in ("coeffs", "exps"):
            if not np.array_equal(np.asarray(res[key]), instance(rec["out"][key], c, e, xs)):
                ck.fail(what + f": returned {key} {res[key]}, specified {rec['out'][key]}", replay)
        if res["fun"] != val or not np.array_equal(np.asarray(res["jacobian"], float).ravel(), g) or len(g) != rec["out"]["jac"]:
            ck.fail(what + ": objective or Jacobian is not the optimizer's", replay)
        end = [instance(rec["out"][key], c, e, xs).astype(float) for key in ("coeffs", "exps")]
        dev = (ld(f) - ld(model.evaluate(*end))) ** 2
        whole = np.sum(ld(w) * 4 * LD(np.pi) * ld(grid.points) ** 2 * dev * (1 if wt is None else ld(wt)))
        if not close(val, whole, 1e-8):
            ck.fail(what + f": objective {val!r} is not that of the returned parameters, {float(whole)!r}", replay)
        b = kw.get("bounds")
        lo = np.asarray(b.lb) if hasattr(b, "lb") else np.array([-np.inf if t[0] is None else t[0] for t in (b or [])], dtype=float)
        if not len(np.atleast_1d(lo)) or len(np.broadcast_to(lo, x0.shape)) != len(x0) or not np.all(lo > 0):
            ck.fail(what + f": bounds {b} are not positive for every optimized parameter", replay)
        cons = kw.get("constraints")
        has = bool(cons) if not hasattr(cons, "fun") else True
        if has != cfg["con"]:
            ck.fail(what + f": constraint present={has}", replay)
    ck.extra["scripted_optimizer"] = f"{reached} runs"
    return asks


def body(ck):
    rng = np.random.default_rng(ck.seed + 18)
    ck.rule = ("the optimizer as environment: TLC enumerates modes x methods x constraint x verdicts and emits the assembled result, replayed "
               "with a scripted optimizer; real runs: objective, performance, Jacobian, bounds and constraint against the specified expressions")
    asks = assembly(ck, rng)
    same = {"compared": 0, "rounding decides": 0}
    r = ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=2, MaxCenters=2, MaxTotal=3, What='"opt"')))
    perf = ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=1, MaxCenters=1, MaxTotal=1, What='"perf"')))
    perf = {p["sph"]: p for p in perf.records}
    big = ck.model(tlc("FitCases", invariants=["ModesPartition", "Emit"], constants=dict(MaxPer=1, MaxCenters=1, MaxTotal=1, What='"opt+"'))).records
    outcome = {}
    for it in range(ck.n(220, 1500)):
        recs = big if it % 8 == 7 else r.records
        rec = recs[int(rng.integers(len(recs)))]
        kinds = [k for k in K.GRIDS if K.is_1d(k) or not rec["sph"]]
        kind = kinds[int(rng.integers(len(kinds)))]
        grid, w = K.make_grid(rng, kind)
        model, centers = K.make_model(rng, grid, rec["b"], rec["norm"])
        f = K.density(rng, grid, "pos")
        n, mode = rec["n"], rec["mode"]
        method = ["slsqp", "SLSQP", "trust-constr"][it % 3]
        con = bool(rng.integers(2))
        given = None if rng.random() < .6 else float(rng.uniform(.5, 5.))
        al = float([.5, 1.5, 2.][int(rng.integers(3))])
        default = rec["m"] == "kl" and rng.random() < .5
        pen, mask = (100000., 1e-12) if default else (1000., 1e-12)
        meas = {"square": lambda: SquaredDifference(), "kl": lambda: KLDivergence(mask, pen),
                "tsallis": lambda: TsallisDivergence(al, mask)}[rec["m"]]()
        wt = None if rng.random() < .5 else rng.uniform(.2, 2., len(f))
        if wt is not None and rng.random() < .4:
            wt[rng.random(len(f)) < .4] = 0.
        elif wt is not None and rng.random() < .3:
            wt = wt * float(rng.choice([1e-3, 1e4]))
        c, a = rng.uniform(.3, 2., n), np.exp(rng.uniform(-1., 1., n))
        if mode == "exps" and rec["m"] == "square" and rng.random() < .3:
            c[int(rng.integers(n))] = [0., -.5][int(rng.integers(2))]
        tol = float(10. ** -int(rng.integers(3, 13)))
        maxiter = int(rng.choice([2, 5, 30, 200]))
        if it % 12 == 5 and n <= 4:          # near a solution, which the algorithm reaches: its stopping criteria decide
            near = model.evaluate(c * rng.uniform(.8, 1.25, n), a * rng.uniform(.8, 1.25, n))
            if np.all(near > 0):
                f, maxiter, tol = near + 1e-3 * np.max(near) * f / np.max(f), 150, float(10. ** -int(rng.integers(3, 6)))
        replay = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=rec["sph"], measure=rec["m"], alpha=al,
                            mode=mode, method=method, constraint=con, tol=tol, maxiter=maxiter, integral_dens=given)
        what = (f"basis={rec['b']} normalize={rec['norm']} spherical={rec['sph']} on {kind} measure={rec['m']}{'(default)' if default else ''} "
                f"mode={mode} {method} constraint={con} tol={tol} maxiter={maxiter}")
        kw = {} if default else {"measure": meas}
        ok, fit = guarded(ck, what, replay, lambda: ScipyFit(grid, f, model, method=method, weights=wt, integral_dens=given,
                                                             spherical=rec["sph"], **kw))
        if not ok:
            continue
        if default:
            mm = fit.measure
            if not isinstance(mm, KLDivergence):
                ck.fail(what + f": default measure is {type(mm)}", replay)
                continue
            mask, pen = mm.mask_value, mm.negative_val
        ask = asks.get((mode, n, method.lower(), con)) if it % 2 else None
        if ask:
            refs = [asked(ask, fit, c, a, tol, maxiter, j, rng) for j in (0., 1e-12, 1e-9)]
        recd = Recorder(model)
        try:
            res = fit.run(c, a, mode != "exps", mode != "coeffs", maxiter, tol, False, con)
        except (ValueError, np.linalg.LinAlgError, FloatingPointError) as e:
            if "infs or NaNs" in str(e) or isinstance(e, np.linalg.LinAlgError):
                continue        # scipy's linear algebra met an infinite objective
            ck.fail(what + f": unexpected {type(e).__name__}: {e}", replay)
            continue
        except Exception as e:  # pylint: disable=broad-except
            ck.fail(what + f": unexpected {type(e).__name__}: {e}", replay)
            continue
        ck.traces += 1
        s = bool(res["success"])
        if ask:
            got = np.append({"both": np.append(res["coeffs"], res["exps"]), "coeffs": res["coeffs"], "exps": res["exps"]}[mode], float(s))
            if any(x is None or not np.all(np.isfinite(x)) for x in refs) or \
                    any(np.max(np.abs(x - refs[0]) / (np.abs(refs[0]) + 1e-6 * np.max(np.abs(refs[0])))) > 1e-6 for x in refs[1:]):
                same["rounding decides"] += 1
            else:
                same["compared"] += 1
                if got.shape != refs[0].shape or not np.all(np.abs(got - refs[0]) <= 1e-4 * (np.abs(refs[0]) + 1e-6 * np.max(np.abs(refs[0])))):
                    more = [asked(ask, fit, c, a, tol, maxiter, j, rng) for j in (1e-15, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8) for _ in range(2)]
                    if all(x is not None and np.max(np.abs(x - refs[0])) <= 1e-5 * np.max(np.abs(refs[0])) for x in more):
                        ck.fail(what + f": parameters and success {got}, the optimizer asked directly gives {refs[0]}", replay)
        outcome[f"{method.lower()}:{con}:{s}"] = outcome.get(f"{method.lower()}:{con}:{s}", 0) + 1
        ck.case((what,), sample=what)
        cc, aa = np.asarray(res["coeffs"]), np.asarray(res["exps"])
        if mode == "exps" and not np.array_equal(cc, c) or mode == "coeffs" and not np.array_equal(aa, a):
            ck.fail(what + ": parameters that were not optimized changed", replay)
        if cc.shape != (n,) or aa.shape != (n,):
            ck.fail(what + ": wrong number of parameters", replay)
            continue
        free = {"both": np.concatenate((cc, aa)), "coeffs": cc, "exps": aa}[mode]
        # the interior-point method meets the bounds to within its accuracy
        low = 1e-12 * (1 - 1e-6) if method.lower() == "slsqp" else -1e-7
        if not np.all(free >= low) and (s or method.lower() == "slsqp"):
            ck.fail(what + f": parameters outside the positive bounds: {free} (success={s})", replay)
        if not (np.all(np.isfinite(cc)) and np.all(np.isfinite(aa))):
            continue
        q = K.quad(w)
        env = K.fit_env(grid, centers, f, 1., mask, pen, al, 1. if wt is None else wt)
        env["norm"] = LD(given) if given is not None else ev(perf[rec["sph"]]["norm"], env, q)
        K.set_params(env, rec["val"], cc, aa)
        gs = np.broadcast_to(mag(rec["val"], env), f.shape)
        und = K.undecidable(env["g"], gs, mask, bool(np.any(free < 0) or np.any(cc < 0))) or np.any(np.abs(env["g"] - 1e-18) < 1e-24)
        if und and rec["m"] != "square":
            continue
        want, sc = ev(rec["obj"], env, q), mag(rec["obj"], env, q)
        # rounding of the model's values, which matters when the fit is nearly perfect
        vol = 4 * LD(np.pi) * env["x"] ** 2 if rec["sph"] else 1
        near = q((1 if wt is None else ld(wt)) * (np.abs(env["f"]) + np.abs(gs)) * vol * (np.abs(env["f"] - env["g"]) if rec["m"] == "square" else 1))
        if not close(res["fun"], want, 1e-8, np.maximum(sc, abs(near) * LD(1e-6))):
            ck.fail(what + f": objective {res['fun']!r}, at the returned parameters it is {float(want)!r}", replay)
        env2 = dict(env, mask=LD(1e-18), penalty=LD(100000.))
        pv = perf[rec["sph"]]["perf"]
        for k in range(5):
            if k == 4 and (und or np.any(env["g"] < 0)):
                continue
            if not close(res["performance"][k], ev(pv[k], env2, q), 1e-8,
                         np.maximum(mag(pv[k], env2, q), abs(q((np.abs(env["f"]) + np.abs(gs)) * vol)) * LD(1e-6))):
                ck.fail(what + f": performance entry {k} is {res['performance'][k]!r}, specified {float(ev(pv[k], env2, q))!r}", replay)
        cons = ev(rec["cons"], env, q)
        if con and s and abs(cons) > max(20 * tol, 1e-7 * (1 + abs(env["norm"]))):
            ck.fail(what + f": succeeded with the constraint violated by {float(cons)!r}", replay)
        jac = np.asarray(res["jacobian"], float).ravel()
        if jac.shape != free.shape:
            ck.fail(what + f": Jacobian of shape {jac.shape} for {len(free)} optimized parameters", replay)
            continue
        # the gradient at the returned parameters, or where the optimizer evaluated it last
        cand = [(cc, aa)] + ([] if method == "trust-constr" else recd.calls[::-1][:40])
        hit = False
        for pc, pa in cand:
            K.set_params(env, rec["val"], pc, pa)
            if all(close(jac[k], ev(e, env, q), 1e-6, mag(e, env, q)) for k, e in enumerate(rec["grad"])):
                hit = True
                break
        if not hit:
            ck.fail(what + f": Jacobian {jac} is not the gradient of the objective", replay)
    ck.extra["outcomes"] = outcome
    ck.extra["runs compared with the optimizer asked directly"] = same


if __name__ == "__main__":
    run_check("C18", "model_checking", body)
