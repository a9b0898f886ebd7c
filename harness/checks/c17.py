import numpy as np
from vlib import run_check, guarded, tlc
import fitkit as K
from expr import LD, ev, mag, close, ld
from bfit.fit import ScipyFit
from bfit.measure import SquaredDifference, KLDivergence, TsallisDivergence


def body(ck):
    rng = np.random.default_rng(ck.seed + 171)
    r = ck.model(tlc("FitCases", invariants=["ModesPartition", "Emit"],
                     constants=dict(MaxPer=2, MaxCenters=2, MaxTotal=ck.n(3, 4), What='"opt"')))
    recs = r.records + ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=1, MaxCenters=1, MaxTotal=1, What='"opt+"'))).records
    ck.rule = ("every basis within bounds x normalization x spherical choice x measure x optimized parameters: objective, gradient and "
               "constraint against the specified expressions (gradient derived symbolically); weights, masks, norms, grids random")
    for rec in recs:
        for _ in range(ck.n(2, 8)):
            kinds = [k for k in K.GRIDS if K.is_1d(k) or not rec["sph"]]
            kind = kinds[int(rng.integers(len(kinds)))]
            grid, w = K.make_grid(rng, kind)
            s = 1.
            if rng.random() < .2:
                grid, w, s = K.scaled(rng, grid, w)
            model, centers = K.make_model(rng, grid, rec["b"], rec["norm"], s)
            f = K.density(rng, grid, ["pos", "zeros"][int(rng.random() < .25)], s)
            given = None if rng.random() < .5 else float(rng.uniform(.5, 5.))
            mask, pen, al = float([1e-12, 1e-3][int(rng.integers(2))]), 1000., float([.5, 1.5, 2.][int(rng.integers(3))])
            meas = {"square": lambda: SquaredDifference(), "kl": lambda: KLDivergence(mask, pen), "tsallis": lambda: TsallisDivergence(al, mask)}[rec["m"]]()
            wt = None if rng.random() < .4 else rng.uniform(.1, 3., len(f))
            if wt is not None and rng.random() < .4:
                wt[rng.random(len(f)) < .4] = 0.
            if wt is not None and rng.random() < .3:
                wt = wt * 10. ** float(rng.choice([-12, -5, 4, 9]))
            c = rng.uniform(.1, 3., rec["n"])
            if rng.random() < .25:
                c[int(rng.integers(rec["n"]))] = 0.
            a = np.exp(rng.uniform(-1., 2., rec["n"]))
            a = a / s ** 2
            if rec["norm"]:
                c = c * s ** 3
            if rng.random() < .15:
                c[int(rng.integers(rec["n"]))] *= -2.5
            if rng.random() < .12:          # outside the bounds of an optimizer, but still a model
                a[int(rng.integers(rec["n"]))] = [0., -.02, -.3, 1e-13][3 if rec["norm"] else int(rng.integers(4))] / s ** 2
            method = ["SLSQP", "slsqp", "trust-constr"][int(rng.integers(3))]
            replay = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=rec["sph"], measure=rec["m"],
                                mask=mask, alpha=al, mode=rec["mode"], weights=None if wt is None else wt.tolist()[:40], integral_dens=given)
            what = f"basis={rec['b']} normalize={rec['norm']} spherical={rec['sph']} on {kind} measure={rec['m']} mode={rec['mode']}"
            ok, fit = guarded(ck, what, replay, ScipyFit, grid, f, model, meas, method, wt, given, rec["sph"])
            if not ok:
                continue
            q = K.quad(w)
            env = K.fit_env(grid, centers, f, 1., mask, pen, al, 1. if wt is None else wt)
            tot = ev(["int", ["mul", ["mul", ["mul", ["num", 4, 1], ["pi"]], ["pow", ["var", "x"], 2, 1]], ["var", "f"]]]
                     if rec["sph"] else ["int", ["var", "f"]], env, q)
            env["norm"] = LD(given) if given is not None else tot
            K.set_params(env, rec["val"], c, a)
            gs = np.broadcast_to(mag(rec["val"], env), f.shape)
            if K.undecidable(env["g"], gs, mask, bool(np.any(c < 0))):
                continue
            ck.case((str(rec["b"]), rec["norm"], rec["sph"], rec["m"], rec["mode"], kind), sample={"what": what})
            args = {"both": (), "coeffs": ("fixed_expons", a), "exps": ("fixed_coeffs", c)}[rec["mode"]]
            x = {"both": np.concatenate((c, a)), "coeffs": c, "exps": a}[rec["mode"]]
            ok, got = guarded(ck, what + " objective", replay, fit.func, x, *args)
            if not ok:
                continue
            want, sc = ev(rec["obj"], env, q), mag(rec["obj"], env, q)
            if not close(got[0], want, 1e-8, sc):
                ck.fail(what + f": objective {got[0]!r}, specified {float(want)!r}", replay)
            g = np.asarray(got[1])
            if g.shape != (len(rec["grad"]),):
                ck.fail(what + ": gradient has wrong length", replay)
            else:
                for k, e in enumerate(rec["grad"]):
                    if not close(g[k], ev(e, env, q), 1e-7, mag(e, env, q)):
                        ck.fail(what + f": gradient entry {k} is {g[k]!r}, specified {float(ev(e, env, q))!r}", replay)
                        break
            ok, cn = guarded(ck, what + " constraint", replay, fit.const_norm, x, *args)
            want = ev(rec["cons"], env, q)
            if ok and not close(cn, want, 1e-9, abs(env["norm"]) + q(np.abs(env["g"]) * (4 * np.pi * env["x"] ** 2 if rec["sph"] else 1))):
                ck.fail(what + f": constraint {cn!r}, specified {float(want)!r}", replay)
            # the same optimized parameters next to other fixed ones, then the first ones again
            if rec["mode"] != "both" and np.all(c >= 0):
                c2, a2 = (c, a * 1.25) if rec["mode"] == "coeffs" else (c * 1.25 + .25, a)
                env2 = K.set_params(dict(env), rec["val"], c2, a2)
                args2 = {"coeffs": ("fixed_expons", a2), "exps": ("fixed_coeffs", c2)}[rec["mode"]]
                if not K.undecidable(env2["g"], np.broadcast_to(mag(rec["val"], env2), f.shape), mask):
                    for ar, en in ((args2, env2), (args, env)):
                        for name, e in (("constraint", "cons"), ("objective", "obj")):
                            ok, v = guarded(ck, what + " " + name, replay, fit.const_norm if e == "cons" else fit.func, x, *ar)
                            want = ev(rec[e], en, q)
                            sc = mag(rec[e], en, q) if e == "obj" else abs(en["norm"]) + q(np.abs(en["g"]) * (4 * np.pi * en["x"] ** 2 if rec["sph"] else 1))
                            if ok and not close(v if e == "cons" else v[0], want, 1e-8, sc):
                                ck.fail(what + f": {name} with other fixed parameters at the same optimized ones is not specified {float(want)!r}", replay)
            ok, md = guarded(ck, what + " evaluate_model", replay, fit.evaluate_model, x, *args)
            if ok:
                if not close(md[0], env["g"], 1e-9, gs) or np.shape(md[1]) != (len(f), len(rec["cols"])) or not all(
                        close(md[1][:, k], np.broadcast_to(ev(e, env), f.shape), 1e-8, np.broadcast_to(mag(e, env), f.shape)) for k, e in enumerate(rec["cols"])):
                    ck.fail(what + ": model or its free columns differ", replay)


if __name__ == "__main__":
    run_check("C17", "model_checking", body)
