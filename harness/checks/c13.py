import numpy as np
from vlib import run_check, guarded, tlc
import fitkit as K
from expr import LD, ev, mag, close, ld, env_params
from bfit.fit import KLDivergenceFPI


def iterate(rec, env, q, cc, aa, steps, mode, mask, neg, jitter=lambda x: x):
    """The specified update, that often; and whether rounding cannot matter."""
    safe = True
    for _s in range(steps):
        cc, aa = jitter(cc), jitter(aa)
        K.set_params(env, rec["val"], cc, aa)
        if K.undecidable(env["g"], np.max(np.abs(env["g"])), mask, signed=neg):
            safe = False
        nc = np.array([ev(e, env, q) for e in rec["newc"]], dtype=LD)
        one = dict(env, **env_params(np.ones(len(cc)), aa))        # the averages; they may underflow
        avg = np.array([ev(e, one, q) for e in rec["newc"]], dtype=LD)
        safe &= bool(np.all(np.abs(avg) > 1e-200) | ~np.all(np.isfinite(nc)))
        if neg:                 # averages that are differences of much larger numbers
            safe &= all(mag(e, env, q) < 1e5 * abs(ev(e, env, q)) for e in list(rec["newc"]) + list(rec["newa"]))
        nc = nc if mode != "exps" else cc
        na = np.array([ev(e, env, q) for e in rec["newa"]], dtype=LD) if mode != "coeffs" else aa
        cc, aa = nc, na
    return safe, cc, aa


def body(ck):
    rng = np.random.default_rng(ck.seed + 13)
    r = ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=2, MaxCenters=ck.n(2, 3), MaxTotal=ck.n(3, 5), What='"step"')))
    recs = r.records + ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=1, MaxCenters=1, MaxTotal=1, What='"step+"'))).records * ck.n(1, 2)
    ck.rule = ("every basis within bounds x normalization x spherical choice; one and several iterations through the public run with "
               "unreachable thresholds, compared with the specified update applied as often; masks, prescribed norms, update choices vary")
    reps = ck.n(10, 40)
    for rec in recs:
        for _ in range(reps):
            kinds = [k for k in K.GRIDS if K.is_1d(k) or not rec["sph"]]
            kind = kinds[int(rng.integers(len(kinds)))]
            grid, w = K.make_grid(rng, kind)
            s = 1.
            if rng.random() < .25:
                grid, w, s = K.scaled(rng, grid, w)
            model, centers = K.make_model(rng, grid, rec["b"], rec["norm"], s)
            f = K.density(rng, grid, ["pos", "zeros"][int(rng.random() < .25)], s)
            mask = [0., 0., 1e-3, .1][int(rng.integers(4))]
            given = None if rng.random() < .5 else float(rng.uniform(.5, 5.))
            mode = ["both", "coeffs", "exps"][int(rng.integers(3))]
            c = rng.uniform(.1, 3., rec["n"])
            a = np.exp(rng.uniform(-1., 2., rec["n"])) / s ** 2
            if rec["norm"]:
                c = c * s ** 3          # keeps the size of the model
            if rng.random() < .12:      # a function that does not count, or hardly
                c[int(rng.integers(rec["n"]))] *= [0., 0., 1e-9, 1e-15][int(rng.integers(4))]
            neg = rng.random() < .12 and rec["n"] > 1
            if neg:                     # a model that is negative somewhere
                c[int(rng.integers(rec["n"]))] *= -1.
            t = rng.random()
            if t < .15 and not neg:     # identical functions
                c[:], a[:] = c[0], a[0]
            elif t < .35 and rec["n"] > 1:   # very sharp and very diffuse functions side by side
                a = 10. ** rng.uniform(-3., 3.5, rec["n"]) / s ** 2
                a[:2] = np.array([10. ** rng.uniform(2., 3.5), 10. ** -rng.uniform(1., 3.)]) / s ** 2
            q = K.quad(w)
            tot = ev(["int", ["mul", ["mul", ["mul", ["num", 4, 1], ["pi"]], ["pow", ["var", "x"], 2, 1]], ["var", "f"]]]
                     if rec["sph"] else ["int", ["var", "f"]], K.fit_env(grid, centers, f, 1., mask), q)
            if given is not None and rng.random() < .3:     # nearly the numerical integral
                given = float(tot) * (1. + float(rng.choice([-1., 1.])) * 10. ** rng.uniform(-8., -1.5))
            replay = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=rec["sph"], mask=mask, integral_dens=given, mode=mode)
            what = f"basis={rec['b']} normalize={rec['norm']} spherical={rec['sph']} on {kind} mask={mask} mode={mode}"
            ok, fit = guarded(ck, what, replay, KLDivergenceFPI, grid, f, model, mask, given, rec["sph"])
            if not ok:
                continue
            ck.case((str(rec["b"]), rec["norm"], rec["sph"], kind, mode, mask, given is None), sample={"what": what})
            norm = LD(given) if given is not None else tot
            env = K.fit_env(grid, centers, f, norm, mask)
            lam = ev(rec["lam"], env, q)
            if not close(fit.lagrange_multiplier, lam, 1e-10):
                ck.fail(what + f": multiplier {fit.lagrange_multiplier}, specified {lam}", replay)
            steps = 1 if rng.random() < .6 else int(rng.integers(2, 4)) if rng.random() < .97 else int(rng.integers(20, 61))
            safe, cc, aa = iterate(rec, env, q, ld(c), ld(a), steps, mode, mask, neg)
            if safe and steps > 3:      # errors of rounding may grow
                jit = lambda x: ld(x) * (1 + LD(1e-14) * rng.standard_normal(len(x)))    # noqa: E731
                safe, c2, a2 = iterate(rec, env, q, ld(c), ld(a), steps, mode, mask, neg, jit)
                safe = safe and close(c2, cc, 1e-10) and close(a2, aa, 1e-10)
            if not safe or not (np.all(np.isfinite(cc)) and np.all(np.isfinite(aa)) and np.all(aa > 0) and np.all(aa < 1e4 / s ** 2)):
                continue
            ok, res = guarded(ck, what, replay, fit.run, c, a, mode != "exps", mode != "coeffs", steps,
                              -1., -1., -1.)
            if not ok:
                continue
            ck.traces += 1
            if not close(res["coeffs"], cc, 1e-7) or not close(res["exps"], aa, 1e-7):
                ck.fail(what + f": after {steps} iteration(s) got {res['coeffs']}, {res['exps']}; specified "
                        f"{np.asarray(cc, float)}, {np.asarray(aa, float)}", replay)


if __name__ == "__main__":
    run_check("C13", "model_checking", body)
