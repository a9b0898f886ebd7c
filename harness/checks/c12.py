import numpy as np
from vlib import run_check, guarded, tlc
import models as M
import fitkit as K
from expr import LD, ev, mag, close, ld
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference, KLDivergence, TsallisDivergence


def body(ck):
    rng = np.random.default_rng(ck.seed + 12)
    r = ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=1, MaxCenters=1, MaxTotal=1, What='"perf"')))
    perf = {x["sph"]: x for x in r.records}
    recs = M.mol_records(ck, False, 2, 2, 4, [[[9, 4]], [[2, 3], [1, 0], [0, 2], [1, 1]]])
    wide = [x for x in recs if x["n"] > 8]
    ck.rule = ("every small basis x fit class x spherical choice x grid kind, densities with and without zeros, models with negative, "
               "masked and vanishing values; five performance numbers, the norm and integrate() against the specified quadratures")
    for it in range(ck.n(3600, 24000)):
        feat = ["plain", "negative", "tiny", "zero", "undefined"][int(rng.choice(5, p=[.44, .18, .18, .1, .1]))]
        rec = recs[int(rng.integers(len(recs)))] if it % 20 else wide[int(rng.integers(len(wide)))]
        while feat == "undefined" and (rec["norm"] or len(rec["b"]) > 1) and rng.random() < .9:
            rec = recs[int(rng.integers(len(recs)))]
        kind = K.GRIDS[int(rng.integers(len(K.GRIDS)))]
        sph = K.is_1d(kind) and bool(rng.random() < .6)
        grid, w = K.make_grid(rng, kind)
        model, centers = K.make_model(rng, grid, rec["b"], rec["norm"])
        dk = ["pos", "zeros"][int(rng.integers(2))]
        if feat == "undefined" and len(rec["b"]) == 1 and rng.random() < .7:
            centers = [np.array(np.atleast_1d(grid.points[int(rng.integers(len(grid.points)))]), dtype=float)]
            model = AtomicGaussianDensity(grid.points, centers[0], *rec["b"][0], normalize=rec["norm"])
        f = K.density(rng, grid, dk)
        if rng.random() < .05:          # counts
            f = np.round(np.asarray(f, float) * 10. ** int(rng.integers(0, 6))).astype(int)
            f[int(rng.integers(len(f)))] += 1
        cls = ["fpi", "scipy"][int(rng.integers(2))]
        mask = [None, 1e-6, 0.05, 0.][int(rng.integers(4))]
        given = [None, None, float(rng.uniform(.5, 5.)), [1., 1, 2, float(10. ** rng.uniform(-14, 9))][int(rng.integers(4))]][int(rng.integers(4))]
        kw = dict(integral_dens=given, spherical=sph)
        if mask is not None:
            kw["mask_value"] = mask
        c = rng.uniform(.1, 3., rec["n"])
        a = np.exp(rng.uniform(-1., 3.5, rec["n"]))
        if feat == "negative":
            c[int(rng.integers(rec["n"]))] *= -2.
        if feat == "tiny":
            a = a * 40.
        if feat == "zero":
            c = c * 0.
        if feat == "undefined":
            k = int(rng.integers(rec["n"]))
            if rng.random() < .5:
                (c if rng.random() < .6 else a)[k] = np.nan
            else:                       # undefined at the centre only
                a[k] = np.inf
        emask = mask if mask is not None else (0. if cls == "fpi" else 1e-18)
        replay = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=sph, fit=cls, mask=mask, integral_dens=given)
        what = f"{cls} on {kind} spherical={sph} basis={rec['b']} normalize={rec['norm']} mask={mask} {dk}/{feat}"
        if cls == "fpi":
            ok, fit = guarded(ck, what, replay, KLDivergenceFPI, grid, f, model, **kw)
        else:
            meas = [SquaredDifference(), KLDivergence(1e-2), TsallisDivergence(2.)][int(rng.integers(3))]
            ok, fit = guarded(ck, what, replay, ScipyFit, grid, f, model, meas, **kw)
        if not ok:
            continue
        ck.case((cls, kind, sph, str(rec["b"]), rec["norm"], dk, feat, mask is None, given is None), sample={"what": what})
        q = K.quad(w)
        env = K.fit_env(grid, centers, f, 1., emask)
        want = ev(perf[sph]["norm"], env, q)
        wn = want if given is None else LD(given)
        if not close(fit.integral_dens, wn, 1e-10):
            ck.fail(what + f": norm of the density {fit.integral_dens}, specified {wn}", replay)
        h = rng.normal(size=len(f))
        env2 = dict(env, f=ld(h))
        if not close(fit.integrate(h), ev(perf[sph]["norm"], env2, q), 1e-9, mag(perf[sph]["norm"], env2, q)):
            ck.fail(what + ": integrate() differs", replay)
        K.set_params(env, rec["val"], c, a)
        gs = np.broadcast_to(mag(rec["val"], env), f.shape)
        # a model value within rounding of zero or of the mask has no decidable class
        if K.undecidable(env["g"], gs, emask, feat == "negative"):
            continue
        ok, got = guarded(ck, what + " goodness_of_fit", replay, fit.goodness_of_fit, c, a)
        if not ok:
            continue
        if len(got) != 5:
            ck.fail(what + ": performance does not have five entries", replay)
            continue
        for k, name in enumerate(["integral", "L1", "Linf", "least-squares", "Kullback-Leibler"]):
            e = perf[sph]["perf"][k]
            want, sc = ev(e, env, q), mag(e, env, q)
            if k == 0:
                sc = ev(e, dict(env, g=gs), q)
            if k == 4:
                sc = max(sc, ev(perf[sph]["norm"], env, q))
            if not close(got[k], want, 1e-8, sc):
                ck.fail(what + f": {name} is {got[k]!r}, specified {float(want)!r}", replay)


if __name__ == "__main__":
    run_check("C12", "model_checking", body)
