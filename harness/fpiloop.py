"""Executions of the fixed-point run compared with the specified control loop (C14, C15)."""
import numpy as np
from vlib import guarded, tlc
import fitkit as K
from expr import LD, ev, close
from bfit.fit import KLDivergenceFPI
from bfit.grid import _BaseRadialGrid
from bfit.model import AtomicGaussianDensity

INV = ["Bounded", "Recorded", "Truthful", "StopsForAReason", "NeverPastConvergence"]
INF, NAN = 1000000, -1
NEVER = -1.     # a threshold below every change


def explore(ck):
    ck.model(tlc("FpiCases", spec="Spec", invariants=INV, properties=["Terminates"],
                 constants=dict(Mode='"all"', MaxIt=ck.n(2, 3)), workers=4))


def rank(values, thresholds):
    """Order-preserving integers (1, 2, ..) for everything that is compared."""
    allv = sorted({LD(v) for v in list(values) + list(thresholds) if not np.isnan(v) and not np.isinf(v)})
    idx = {v: i + 1 for i, v in enumerate(allv)}

    def f(v):
        return NAN if np.isnan(v) else INF if np.isinf(v) else idx[LD(v)]
    return f


def problem(rng, rec, degenerate):
    kinds = [k for k in K.GRIDS if K.is_1d(k) or not rec["sph"]]
    kind = kinds[int(rng.integers(len(kinds)))]
    grid, w = K.make_grid(rng, kind)
    model, centers = K.make_model(rng, grid, rec["b"], rec["norm"])
    f = K.density(rng, grid, "pos")
    n = rec["n"]
    c, a = rng.uniform(.2, 3., n), np.exp(rng.uniform(-1.5, 1.5, n))
    mask = 0.
    if degenerate == "tinyunits":           # new exponents whose normalization overflows
        u = LD(10) ** int(rng.integers(-135, -125))
        p = np.linspace(0., 6., int(rng.integers(30, 60)))
        grid = _BaseRadialGrid(np.asarray(p * u, float))
        w = K.trapz_weights(grid.points)
        s, q = rec["b"][0]
        model, centers = AtomicGaussianDensity(grid.points, num_s=s, num_p=q, normalize=rec["norm"]), [None]
        f = np.exp(-p / rng.uniform(.05, 1.)) * rng.uniform(.5, 2.)
        c, a = rng.uniform(.2, 3., n), 10. ** rng.uniform(190., 201., n)
        return "radial", grid, w, model, centers, f, c * 1e-100, a, mask
    if degenerate == "underflow":           # a function that vanishes at every point: 0/0 in its exponent
        a[int(rng.integers(n))] = 1e8
    elif degenerate == "negative":
        c[int(rng.integers(n))] = -20.
    elif degenerate == "masked":
        mask = float(rng.choice([1e-3, 1e-1, 10.]))
    elif degenerate == "single":
        pass
    return kind, grid, w, model, centers, f, c, a, mask


def reference(fit, c, a, oc, oe, steps):
    """Iterates one at a time through runs of a single iteration."""
    ps, gof, funs = [(c, a)], [], []
    for _ in range(steps):
        res = fit.run(ps[-1][0], ps[-1][1], oc, oe, 1, NEVER, NEVER, NEVER)
        if len(res["fun"]) != 1:
            return None
        ps.append((res["coeffs"], res["exps"]))
        gof.append(fit.goodness_of_fit(*ps[-1]))
    return ps, gof


def same(x, y):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) |
                                              (np.abs(x - y) <= 1e-11 * np.abs(y))))


def instances(ck, rng, count):
    """Random problems, their reference iterates, and threshold choices around the observed changes."""
    recs = tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=2, MaxCenters=2, MaxTotal=3, What='"step"'))
    ck.model(recs)
    recs, big = recs.records, ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=1, MaxCenters=1, MaxTotal=1, What='"step+"'))).records
    out = []
    for it in range(count):
        rec = recs[int(rng.integers(len(recs)))] if it % 11 else big[int(rng.integers(len(big)))]
        deg = ["", "", "", "", "single", "underflow", "negative", "masked"][it % 8]
        if it % 19 == 7:
            fit = [x for x in recs if len(x["b"]) == 1 and not x["sph"] and x["norm"]]
            rec, deg = fit[int(rng.integers(len(fit)))], "tinyunits"
        kind, grid, w, model, centers, f, c, a, mask = problem(rng, rec, deg)
        mode = ["both", "coeffs", "exps"][int(rng.integers(3))]
        oc, oe = mode != "exps", mode != "coeffs"
        given = None if rng.random() < .5 and deg != "tinyunits" else float(rng.uniform(1., 5.))
        desc = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=rec["sph"], mask=mask, mode=mode, integral_dens=given)
        what = f"basis={rec['b']} normalize={rec['norm']} spherical={rec['sph']} on {kind} mode={mode} {deg}"
        ok, fit = guarded(ck, what, desc, KLDivergenceFPI, grid, f, model, mask, given, rec["sph"])
        if not ok:
            continue
        steps = int(rng.integers(1, 7)) if rng.random() < .9 else int(rng.integers(20, 60))
        if it % 25 == 24 and len(f) < 100:
            steps = int(rng.integers(100, 450))
        ok, ref = guarded(ck, what + " single iterations", desc, reference, fit, c, a, oc, oe, steps)
        if not ok:
            continue
        if ref is None:
            ck.fail(what + ": a run limited to one iteration, with thresholds below every change, did not record one iteration", desc)
            continue
        if it % 5 == 2 and deg != "tinyunits" and steps > 1:      # another unit of the model, in which the divergence changes its sign
            k = int(rng.integers(1, steps)) if rng.random() < .5 else 1
            with np.errstate(all="ignore"):
                s = float(np.exp((ref[1][k][-1] + ref[1][k - 1][-1]) / 2 / fit.integrate(fit.density)))
            if 1e-3 < s < 1e3:
                given, c = float(fit.integral_dens * s), c if oc else c * s
                desc = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=rec["sph"], mask=mask, mode=mode, integral_dens=given)
                ok, fit = guarded(ck, what, desc, KLDivergenceFPI, grid, f, model, mask, given, rec["sph"])
                if not ok:
                    continue
                ok, ref = guarded(ck, what + " single iterations", desc, reference, fit, c, a, oc, oe, steps)
                if not ok or ref is None:
                    continue
        ps, gof = ref
        dc = [np.max(np.abs(ps[i + 1][0] - ps[i][0])) for i in range(steps)]
        de = [np.max(np.abs(ps[i + 1][1] - ps[i][1])) for i in range(steps)]
        kl = [g[-1] for g in gof]
        dd = [np.inf] + [np.abs(kl[i] - kl[i - 1]) for i in range(1, steps)]
        for rep in range(4 if steps < 100 else 2):
            def pick(seq):
                if steps >= 100 and rep == 0:
                    return NEVER
                fs = sorted({v for v in seq if np.isfinite(v)})
                u = rng.random()
                if u < .02:
                    return np.inf        # nothing exceeds it
                if not fs or u < .25:
                    return NEVER
                if u < .5:
                    return fs[int(rng.integers(len(fs)))]        # exactly a change that occurs
                i = int(rng.integers(len(fs)))
                lo = fs[i]
                hi = fs[i + 1] if i + 1 < len(fs) else lo * 4 + 1
                return (lo + hi) / 2 if u < .9 else hi * 10 + 1
            cth, eth, dth = pick(dc), pick(de), pick(dd[1:])
            if mode == "coeffs" and rng.random() < .7:
                eth = NEVER if rng.random() < .2 else 0.
            if mode == "exps" and rng.random() < .7:
                cth = 0.
            if deg == "tinyunits" and rep < 2:      # nothing counts as a change of a parameter
                cth, eth = (4 * max([v for v in s if np.isfinite(v)], default=1.) for s in (dc, de))
            maxiter = int(rng.integers(0, steps + 1)) if rng.random() < .8 and (steps < 100 or rep) else steps
            if rng.random() < .2:
                maxiter = steps + 40        # the limit is not what stops it (if it stops within the reference)
            out.append(dict(rec=rec, fit=fit, ps=ps, gof=gof, c=c, a=a, oc=oc, oe=oe, steps=steps, dc=dc, de=de, dd=dd,
                            cth=cth, eth=eth, dth=dth, maxiter=maxiter, what=what, desc=desc, deg=deg, mask=mask))
    return out


def predict(ck, insts):
    data = []
    for i, x in enumerate(insts):
        rc, re, rd = rank(x["dc"], [x["cth"]]), rank(x["de"], [x["eth"]]), rank(x["dd"], [x["dth"]])
        fin = [bool(np.all(np.isfinite(c)) and np.all(np.isfinite(a))) for c, a in x["ps"]]
        n = x["steps"]
        # the instance is only decided if the loop stops within the reference
        data.append({"id": i, "dc": [rc(v) for v in x["dc"]], "de": [re(v) for v in x["de"]], "dd": [rd(v) for v in x["dd"]],
                     "fin": fin, "und": [bool(np.isnan(g[-1])) for g in x["gof"]], "cth": rc(x["cth"]), "eth": re(x["eth"]), "dth": rd(x["dth"]),
                     "maxiter": min(x["maxiter"], n)})
    r = ck.model(tlc("FpiCases", spec="Spec", invariants=INV + ["Emit"], properties=["Terminates"],
                     constants=dict(Mode='"file"', MaxIt=1), inputs={"inst.json": data}))
    pred = {p["id"]: p for p in r.records}
    out = []
    for i, x in enumerate(insts):
        p = pred[i]
        if x["maxiter"] > x["steps"] and p["niter"] == x["steps"]:
            continue            # the reference is too short to tell
        if x["maxiter"] > x["steps"]:
            p = dict(p)         # it stopped before the end, so the true (larger) limit is irrelevant
        out.append((x, p))
    return out


def execute(ck, x, p):
    kw = dict(opt_coeffs=x["oc"], opt_expons=x["oe"], maxiter=x["maxiter"], c_threshold=x["cth"],
              e_threshold=x["eth"], d_threshold=x["dth"])
    replay = dict(x["desc"], c_threshold=float(x["cth"]), e_threshold=float(x["eth"]), d_threshold=float(x["dth"]),
                  maxiter=x["maxiter"], predicted=p)
    what = x["what"] + f" maxiter={x['maxiter']} c_thr={float(x['cth']):.6g} e_thr={float(x['eth']):.6g} d_thr={float(x['dth']):.6g}"
    ok, res = guarded(ck, what, replay, x["fit"].run, x["c"], x["a"], **kw)
    return ok, res, what, replay
