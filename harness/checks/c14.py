import numpy as np
from vlib import run_check, guarded
import fpiloop as L
import fitkit as K
from expr import LD, ev, close


def body(ck):
    rng = np.random.default_rng(ck.seed + 14)
    L.explore(ck)
    ck.rule = ("TLC explores the loop over every pattern of changes, thresholds, NaN and limits; the real run is executed on random problems "
               "with thresholds at, below and above the observed changes, and its records and parameters compared with the predicted behaviour")
    insts = L.instances(ck, rng, ck.n(320, 3600))
    stops = {}
    for x, p in L.predict(ck, insts):
        n = p["niter"]
        ok, res, what, replay = L.execute(ck, x, p)
        if not ok:
            continue
        ck.traces += 1
        stops[n] = stops.get(n, 0) + 1
        ck.case((what, n), sample={"what": what, "iterations": n})
        if len(res["fun"]) != n:
            ck.fail(what + f": recorded {len(res['fun'])} iterations, specified {n}", replay)
            continue
        if len(res["performance"]) != n:
            ck.fail(what + f": {len(res['performance'])} performance rows for {n} iterations", replay)
            continue
        c, a = x["ps"][n]
        if not (L.same(res["coeffs"], c) and L.same(res["exps"], a)):
            ck.fail(what + f": returned parameters are not those of iteration {n}", replay)
        for k in range(n):
            if not L.same(res["performance"][k], x["gof"][k]):
                ck.fail(what + f": performance row {k} is not that of iteration {k + 1}", replay)
                break
        if n and not L.same(res["fun"], np.array(res["performance"])[:, -1]):
            ck.fail(what + ": objective values differ from the last performance entry", replay)
    ck.extra["iterations_histogram"] = {str(k): v for k, v in sorted(stops.items())}
    # the single iterations used as reference are the specified steps
    for x in insts[::4]:
        if x["deg"] or not (np.all(np.isfinite(x["ps"][1][0])) and np.all(np.isfinite(x["ps"][1][1]))):
            continue
        rec, fit = x["rec"], x["fit"]
        env = K.fit_env(fit.grid, [None if c is None else np.array(c) for c in x["desc"]["centers"]], fit.density, fit.integral_dens, x["mask"])
        K.set_params(env, rec["val"], x["c"], x["a"])
        if np.any(env["g"] < 1e-200):
            continue
        q = fit.grid.integrate
        w = K.trapz_weights(fit.grid.points) if hasattr(fit.grid, "points") and fit.grid.points.ndim == 1 and not hasattr(fit.grid, "w") else getattr(fit.grid, "w", None)
        if w is None:
            w = np.full(len(fit.grid.points), abs(np.linalg.det(fit.grid.axes)))
        q = K.quad(w)
        wc = [ev(e, env, q) for e in rec["newc"]] if x["oc"] else x["c"]
        wa = [ev(e, env, q) for e in rec["newa"]] if x["oe"] else x["a"]
        ck.case(("step", x["what"]))
        if not close(x["ps"][1][0], np.array(wc), 1e-7) or not close(x["ps"][1][1], np.array(wa), 1e-7):
            ck.fail(x["what"] + f": first iteration gives {x['ps'][1]}, specified {np.asarray(wc, float)}, {np.asarray(wa, float)}", x["desc"])


if __name__ == "__main__":
    run_check("C14", "model_checking", body)
