import numpy as np
from vlib import run_check
import fpiloop as L


def body(ck):
    rng = np.random.default_rng(ck.seed + 15)
    L.explore(ck)
    ck.rule = ("TLC proves the reported success truthful for every pattern of changes, thresholds, undefined values and limits; the real run's "
               "success flag is compared with the prediction on random problems, including ones whose parameters or divergence become undefined")
    insts = L.instances(ck, rng, ck.n(400, 4500))
    hist = {}
    for x, p in L.predict(ck, insts):
        ok, res, what, replay = L.execute(ck, x, p)
        if not ok:
            continue
        ck.traces += 1
        s = bool(res["success"])
        ck.case((what, p["niter"], p["success"]), sample={"what": what, "success": p["success"]})
        key = f"{x['deg'] or 'regular'}:{'success' if p['success'] else 'failure'}"
        hist[key] = hist.get(key, 0) + 1
        if s != p["success"]:
            ck.fail(what + f": reports success={s}, specified {p['success']} after {p['niter']} iterations", replay)
        fin = np.all(np.isfinite(res["coeffs"])) and np.all(np.isfinite(res["exps"]))
        if s and not fin:
            ck.fail(what + f": success with parameters {res['coeffs']}, {res['exps']}", replay)
        if s and len(res["fun"]) and np.isnan(res["fun"][-1]):
            ck.fail(what + ": success with an undefined divergence", replay)
    ck.extra["outcomes"] = hist


if __name__ == "__main__":
    run_check("C15", "model_checking", body)
