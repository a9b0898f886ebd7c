import json
import os
import numpy as np
from vlib import run_check, guarded, tlc, REPO
from expr import LD, ev, env_params, close
import slater as S
from bfit.model import AtomicGaussianDensity
from bfit.grid import ClenshawRadialGrid

TABLES = ["kl_fpi_results", "kl_slsqp_results"]
LISTED = S.LIGHT        # hydrogen to xenon


def words(v):
    return {"num_s": int(v["num_s"]), "num_p": int(v["num_p"]), "coeffs": [repr(float(x)) for x in np.ravel(v["coeffs"])],
            "exps": [repr(float(x)) for x in np.ravel(v["exps"])]}


def body(ck):
    rng = np.random.default_rng(ck.seed + 32)
    ck.rule = ("every entry of every shipped table, loaded from both formats: structure decided in the specification, the real normalized model "
               "compared with the specified one and integrated, its density compared with the element's atomic density")
    inp, raw = [], {}
    for t in TABLES:
        base = os.path.join(REPO, "bfit", "data", t)
        with open(base + ".json", encoding="utf8") as h:
            js = json.load(h)
        nz = np.load(base + ".npz")
        names = {k.rsplit("_", 1)[0] if k.split("_")[-1] in ("coeffs", "exps") else k.rsplit("_", 2)[0] for k in nz.files}
        for e in sorted(set(LISTED) | set(js) | names):
            if e not in js or e not in names:
                ck.fail(f"{t}: element {e} is missing from the {'JSON' if e not in js else 'NPZ'} file", {"table": t, "element": e})
        ents = []
        for e in js:
            if e not in names:
                continue
            z = {k: nz[f"{e}_{k}"] for k in ("num_s", "num_p", "coeffs", "exps")}
            ents.append({"el": e, "json": words(js[e]), "npz": words(z)})
            raw[t, e] = js[e]
        inp.append({"table": t, "entries": ents})
    r = ck.model(tlc("Tables", spec="Spec", invariants=["IntegralIsSum", "Emit"], inputs={"tables.json": inp}, workers=4))
    t = np.linspace(-14., 4., 1200)
    pts = np.exp(t)
    q = 4 * np.pi * pts ** 3 * (t[1] - t[0])
    els = [e for e in LISTED]
    dens = dict(zip(els, S.run_worker(S.real_files(), [{"op": "density", "el": e, "kind": "neutral", "points": pts} for e in els])))
    grid = ClenshawRadialGrid(4, num_core_pts=10000, num_diffuse_pts=899, extra_pts=[50, 75, 100])
    worst = 0.
    for rec in r.records:
        name = f"{rec['table']} {rec['el']}"
        v = raw[rec["table"], rec["el"]]
        ck.case(name, sample={"table": rec["table"], "element": rec["el"], "num_s": rec["num_s"], "num_p": rec["num_p"]})
        replay = {"table": rec["table"], "element": rec["el"]}
        for k, msg in (("sizes", "numbers of parameters differ from num_s + num_p"), ("signs", "a parameter is not positive"),
                       ("agree", "the two formats differ")):
            if not rec[k]:
                ck.fail(f"{name}: {msg}", replay)
        if not rec["sizes"] or rec["el"] not in S.SYMBOLS:
            continue
        c, a = np.array(v["coeffs"]), np.array(v["exps"])
        z = S.SYMBOLS.index(rec["el"]) + 1
        ok, m = guarded(ck, name, replay, lambda: AtomicGaussianDensity(pts, num_s=v["num_s"], num_p=v["num_p"], normalize=True).evaluate(c, a))
        if not ok:
            continue
        ck.traces += 1
        env = env_params(c, a)
        env["r1"] = pts.astype(LD)
        if not close(m, ev(rec["value"], env), 1e-10):
            ck.fail(f"{name}: evaluated density differs from the specified model", replay)
        total = float(ev(rec["integral"], env))
        worst = max(worst, abs(total / z - 1))
        if abs(total / z - 1) > 1e-5:
            ck.fail(f"{name}: the model integrates to {total}, the element has {z} electrons", replay)
        if abs(np.sum(q * m) / z - 1) > 1e-5:
            ck.fail(f"{name}: the evaluated model integrates to {np.sum(q * m)}, the element has {z} electrons", replay)
        if rec["el"] in ("h", "be", "ne", "xe") or rng.random() < .1:       # the documented way
            g = AtomicGaussianDensity(grid.points, num_s=v["num_s"], num_p=v["num_p"], normalize=True).evaluate(c, a)
            n = grid.integrate(g * 4. * np.pi * grid.points ** 2.)
            if abs(n / z - 1) > 1e-4:
                ck.fail(f"{name}: the documented integration gives {n}", replay)
        st, d = dens.get(rec["el"], ("missing", None))
        if st == "ok":
            l1 = float(np.sum(q * np.abs(m - d["dens_total"]))) / z
            if l1 > .01:
                ck.fail(f"{name}: the model deviates from the atomic density by {100 * l1:.2f} % of the electrons", replay)
    ck.extra["worst_relative_error_of_electron_count"] = worst


if __name__ == "__main__":
    run_check("C32", "model_checking", body)
