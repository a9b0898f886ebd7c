import numpy as np
from vlib import run_check, guarded, tlc
import fitkit as K
from expr import LD, ev, ld
from bfit.fit import KLDivergenceFPI


def orders(kls, tol):
    out = [0]
    for a, b in zip(kls, kls[1:]):
        out.append(out[-1] + (1 if not b <= a + tol else -1 if b < a - tol else 0))
    return out


def body(ck):
    rng = np.random.default_rng(ck.seed + 16)
    sizes = [(2, 2, 1, 2, 2), (2, 3, 1, 1, 2), (3, 2, 1, 1, 2)] if not ck.thorough else \
        [(2, 2, 2, 2, 2), (2, 3, 1, 1, 2), (3, 2, 1, 2, 2), (2, 3, 1, 2, 2), (3, 3, 1, 1, 1), (4, 2, 1, 1, 1)]
    for P, F, mf, mb, mc in sizes:
        ck.model(tlc("EM", invariants=["SumsToNorm", "Positive", "Descent"],
                     constants=dict(Pts=P, Fns=F, MaxF=mf, MaxB=mb, MaxC=mc), workers=4))
    ck.rule = ("TLC proves conservation, positivity and descent of the update in exact rational arithmetic on all small discrete problems; "
               "recorded real iterations (random grids, bases, norms, modes) are validated against the same statements")
    r = ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=2, MaxCenters=2, MaxTotal=4, What='"step"')))
    recs, big = r.records, ck.model(tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=1, MaxCenters=1, MaxTotal=1, What='"step+"'))).records
    traces, info = [], []
    for it in range(ck.n(440, 4500)):
        long = it % 15 == 7                     # a long run, its parameters looked at now and then
        rec = recs[int(rng.integers(len(recs)))] if it % 6 else big[int(rng.integers(len(big)))]
        kinds = [k for k in K.GRIDS if K.is_1d(k) or not rec["sph"]]
        kind = kinds[int(rng.integers(len(kinds)))]
        grid, w = K.make_grid(rng, kind)
        s = 1.
        if rng.random() < .15:                  # other units of length
            grid, w, s = K.scaled(rng, grid, w)
        model, centers = K.make_model(rng, grid, rec["b"], rec["norm"], s)
        f = K.density(rng, grid, ["pos", "zeros"][int(rng.random() < .2)], s)
        n = rec["n"]
        c, a = np.exp(rng.uniform(-3., 2., n)), np.exp(rng.uniform(-2., 1.5, n))
        if rng.random() < .25:          # far from equal shares
            c = 10. ** rng.uniform(-12., 2., n)
        a = a / s ** 2
        if rec["norm"]:
            c = c * s ** 3
        mode = ["coeffs", "both", "exps", "coeffs"][it % 4] if not long or it % 4 == 0 else "both"
        given = None if rng.random() < .5 else float(np.exp(rng.uniform(-2., 4.)) if rng.random() < .7 else 10. ** rng.uniform(-9., 9.))
        env = K.fit_env(grid, centers, f, 1., 0.)
        total = ev(["int", ["mul", ["mul", ["mul", ["num", 4, 1], ["pi"]], ["pow", ["var", "x"], 2, 1]], ["var", "f"]]]
                   if rec["sph"] else ["int", ["var", "f"]], env, K.quad(w))
        if given is not None and rng.random() < .35:    # nearly the numerical integral
            given = float(total) * (1. + float(rng.choice([-1., 1.])) * 10. ** rng.uniform(-7., -1.5))
        desc = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=rec["sph"], mode=mode, integral_dens=given)
        what = f"basis={rec['b']} normalize={rec['norm']} spherical={rec['sph']} on {kind} mode={mode} norm={given}"
        ok, fit = guarded(ck, what, desc, KLDivergenceFPI, grid, f, model, 0., given, rec["sph"])
        if not ok:
            continue
        N = LD(given) if given is not None else total
        if rng.random() < .3:
            c = c * float(N / c.sum())              # a start that carries the norm already
        steps = int(rng.integers(1, 9)) if it % 23 else int(rng.integers(25, 61))
        if long:
            steps = int(rng.integers(60, 240))
        ks = set(range(1, steps + 1)) if not long else set(int(x) for x in rng.integers(1, steps, 9)) | {steps}
        ps = [(c, a)]
        good = True
        kls = [fit.goodness_of_fit(*ps[0])[-1]]
        for k in range(1, steps + 1):
            if k not in ks:
                ps.append(None)
                continue
            ok, res = guarded(ck, what, desc, fit.run, c, a, mode != "exps", mode != "coeffs", k, -1., -1., -1.)
            if ok and long and len(res["fun"]) < k:
                break                           # likewise; how runs end is for C14 and C15
            if ok and len(res["fun"]) == k - 1 and not np.all(np.isfinite(np.append(res["fun"][-2:], np.append(res["coeffs"], res["exps"])))):
                break                           # an undefined divergence ends the run (C14)
            if not ok or len(res["fun"]) != k:
                good = ok and not ck.fail(what + f": {len(res['fun'])} iterations recorded instead of {k}", desc)
                good = False
                break
            ps.append((res["coeffs"], res["exps"]))
            kls = [kls[0]] + list(res["fun"])
        if not good:
            continue
        while ps[-1] is None:
            ps.pop()
        for k in range(len(ps) - 2, 0, -1):
            ps[k] = ps[k] or ps[k + 1]          # those in between are judged by the next ones looked at
        # nothing masked: every model value well above underflow wherever it was evaluated
        gs = [K.set_params(env, rec["val"], cc, aa)["g"] for cc, aa in ps if np.all(np.isfinite(cc)) and np.all(np.isfinite(aa))]
        m = next((i for i, g in enumerate(gs) if not np.all(g > (1e-80 if long else 1e-250))), len(gs))
        # nor any coefficient on its way to underflow
        m = min(m, next((i - 1 for i in range(len(gs)) if np.any((ps[i][0] >= 0) & (ps[i][0] < 1e-200))), m))
        if m <= 0:
            continue
        use = min(len(ps) - 1, m)       # step k is covered if the model at p_{k-1} is not masked
        order = orders(kls[:use + 1], 1e-9 * max(1., float(total)) if use < m else 1e-9 * max(1., float(total)))
        evs = []
        for k in range(1, use + 1):
            cc, aa = ps[k]
            evs.append({"sum": bool(abs(ld(cc).sum() - N) <= 1e-9 * N), "posc": bool(np.all(cc > 0)), "pose": bool(np.all(aa > 0)),
                        "csame": bool(np.array_equal(cc, c)), "esame": bool(np.array_equal(aa, a)),
                        "kl": order[k] if (k < m or k == 0) else -10 ** 6})
        traces.append({"id": len(info), "mode": mode, "norm": bool(rec["norm"]), "sum": bool(abs(ld(ps[0][0]).sum() - N) <= 1e-9 * N), "kl0": 0, "ev": evs})
        info.append((what, desc, ps, kls, float(N)))
        ck.case((what, use), sample={"what": what, "iterations": use})
    r = ck.model(tlc("EMTrace", spec="Spec", invariants=["Emit"], inputs={"traces.json": traces}))
    seen = {p["id"]: p for p in r.records}
    for i, (what, desc, ps, kls, N) in enumerate(info):
        p = seen[i]
        ck.traces += 1
        if not p["ok"]:
            k = p["at"]
            ck.fail(what + f": iteration {k} violates conservation, positivity or descent: sum={float(ld(ps[k][0]).sum())!r} norm={N!r} "
                    f"coeffs={ps[k][0]} exps={ps[k][1]} KL={[float(x) for x in kls[:k + 1]]}", dict(desc, iteration=k))


if __name__ == "__main__":
    run_check("C16", "model_checking", body)
