import json
import numpy as np
from scipy.optimize import minimize, NonlinearConstraint
from vlib import run_check, guarded, tlc, TooMany
import display as D
import fitkit as K
import fpiloop as L
import greedyrun as G
from bfit.fit import ScipyFit
from bfit.measure import SquaredDifference, KLDivergence

INV = ["Silent", "HistoryIsOutcomes", "OneRowPerStep", "RowIsCurrent", "InOrder", "Complete", "ChangeIsReal", "Framed"]
CHANGES = ["change coeffs", "change exps", "change objective"]


def check_lines(ck, what, replay, text, lines, method, row, rel=0.):
    """The printed lines are the specified ones; row(line) gives the values a row has to show, by column."""
    got = D.parse(text, method)
    kinds = [g[0] for g in got]
    if kinds != [x["line"] for x in lines]:
        short = lambda ks: [f"{k}*{sum(1 for q in ks if q == k)}" for k in dict.fromkeys(ks)]
        ck.fail(what + f": printed {short(kinds)}, specified {short([x['line'] for x in lines])}, in this order", replay)
        return False
    i = 0
    for g, x in zip(got, lines):
        if x["line"] != "row":
            continue
        i += 1
        for col, val in row(x).items():
            vals = val if isinstance(val, list) else [val]
            if not any(D.shows(g[1].get(col), v, rel) for v in vals):
                ck.fail(what + f": printed row {i} says {col} is {g[1].get(col)}, it is {float(vals[0])!r}", replay)
                return False
    return True


def check_closing(ck, what, replay, text, facts, arrays):
    for title, val in facts.items():
        said = D.closing(text, title)
        if isinstance(val, float):
            good = said is not None and D.number(said) is not None and (D.number(said) == val or abs(D.number(said) - val) <= 1e-9 * abs(val))
        else:
            good = said == str(val)
        if not good:
            ck.fail(what + f": the closing lines say {title} {said!r}, the run returns {val!r}", replay)
            return
    for title, val in arrays.items():
        said = D.closing(text, title)
        if not D.shows_array(said, val):
            ck.fail(what + f": the closing lines say {title} {said!r}, the run returns {np.asarray(val)}", replay)
            return


def specified(ck, runs):
    """The printed lines of recorded runs, by the specification."""
    r = ck.model(tlc("Display", spec="Spec", invariants=INV + ["Emit"], properties=["Finishes"],
                     constants=dict(Mode='"file"', MaxSteps=0), inputs={"runs.json": runs}))
    return {x["id"]: x["lines"] for x in r.records}


def five(values):
    return dict(zip(D.FIVE, values))


def fixed_point(ck, rng, todo):
    long = 0
    for x, p in L.predict(ck, L.instances(ck, rng, ck.n(90, 700))):
        kw = dict(opt_coeffs=x["oc"], opt_expons=x["oe"], maxiter=x["maxiter"], c_threshold=x["cth"], e_threshold=x["eth"], d_threshold=x["dth"])
        what = "fixed-point " + x["what"] + f" maxiter={x['maxiter']} thresholds {float(x['cth']):.4g} {float(x['eth']):.4g} {float(x['dth']):.4g}"
        replay = dict(x["desc"], maxiter=x["maxiter"], predicted=p)
        disp = bool(rng.random() < .85)
        ok, out = guarded(ck, what, replay, D.captured, x["fit"].run, x["c"], x["a"], disp=disp, **kw)
        if not ok:
            continue
        res, text = out
        if p["niter"] > 70:
            long += 1
        if len(res["performance"]) != p["niter"] or p["niter"] > 70 and long > 12:
            continue            # the number is judged by C14

        def row(line, x=x):
            j = line["step"]
            return {"iteration": j, **five(x["gof"][j - 1]), **dict(zip(CHANGES, (x["dc"][j - 1], x["de"][j - 1], x["dd"][j - 1])))}
        todo.append((what, replay, "fpi", disp, [True] * p["niter"], text, row, 0.,
                     {"Successful?": bool(res["success"])}, {"Coefficients": res["coeffs"], "Exponents": res["exps"]}))


def iterates(fit, method, c, a, mode, maxiter, tol, con, jitter=0., rng=None):
    """The iterates of the optimizer asked directly."""
    n = len(c)
    x0 = {"both": np.append(c, a), "coeffs": c, "exps": a}[mode].astype(float)
    if jitter:
        x0 = x0 * (1 + jitter * rng.standard_normal(len(x0)))
    args = {"both": (), "coeffs": ("fixed_expons", a), "exps": ("fixed_coeffs", c)}[mode]
    xs = []
    slsqp = method.lower() == "slsqp"
    cons = [{"type": "eq", "fun": fit.const_norm, "args": args}] if slsqp else [NonlinearConstraint(lambda x: fit.const_norm(x, *args), 0., 0., jac="3-point")]
    try:
        minimize(fit.func, x0, args, method.lower(), jac=True, bounds=[(1e-12, np.inf)] * len(x0), constraints=cons if con else [],
                 options={"ftol" if slsqp else "xtol": tol, "maxiter": maxiter}, callback=lambda x, *_: xs.append(np.array(x)))
    except (ValueError, np.linalg.LinAlgError, FloatingPointError):
        return None
    return [{"both": (x[:n], x[n:]), "coeffs": (x, a), "exps": (c, x)}[mode] for x in xs]


def optimizer(ck, rng, todo, unstable):
    recs = tlc("FitCases", invariants=["Emit"], constants=dict(MaxPer=2, MaxCenters=2, MaxTotal=3, What='"opt"')).records
    for it in range(ck.n(120, 1200)):
        rec = recs[int(rng.integers(len(recs)))]
        kinds = [k for k in K.GRIDS if K.is_1d(k) or not rec["sph"]]
        kind = kinds[int(rng.integers(len(kinds)))]
        grid, _ = K.make_grid(rng, kind)
        model, centers = K.make_model(rng, grid, rec["b"], rec["norm"])
        f = K.density(rng, grid, "pos")
        n, mode, method = rec["n"], rec["mode"], ["slsqp", "trust-constr"][it % 2]
        con, tol, maxiter = bool(rng.integers(2)), float(10. ** -int(rng.integers(3, 9))), int(rng.choice([1, 2, 3, 6, 12]))
        c, a = rng.uniform(.3, 2., n), np.exp(rng.uniform(-1., 1., n))
        meas = SquaredDifference() if rec["m"] == "square" else KLDivergence()
        replay = K.describe(kind, grid, f, rec["b"], rec["norm"], centers, c, a, spherical=rec["sph"], measure=rec["m"], mode=mode,
                            method=method, constraint=con, tol=tol, maxiter=maxiter)
        what = f"{method} basis={rec['b']} normalize={rec['norm']} spherical={rec['sph']} on {kind} {rec['m']} mode={mode} constraint={con} tol={tol} maxiter={maxiter}"
        ok, fit = guarded(ck, what, replay, ScipyFit, grid, f, model, meas, method, spherical=rec["sph"])
        if not ok:
            continue
        refs = [iterates(fit, method, c, a, mode, maxiter, tol, con, j, rng) for j in (0., 1e-13, 1e-11)]
        if any(r is None or len(r) != len(refs[0]) for r in refs):
            unstable[0] += 1
            continue
        gofs = [[fit.goodness_of_fit(*x) for x in r] for r in refs]
        if not all(L.same(np.shape(g), np.shape(gofs[0])) and np.allclose(np.array(g), np.array(gofs[0]), 1e-6, 1e-12, equal_nan=True) for g in gofs):
            unstable[0] += 1
            continue
        disp = bool(rng.random() < .85)
        ok, out = guarded(ck, what, replay, D.captured, fit.run, c, a, mode != "exps", mode != "coeffs", maxiter, tol, disp, con)
        if not ok:
            continue
        res, text = out
        todo.append((what, replay, method, disp, [True] * len(refs[0]), text, lambda line, g=gofs[0]: five(g[line["step"] - 1]), 1e-5,
                     {"Successful?": bool(res["success"]), "Scipy Message": res["message"]}, {"Coefficients": res["coeffs"], "Exponents": res["exps"]}))


def search_rows(obj, entries, counts, accepted):
    """Values of the rows of a search, from its accepted parameters and their counts."""
    gof, val = [], []
    for e, (ns, np_) in zip(entries, counts):
        obj.model.change_numb_s_and_numb_p(ns, np_)
        m = len(e) // 2
        gof.append(obj.fitting_obj.goodness_of_fit(e[:m], e[m:]))
        val.append(obj.eval_obj_function(e))
    place = {0: 0}
    for k, s in enumerate([i + 1 for i, a in enumerate(accepted) if a]):
        place[s] = k + 1

    def row(line):
        i = place[line["entry"]]
        ns, np_ = counts[i]
        change = [np.nan, np.inf] if line["before"] < 0 else abs(val[i] - val[place[line["before"]]])
        return {"# of functions": ns + np_, "# of s type": ns, "# of p type": np_, **five(gof[i]), "change objective": change}
    return row


def said(res):
    return ({"Successful?": bool(res["success"]), "Number of s-type": res["num_s"], "Number of p-type": res["num_p"],
             "Objective Function": float(res["fun"]), "Termination Information": res["exit_information"]},
            {"Coefficients": res["coeffs"], "Exponents": res["exps"]})


def search(ck, rng, todo):
    scripts = [s for s in G.make_scripts(rng, ck.n(90, 900)) if s["max"] > 0]
    pred = G.predict(ck, scripts)
    for sc in scripts:
        p = pred.get(sc["id"])
        if p is None:
            continue
        scale = 2. ** float(rng.choice([0, 0, -20, 30]))
        obj = G.Scripted(sc["strategy"], sc, scale, np.random.default_rng(ck.seed + sc["id"]))
        what = f"search {sc['strategy']} max={sc['max']} threshold={sc['thr']} script {sc['id']} scale={scale}"
        replay = {"script": sc, "scale": scale}
        disp = bool(rng.random() < .85)
        try:
            res, text = D.captured(obj.run, 2., d_threshold=sc["thr"] * scale, max_numb_funcs=sc["max"], disp=disp)
        except TooMany:
            raise
        except Exception as e:      # pylint: disable=broad-except
            ck.fail(what + f": unexpected {type(e).__name__}: {e}", replay)
            continue
        acc = [s["accepted"] for s in p["log"]]
        glob = [c for c in obj.calls if c[0] == "global"]
        if len(glob) != len(acc) or len(res["parameters_iteration"]) != 1 + sum(acc):
            continue            # judged by C22, C24
        entries = [obj.calls[0][4]] + [g[4] for g, a in zip(glob, acc) if a]
        counts = [(h["ns"], h["np"]) for h in p["hist"]]
        todo.append((what, replay, "greedy", disp, acc, text, search_rows(obj, entries, counts, acc), 0., *said(res)))
    for it in range(ck.n(8, 60)):
        kind, choice = ["ls", "kl"][it % 2], G.STRATEGIES[it // 2 % 3]
        obj, d = G.real_objects(rng, kind, choice)
        mx = int(rng.integers(2, 5)) if choice != "pick-two-lose-one" else 2
        glob, orig = [], obj.get_optimization_routine

        def opt(params, *a, local=False, orig=orig, glob=glob, obj=obj):
            out = orig(params, *a, local=local)
            if not local:
                glob.append((np.array(out), (obj.model.num_s, obj.model.num_p)))
            return out
        obj.get_optimization_routine = opt
        what, replay = f"search {kind} {choice} max={mx}", {"kind": kind, "choice": choice, "max": mx, "density": d.tolist()}
        np.random.seed(ck.seed * 100 + it)
        ok, out = guarded(ck, what, replay, D.captured, obj.run, 2., 1e-8, mx, disp=True)
        if not ok:
            continue
        res, text = out
        hist = res["parameters_iteration"]
        acc, counts = [], [(1, 0)]
        for out_, n in glob:
            acc.append(len(counts) < len(hist) and L.same(out_, hist[len(counts)]))
            if acc[-1]:
                counts.append(n)
        if len(counts) != len(hist):
            continue
        todo.append((what, replay, "greedy", True, acc, text, search_rows(obj, hist, counts, acc), 0., *said(res)))


def body(ck):
    rng = np.random.default_rng(ck.seed + 37)
    ck.rule = ("TLC explores what every pattern of accepted and rejected steps prints, with display on and off; runs of the three fits are made with "
               "their output captured, the lines parsed and compared with those the specification prints for the steps of the run")
    ck.model(tlc("Display", spec="Spec", invariants=INV, properties=["Finishes"], constants=dict(Mode='"all"', MaxSteps=ck.n(9, 13)), workers=4))
    todo, unstable = [], [0]
    fixed_point(ck, rng, todo)
    optimizer(ck, rng, todo, unstable)
    search(ck, rng, todo)
    lines = specified(ck, [{"id": i, "method": t[2], "disp": t[3], "steps": t[4]} for i, t in enumerate(todo)])
    made = {}
    for i, (what, replay, method, disp, steps, text, row, rel, facts, arrays) in enumerate(todo):
        ck.traces += 1
        key = f"{method} {'shown' if disp else 'silent'}"
        made[key] = made.get(key, 0) + 1
        ck.case((what, i), sample={"run": what, "steps": json.dumps(steps)[:80], "lines": len(lines[i])})
        if not disp:
            if text.strip():
                ck.fail(what + f": prints {text[:80]!r} although display is off", replay)
            continue
        if check_lines(ck, what, replay, text, lines[i], method, row, rel):
            check_closing(ck, what, replay, text, facts, arrays)
    ck.extra["runs"] = made
    ck.extra["optimizer runs where rounding decides"] = unstable[0]


if __name__ == "__main__":
    run_check("C37", "model_checking", body)
