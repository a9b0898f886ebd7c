"""Greedy runs driven by scripted environments, or recorded from real optimizations, compared with spec/Greedy.tla."""
import json
import re
import zlib
import numpy as np
from vlib import guarded, tlc, TooMany
from expr import ev, close, LD
from fitkit import DuckGrid
import fitkit as K
from fpiloop import same
from bfit.fit import ScipyFit, KLDivergenceFPI
from bfit.greedy import GreedyStrategy, GreedyKLFPI, GreedyLeastSquares
from bfit.measure import Measure, SquaredDifference
from bfit.model import AtomicGaussianDensity

NAN, INF = -1000000000, 1000000000
INV = ["NeverWorse", "CountsMatch", "Bounded", "FactorIsRejections", "StepsBounded", "TruthfulExit", "OneEntryPerAcceptance"]
STRATEGIES = ["pick-one", "pick-two", "pick-two-lose-one"]


def explore(ck):
    if ck.thorough:
        ck.model(tlc("GreedyFree", spec="Spec", invariants=INV, properties=["Terminates"], constants=dict(MaxFn=3, MaxCost=2), workers=4))
        ck.model(tlc("GreedyFree", spec="Spec", view="View", invariants=INV, properties=["Terminates"], constants=dict(MaxFn=10, MaxCost=4), workers=4))
    else:
        ck.model(tlc("GreedyFree", spec="Spec", invariants=INV, properties=["Terminates"], constants=dict(MaxFn=3, MaxCost=1), workers=4))
        ck.model(tlc("GreedyFree", spec="Spec", view="View", invariants=INV, properties=["Terminates"], constants=dict(MaxFn=6, MaxCost=3), workers=4))


_LISTS = {}
SIZES = {12, 16, 22, 30}           # long lists compared entry by entry; of others only the length


def lists(ck, maxn):
    if not _LISTS:
        r = ck.model(tlc("CandCases", invariants=["Counts", "Emit"], constants=dict(MaxN=maxn, More="{" + ",".join(map(str, sorted(SIZES))) + "}",
                                                                       MoreOf='{"pick-one", "pick-two"}')))
        for x in r.records:
            _LISTS[(x["strategy"], x["n"])] = x["list"]
    return _LISTS


def guesses(strategy, factor, c, a):
    """The specified list of guesses, instantiated: list of (coeffs, exps)."""
    env = {"factor": LD(factor), "fill": LD(100)}
    for i in range(len(a)):
        env[f"a{i + 1}"], env[f"c{i + 1}"] = LD(a[i]), LD(c[i])
    return [(np.array([ev(f["c"], env) for f in s]), np.array([ev(f["a"], env) for f in s]))
            for s in _LISTS[(strategy, len(a))]]


class SumMeasure(Measure):
    """The objective is the model itself, so the cost of parameters is chosen freely."""

    def evaluate(self, density, model, deriv=False):
        return (model, np.ones_like(model)) if deriv else model


class Runaway(Exception):
    pass


class Scripted(GreedyStrategy):
    """Strategy whose optimizer is the script."""

    def __init__(self, strategy, script, scale, rng, offset=0., unit=1., reactive=False):
        """Costs are (offset + unit * scripted) * scale; a reactive environment answers differently to different guesses."""
        grid = DuckGrid(np.array([0.]), np.array([1.]))
        model = AtomicGaussianDensity(grid.points, num_s=1, num_p=0)
        super().__init__(ScipyFit(grid, np.array([1.]), model, measure=SumMeasure()), strategy)
        self.script, self.scale, self.rng = script, scale, rng
        self.offset, self.unit, self.reactive = offset, unit, reactive
        self.begin()

    def begin(self):
        self.calls, self.t, self.i = [], 0, 0

    def params(self, cost, red):
        """Parameters of the current model whose cost is the scripted one."""
        ns, np_ = self.model.num_s, self.model.num_p
        cs = self.rng.integers(-16, 17, ns) / 8.
        cp = self.rng.integers(1, 33, np_) / 8.
        val = np.nan if cost == NAN else np.inf if cost == INF else float(cost)
        cs[0] = self.offset + val * self.unit - np.sum(cs[1:])
        es = 1. + self.rng.permutation(max(40, 2 * ns))[:ns] / 8.
        ep = 1. + self.rng.permutation(max(40, 2 * np_))[:np_] / 8. + .0625
        if red:
            which = [x for x in (es, ep) if len(x) >= 2]
            if which:
                x = which[int(self.rng.integers(len(which)))]
                i, j = self.rng.permutation(len(x))[:2]
                x[i] = x[j] + (0. if self.rng.random() < .3 else 2. ** -11)
        return np.concatenate((cs * self.scale, cp, es, ep))

    def get_best_one_function_solution(self):
        self.begin()
        out = np.array([(self.offset + self.unit * float(self.script["start"])) * self.scale, 1.5])
        self.calls.append(("start", None, self.model.num_s, self.model.num_p, out.copy()))
        return out

    def get_optimization_routine(self, params, *args, local=False):
        if self.reactive:
            self.rng = np.random.default_rng(zlib.crc32(np.array(params, float).tobytes()))
        st = self.script["steps"][self.t % len(self.script["steps"])]
        if local:
            cost = st["lc"][self.i % len(st["lc"])]
            out = self.params(cost, False)
            self.i += 1
        else:
            out = self.params(st["rc"], st["red"])
            self.t, self.i = self.t + 1, 0
        self.calls.append(("local" if local else "global", np.array(params), self.model.num_s, self.model.num_p, out.copy()))
        if len(self.calls) > 40000 or self.t > self.script["steplimit"] + 2:
            raise Runaway("more growth steps than any run of the specification has")
        return out


def make_scripts(rng, count):
    """Random environments; small integer costs, ties, undefined and infinite costs, redundancy."""
    out = []
    for i in range(count):
        strategy = STRATEGIES[int(rng.choice(3, p=[.5, .3, .2]))]
        style = i % 6
        start = int(rng.integers(0, 12))
        cur = start
        steps = []
        for _ in range(int(rng.integers(1, 12))):
            lc = [int(v) for v in rng.integers(0, 6 if style != 3 else 3, int(rng.integers(3, 90)))]
            if rng.random() < .15:
                lc = [NAN if rng.random() < .4 else INF if rng.random() < .3 else v for v in lc]
            if rng.random() < .04:
                lc = [NAN, INF] if rng.random() < .5 else [NAN]
            if style == 0:          # mostly improving
                cur = max(cur - int(rng.integers(0, 3)), 0)
                rc = cur
            elif style == 1:        # often worse
                rc = int(rng.integers(0, 14))
            elif style == 2:        # rejected for long
                rc = cur + int(rng.integers(-1, 3) > 0)
            else:
                rc = max(cur - int(rng.integers(-1, 4)), 0)
                cur = min(cur, rc)
            if rng.random() < .04:
                rc = NAN
            steps.append({"lc": lc, "rc": rc, "red": bool(rng.random() < (.5 if style == 4 else .12)), "small": False})
        mx = int(rng.integers(0, 8)) if strategy != "pick-two-lose-one" else int(rng.integers(0, 6))
        out.append({"id": i, "strategy": strategy, "max": mx, "thr": int(rng.integers(0, 3)) if style != 5 else int(rng.integers(2, 6)),
                    "start": start, "steps": steps, "observed": False, "steplimit": 60})
    return out


def long_scripts(rng, count, first):
    """Runs that go on for very many functions."""
    out = []
    for i in range(count):
        strategy = STRATEGIES[i % 2]
        cur = start = 400
        steps = []
        for k in range(100):
            down = rng.random() < .9
            cur -= int(rng.integers(0, 4)) if down else 0
            bias = k % 2 if i % 3 else int(rng.random() < .3)       # grow both kinds, or one
            m = int(rng.integers(3, 9))
            lc = [int(v) for v in rng.integers(0, 6, m)] if bias else [5] * 30 + [0]
            steps.append({"lc": lc, "rc": cur if down else cur + 1, "red": False, "small": False})
        out.append({"id": first + i, "strategy": strategy, "max": int(rng.integers(56, 75)) if strategy == "pick-one" else int(rng.integers(14, 24)),
                    "thr": 0, "start": start, "steps": steps, "observed": False, "steplimit": 400})
    return out


def stuck_scripts(rng, count, first):
    """Many accepted steps, then none is accepted any more."""
    out = []
    for i in range(count):
        strategy, cur = STRATEGIES[i % len(STRATEGIES)], 400
        steps, good = [], int(rng.integers(11, 14 if strategy == "pick-two-lose-one" else 24))
        for k in range(60):
            down = k < good
            cur -= int(rng.integers(1, 4)) if down else 0
            lc = [int(v) for v in rng.integers(0, 6, int(rng.integers(3, 9)))]
            steps.append({"lc": lc, "rc": cur if down else cur + int(rng.integers(1, 3)), "red": False, "small": False})
        out.append({"id": first + i, "strategy": strategy, "max": 45, "thr": 0, "start": 400, "steps": steps, "observed": False, "steplimit": 400})
    return out


def predict(ck, scripts):
    r = ck.model(tlc("GreedyScript", spec="Spec", invariants=INV + ["Emit"], inputs={"scripts.json": scripts}))
    return {p["id"]: p for p in r.records}


def reasons_of(text):
    t = str(text).lower()
    out = set()
    if "max" in t:
        out.add("maximum")
    if "cost function" in t or "epsilon" in t or "threshold" in t:
        out.add("converged")
    if "next iteration" in t or "did not find" in t:
        out.add("rejected")
    return out


def wrong_factor(strategy, fac, cs, cp, es, ep, i, is_s, st, x):
    """Is the candidate the specified one for another factor?"""
    if is_s:
        gc, ga = guesses(strategy, fac, cs, es)[i]
        want = np.concatenate((gc, cp, ga, ep))
    else:
        gc, ga = guesses(strategy, fac, cp, ep)[i - st["nums"]]
        want = np.concatenate((cs, gc, es, ga))
    return x.shape == want.shape and close(x, want, 1e-12)


def check_calls(calls, p, strategy, factor, params0, report):
    """The sequence of optimizations against the specified growth steps."""
    inc = 2 if strategy == "pick-two" else 1
    k = 1 if calls and calls[0][0] == "start" else 0
    cur = params0
    for s, st in enumerate(p["log"]):
        ns, np_, m = st["ns"], st["np"], st["nums"] + st["nump"]
        fac = factor * 2. ** st["fexp"]
        n = ns + np_
        cs, cp, es, ep = cur[:ns], cur[ns:n], cur[n:n + ns], cur[n + ns:]
        loc = calls[k:k + m]
        if len(loc) < m or any(c[0] != "local" for c in loc) or len(calls) <= k + m or calls[k + m][0] != "global":
            nloc = next((i for i, c in enumerate(calls[k:]) if c[0] != "local"), len(calls) - k)
            report("choice", f"growth step {s + 1}: {nloc} candidates optimized, specified {m}")
            return
        known = (strategy, ns) in _LISTS, not np_ or (strategy, np_) in _LISTS
        sg = guesses(strategy, fac, cs, es) if known[0] else None
        pg = guesses(strategy, fac, cp, ep) if np_ and known[1] else None
        for i, c in enumerate(loc):
            if not known[0 if i < st["nums"] else 1]:
                continue
            isS = i < st["nums"]
            want_counts = (ns + inc, np_) if isS else (ns, np_ + inc)
            if (c[2], c[3]) != want_counts:
                report("counts", f"growth step {s + 1}, candidate {i}: optimized with counts {(c[2], c[3])}, specified {want_counts}")
                return
            x = c[1]
            if isS:
                gc, ga = sg[i]
                want = np.concatenate((gc, cp, ga, ep))
                good = x.shape == want.shape and close(x, want, 1e-12)
            elif np_:
                gc, ga = pg[i - st["nums"]]
                want = np.concatenate((cs, gc, es, ga))
                good = x.shape == want.shape and close(x, want, 1e-12)
            else:
                j = i - st["nums"]
                lo, hi = [(0., 1.), (1., 10.), (10., 100.)][j]
                good = len(x) == 2 * (ns + inc) and close(x[:ns], cs, 1e-12) and close(x[ns + inc:2 * ns + inc], es, 1e-12) and \
                    bool(np.all((x[ns:ns + inc] >= lo) & (x[ns:ns + inc] <= hi) & (x[2 * ns + inc:] >= lo) & (x[2 * ns + inc:] <= hi)))
                want = f"random p-type functions between {lo} and {hi} beside the current ones"
            if not good:
                with np.errstate(all="ignore"):
                    implied = {float(v) for v in np.outer(x, 1 / (es if isS else ep)).ravel()} if isS or np_ else set()
                    implied |= {1 / v for v in implied if v} | {factor * 2. ** j for j in range(-1, 7) if j != st["fexp"]}
                other = [v for v in implied if np.isfinite(v) and v > 0 and abs(v / fac - 1) > 1e-6 and (isS or np_) and
                         wrong_factor(strategy, v, cs, cp, es, ep, i, isS, st, x)]
                report("counts" if other else "choice", f"growth step {s + 1}, candidate {i}: starts from {x}, specified {want} (factor {fac})")
                return
        g = calls[k + m]
        best = loc[st["chosen"] - 1]
        undefined = not np.all(np.isfinite(best[4]))     # no candidate has a finite objective: any may be refined
        if not same(g[1], best[4]) and not undefined:
            report("choice", f"growth step {s + 1}: the refined candidate is not number {st['chosen'] - 1}, the first with the lowest objective")
            return
        want_counts = (ns + inc, np_) if st["isS"] else (ns, np_ + inc)
        if (g[2], g[3]) != want_counts:
            report("counts", f"growth step {s + 1}: refined with counts {(g[2], g[3])}, specified {want_counts}")
            return
        if st["accepted"]:
            cur = g[4]
        k += m + 1
    if len(calls) != k:
        report("stop", f"{len(calls) - k} further optimizations after the run should have stopped "
               f"({p['ns']} s-type, {p['np']} p-type functions, reasons {p['reasons']})")


def check_result(obj, res, p, entries, report, scale=1., exact=True):
    """entries: parameters of the accepted entries."""
    h = p["hist"]
    if bool(res["success"]) != p["success"]:
        report("stop", f"reports success={res['success']}, specified {p['success']}")
    named = reasons_of(res["exit_information"])
    if not named or not named <= set(p["reasons"]):
        report("stop", f"exit message {res['exit_information']!r} does not name one of the true reasons {p['reasons']}")
    stated = re.findall(r"\d+", str(res["exit_information"]))
    if named == {"maximum"} and len(stated) == 1 and int(stated[0]) != p["ns"] + p["np"]:
        report("stop", f"exit message {res['exit_information']!r} states another number of functions than the {p['ns'] + p['np']} of the run")
    if (res["num_s"], res["num_p"]) != (p["ns"], p["np"]):
        report("history", f"returns counts {(res['num_s'], res['num_p'])}, specified {(p['ns'], p['np'])}")
        return
    it = res["parameters_iteration"]
    if len(it) != len(h) or len(res["performance"]) != len(h):
        report("history", f"{len(it)} recorded parameters and {len(res['performance'])} performance rows, specified {len(h)}")
        return
    for k, e in enumerate(entries):
        if not same(it[k], e):
            report("history", f"recorded parameters {k} are {it[k]}, specified {e}")
            return
    n = p["ns"] + p["np"]
    if not (same(res["coeffs"], entries[-1][:n]) and same(res["exps"], entries[-1][n:])):
        report("history", f"returned parameters {res['coeffs']}, {res['exps']} are not the last recorded entry {entries[-1]}")
    vals = []
    for k, e in enumerate(entries):
        obj.model.change_numb_s_and_numb_p(h[k]["ns"], h[k]["np"])
        m = len(e) // 2
        row = obj.fitting_obj.goodness_of_fit(e[:m], e[m:])
        if not same(res["performance"][k], row):
            report("history", f"performance row {k} is {res['performance'][k]}, that of the recorded parameters is {row}")
            break
        vals.append(obj.eval_obj_function(e))
    obj.model.change_numb_s_and_numb_p(p["ns"], p["np"])
    if vals and len(vals) == len(h):
        if not same(res["fun"], vals[-1]):
            report("history", f"objective {res['fun']}, that of the returned parameters is {vals[-1]}")
        if any(b > a for a, b in zip(vals, vals[1:])):
            report("history", f"recorded objective values increase: {vals}")


def run_scripted(ck, rng, scripts, report):
    """report(aspect, message, replay)"""
    scripts = scripts + long_scripts(rng, max(2, len(scripts) // 100), len(scripts))
    scripts = scripts + stuck_scripts(rng, max(4, len(scripts) // 100), len(scripts))
    pred = predict(ck, scripts)
    hist = {}
    for sc in scripts:
        p = pred.get(sc["id"])
        if p is None:
            continue            # does not stop within the step limit: excluded by StepsBounded, kept for safety
        scale = 2. ** float(rng.choice([0, 0, -20, 30, 60]))
        factor = float(rng.choice([1.5, 2., 10.])) if rng.random() < .9 else float(rng.choice([1.01, 800., 3000., 1e6]))
        offset, unit = (0., 1.) if rng.random() < .7 else (1., 2. ** -44)      # far apart or nearly equal
        obj = Scripted(sc["strategy"], sc, scale, np.random.default_rng(ck.seed + sc["id"]), offset, unit)
        replay = {"script": sc, "offset": offset, "unit": unit, "scale": scale, "factor": factor, "specified": {k: p[k] for k in ("ns", "np", "success", "reasons", "hist")}}
        rep = lambda aspect, msg: report(aspect, f"{sc['strategy']} max={sc['max']} threshold={sc['thr']} script {sc['id']} scale={scale}: {msg}", replay)
        try:
            res = obj.run(factor, d_threshold=sc["thr"] * scale * unit, max_numb_funcs=sc["max"])
        except Runaway as e:
            rep("stop", f"does not terminate: {e}")
            continue
        except TooMany:
            raise
        except Exception as e:      # pylint: disable=broad-except
            rep("any", f"unexpected {type(e).__name__}: {e}")
            continue
        ck.traces += 1
        ck.case(json.dumps([sc["strategy"], sc["max"], sc["thr"], [s["isS"] for s in p["log"]], [s["accepted"] for s in p["log"]], p["reasons"]]),
                sample={"strategy": sc["strategy"], "max": sc["max"], "specified": {k: p[k] for k in ("ns", "np", "success", "reasons")}})
        for r in p["reasons"]:
            hist[r] = hist.get(r, 0) + 1
        calls = obj.calls
        check_calls(calls, p, sc["strategy"], factor, calls[0][4] if calls else None, rep)
        globals_ = [c for c in calls if c[0] == "global"]
        entries = [calls[0][4]] + [g[4] for g, st in zip(globals_, p["log"]) if st["accepted"]]
        check_result(obj, res, p, entries, rep, scale)
    ck.extra["exit_reasons"] = hist


def run_extra(ck, rng, count, report):
    """Extra guesses supplied by the caller must be optimized too; everything else is as without them."""
    scripts = [s for s in make_scripts(rng, count) if s["start"] > 0]
    pred = predict(ck, scripts)
    for sc in scripts:
        p = pred.get(sc["id"])
        if p is None or not p["log"]:
            continue
        inc = 2 if sc["strategy"] == "pick-two" else 1
        obj = Scripted(sc["strategy"], sc, 1., np.random.default_rng(ck.seed + sc["id"]))
        replay = {"script": sc, "extra": "one guess: the current functions and new s-type ones with exponents 77, 88"}
        rep = lambda aspect, msg, key=None: report(aspect, f"extra choices, {sc['strategy']} script {sc['id']}: {msg}", replay, key=key)
        given, asked = [], []

        def extra(params):
            params = np.array(params)
            asked.append(params)
            ns, n = obj.num_s, len(params) // 2
            x = np.concatenate((params[:ns], [3., 4.][:inc], params[ns:n], params[n:n + ns], [77., 88.][:inc], params[n + ns:]))
            given.append(x)
            return [x]
        try:
            obj.run(2., d_threshold=float(sc["thr"]), max_numb_funcs=sc["max"], add_extra_choices=extra)
        except TooMany:
            raise
        except Exception as e:      # pylint: disable=broad-except
            rep("any", f"unexpected {type(e).__name__}: {e}")
            continue
        ck.traces += 1
        ck.case(("extra", sc["id"]))
        starts = [c[1] for c in obj.calls if c[0] == "local"]
        missing = [x for x in given if not any(same(x, s) for s in starts)]
        if missing:
            rep("choice", f"{len(missing)} of {len(given)} extra guesses are never optimized", key="extra-choices")
            # apart from that the run must be the one without extra guesses
            check_calls(obj.calls, p, sc["strategy"], 2., obj.calls[0][4], lambda a, m: rep(a, m))
            glob = [c[4] for c in obj.calls if c[0] == "global"]
            cur, want = obj.calls[0][4], []
            for st, g in zip(p["log"], glob):
                want.append(cur)
                cur = g if st["accepted"] else cur
            if len(asked) != len(want) or not all(same(a, b) for a, b in zip(asked, want)):
                rep("choice", "extra guesses were not asked for the current parameters once per growth step")


def real_objects(rng, kind, choice):
    from bfit.grid import UniformRadialGrid, ClenshawRadialGrid
    grid = UniformRadialGrid(60, 0.01, 6., dtype=float) if rng.random() < .5 else ClenshawRadialGrid(4, 25, 15, None, False, dtype=float)
    r = grid.points
    d = rng.uniform(1, 4) * np.exp(-rng.uniform(.6, 2) * r) + rng.uniform(.2, 2) * np.exp(-rng.uniform(.2, 2.) * r * r)
    if kind == "ls":
        return GreedyLeastSquares(grid, d, choice, local_tol=1e-4, global_tol=1e-7, l_maxiter=15, g_maxiter=40, spherical=bool(rng.integers(2)),
                                  normalize=bool(rng.integers(2)), with_constraint=bool(rng.random() < .3)), d
    return GreedyKLFPI(grid, d, choice, l_maxiter=6, g_maxiter=15, spherical=True), d


def run_real(ck, rng, count, report):
    """Real optimizations, recorded; the recorded environment is replayed through the specification."""
    runs, scripts = [], []
    for it in range(count):
        kind = ["ls", "kl"][it % 2]
        choice = STRATEGIES[int(rng.choice(3, p=[.5, .3, .2]))]
        obj, d = real_objects(rng, kind, choice)
        mx = int(rng.integers(1, 6)) if choice != "pick-two-lose-one" else int(rng.integers(1, 4))
        thr = float(rng.choice([0., 1e-8, 1e-3, 1.]))
        factor = float(rng.choice([1.5, 2., 4.]))
        calls, costs = [], []
        orig, orig1 = obj.get_optimization_routine, obj.get_best_one_function_solution

        def opt(params, *a, local=False, obj=obj, calls=calls, costs=costs, orig=orig):
            x = np.array(params)
            out = orig(params, *a, local=local)
            calls.append(("local" if local else "global", x, obj.model.num_s, obj.model.num_p, np.array(out)))
            costs.append(obj.eval_obj_function(out))
            if len(calls) > 3000:
                raise Runaway("more than 3000 optimizations")
            return out

        def first(obj=obj, calls=calls, costs=costs, orig1=orig1):
            out = orig1()
            calls.append(("start", None, obj.model.num_s, obj.model.num_p, np.array(out)))
            costs.append(obj.eval_obj_function(out))
            return out
        obj.get_optimization_routine, obj.get_best_one_function_solution = opt, first
        replay = {"kind": kind, "choice": choice, "max": mx, "thr": thr, "factor": factor, "density": d.tolist()[:10], "seed": ck.seed, "run": it}
        rep = lambda aspect, msg, kind=kind, choice=choice, mx=mx, thr=thr, replay=replay: report(
            aspect, f"real {kind} {choice} max={mx} threshold={thr}: {msg}", replay)
        np.random.seed(ck.seed * 1000 + it)
        try:
            res = obj.run(factor, thr, mx)
        except TooMany:
            raise
        except Exception as e:      # pylint: disable=broad-except
            rep("any", f"unexpected {type(e).__name__}: {e}")
            continue
        if not calls:
            continue
        # abstract the costs to integers of the same order
        vals = sorted({float(c) for c in costs if np.isfinite(c)})
        idx = {v: i for i, v in enumerate(vals)}
        ab = lambda c: NAN if np.isnan(c) else INF if np.isinf(c) else idx[float(c)]
        steps, lc, best = [], [], costs[0]
        for c, v in list(zip(calls, costs))[1:]:
            if c[0] == "local":
                lc.append(ab(v))
                continue
            ns, np_, x = c[2], c[3], c[4]
            n = ns + np_
            red = any(len(e) > 1 and np.min(np.abs(e[:, None] - e[None, :]) + 10 * np.eye(len(e))) < 1e-3 for e in (x[n:n + ns], x[n + ns:]))
            ok = (not red) and v <= best
            steps.append({"lc": lc or [0], "rc": ab(v), "red": bool(red), "small": bool(not abs(v - best) >= thr)})
            if ok:
                best = v
            lc = []
        if not steps:
            steps = [{"lc": [0], "rc": 0, "red": False, "small": True}]
        scripts.append({"id": len(runs), "strategy": choice, "max": mx, "thr": 0, "start": ab(costs[0]), "steps": steps,
                        "observed": True, "steplimit": len(steps) + 1})
        runs.append((obj, res, calls, factor, rep))
    pred = predict(ck, scripts)
    hist = {}
    for i, (obj, res, calls, factor, rep) in enumerate(runs):
        p = pred.get(i)
        if p is None:
            rep("stop", "stopped although the specification continues")
            continue
        ck.traces += 1
        ck.case(json.dumps(["real", scripts[i]["strategy"], scripts[i]["max"], i]))
        for r in p["reasons"]:
            hist[r] = hist.get(r, 0) + 1
        check_calls(calls, p, scripts[i]["strategy"], factor, calls[0][4], rep)
        gl = [c for c in calls if c[0] == "global"]
        entries = [calls[0][4]] + [g[4] for g, st in zip(gl, p["log"]) if st["accepted"]]
        if len(p["log"]) > len(gl):
            rep("stop", f"stopped after {len(gl)} growth steps, specified at least {len(p['log'])}")
            continue
        check_result(obj, res, p, entries, rep)
    ck.extra["real_exit_reasons"] = hist
