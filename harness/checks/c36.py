import contextlib
import io
import warnings
import numpy as np
from vlib import run_check, guarded, tlc, MachineryError
import greedyrun as G
from fitkit import DuckGrid
from bfit._slater import load_slater_wfn
from bfit.density import SlaterAtoms
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import (GreedyStrategy, GreedyKLFPI, GreedyLeastSquares, get_next_choices, get_two_next_choices, pick_two_lose_one,
                         remove_redundancies)
from bfit.grid import UniformRadialGrid, ClenshawRadialGrid, CubicGrid
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity

WORDS = {"None": lambda: None, "True": lambda: True, "False": lambda: False, "longdouble": lambda: np.longdouble,
         "KLDivergence()": lambda: KLDivergence(1e-12, 100000.0), "SLSQP": lambda: "SLSQP", "pick-one": lambda: "pick-one", "total": lambda: "total"}


def literal(text):
    if text in WORDS:
        return WORDS[text]()
    return int(text) if text.lstrip("-").isdigit() else float(text)


def same(a, b, tol):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and not (a and all(isinstance(x, (float, np.floating)) for x in a)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or isinstance(a, (str, bool, np.bool_, type)) or b is None or isinstance(b, (str, bool, np.bool_, type)):
        return type(a) is type(b) and a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype != y.dtype:
        return False
    if x.dtype.kind not in "fc":
        return bool(np.array_equal(x, y))
    with np.errstate(all="ignore"):
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * np.abs(x))
    return bool(np.all(ok))


class Falling(GreedyStrategy):
    """The cost of the k-th refinement is 1 + 4^-k."""

    def __init__(self, *args, **kw):
        grid = DuckGrid(np.array([0.]), np.array([1.]))
        super().__init__(ScipyFit(grid, np.array([1.]), AtomicGaussianDensity(grid.points, num_s=1, num_p=0), measure=G.SumMeasure()), *args, **kw)

    def params(self, cost):
        n = self.model.nbasis
        c = np.zeros(n)
        c[0] = cost
        return np.concatenate((c, 1. + .5 * np.arange(n)))

    def get_best_one_function_solution(self):
        self.k = 0
        return self.params(2.)

    def get_optimization_routine(self, params, *args, local=False):
        if local:
            return self.params(3.)
        self.k += 1
        return self.params(1. + 4. ** -self.k)


class Problem:
    """A small problem on which every option matters."""

    def __init__(self, rng):
        self.rng = rng
        n = int(rng.integers(30, 45))
        self.grid = UniformRadialGrid(n, 0.02, float(rng.uniform(5., 6.5)), dtype=float)
        r = self.grid.points
        self.d = rng.uniform(1., 3.) * np.exp(-rng.uniform(1., 2.) * r) + rng.uniform(.3, 2.) * np.exp(-rng.uniform(.4, 2.) * r * r)
        self.norm = float(self.grid.integrate(self.d))
        self.pts3 = rng.uniform(-1.5, 1.5, (12, 3))
        self.pts1 = np.sort(rng.uniform(0., 3., 14))
        self.c, self.a = rng.uniform(.5, 2., 2) * self.norm, np.array([rng.uniform(.4, .8), rng.uniform(1.5, 4.)])
        # model values from far below every mask to well above
        self.dens = np.concatenate((rng.uniform(.1, 2., 6), 10. ** rng.uniform(-9, -6, 14)))
        self.model = np.concatenate((rng.uniform(.1, 2., 6), 10. ** -np.linspace(18., 5., 14)))
        self.given = {}

    def fit_model(self, norm=True):
        return AtomicGaussianDensity(self.grid.points, num_s=2, num_p=0, normalize=norm)

    def value(self, op, name):
        """A value of the option that is not its default."""
        key = op, name
        if key not in self.given:
            self.given[key] = self.pick(op, name)
        return self.given[key]

    def pick(self, op, name):  # pylint: disable=too-many-return-statements
        rng = self.rng
        if name in ("deriv", "normalize", "spherical", "disp", "anion", "cation"):
            return name != "with_constraint"
        if name in ("include_origin", "rotate", "opt_coeffs", "opt_expons"):
            return False
        if name == "with_constraint":
            return op != "scipyrun"
        if name == "integral_dens":
            return self.norm * float(rng.uniform(1.3, 2.))
        if name in ("choice", "choice_function"):
            return "pick-two"
        if name == "center":
            return rng.uniform(-1., 1., 3 if op == "atomic" else 1)
        if name == "maxiter":
            return int(rng.integers(2, 5))
        if name == "mask_value":
            return [1e-6, 1e-7][int(rng.integers(2))] if op.startswith("new") else 10. ** -float(rng.uniform(2, 4))
        if op == "fpirun":
            return {"c_threshold": 10. ** -rng.uniform(1., 3.), "e_threshold": 10. ** -rng.uniform(1., 3.), "d_threshold": 10. ** -rng.uniform(11., 14.)}[name]
        if op == "scipyrun":
            return 10. ** -float(rng.uniform(1., 3.))
        if op in ("greedyls", "greedykl"):
            return "trust-constr" if name == "method" else int(rng.integers(3, 900)) if name.endswith("maxiter") else 10. ** -float(rng.uniform(6., 7.5))
        return {"min_radii": lambda: float(rng.uniform(.5, 3.)), "max_radii": lambda: float(rng.uniform(20., 60.)), "dtype": lambda: np.float64,
                "extra_pts": lambda: [float(x) for x in rng.uniform(30., 90., 3)], "spacing": lambda: float(rng.uniform(.5, .9)),
                "extension": lambda: float(rng.uniform(2., 4.)), "negative_val": lambda: float(rng.uniform(10., 999.)),
                "alpha": lambda: float(rng.uniform(1.5, 3.)), "num_s": lambda: 2, "num_p": lambda: 1, "measure": SquaredDifference,
                "method": lambda: "trust-constr", "weights": lambda: rng.uniform(.2, 3., len(self.d)), "coeff_val": lambda: float(rng.uniform(1., 50.)),
                "eps": lambda: float(rng.uniform(.05, .3)), "d_threshold": lambda: 1e-20, "max_numb_funcs": lambda: int(rng.integers(4, 9)),
                "add_extra_choices": lambda: "none given", "mode": lambda: ["core", "valence"][int(rng.integers(2))]}[name]()

    def tailed(self):
        """The density with a tail below every mask."""
        d = self.d.copy()
        d[-len(d) // 4:] *= 1e-25
        return d

    def documented(self, op, text, val):
        """The value an option has when it is not given, from the documentation."""
        if text == "ones":
            return np.ones(len(self.d))
        if text == "norm":                      # the numerical integral of the density, in the way of the fit
            d = self.tailed() if op == "scipy" else self.d
            sphere = 4. * np.pi * self.grid.points ** 2 if val["spherical"] == "given" else 1.
            return float(np.sum((sphere * d)[1:] + (sphere * d)[:-1]) * (self.grid.points[1] - self.grid.points[0]) / 2.)
        if text == "origin":
            return np.zeros(3)
        return [] if text == "empty" else literal(text)

    def quiet(self, f, *args, **kw):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = f(*args, **kw)
        return r, bool(out.getvalue())

    def observe(self, op, args, kw):  # pylint: disable=too-many-return-statements
        """Everything a user sees of the operation called with these options."""
        g, d = self.grid, self.d
        if op == "uniform":
            return UniformRadialGrid(9, *args, **kw).points
        if op == "clenshaw":
            return ClenshawRadialGrid(6, 7, 5, *args, **kw).points
        if op == "molecule":
            x = CubicGrid.from_molecule(np.array([3, 1]), np.array([[0., .1, .2], [.9, .5, 1.4]]), *args, **kw)
            return x.points, x.axes, x.integrate(np.ones(len(x)))
        if op in ("square", "kl", "tsallis"):
            m = {"square": SquaredDifference, "kl": KLDivergence, "tsallis": TsallisDivergence}[op]()
            return m.evaluate(self.dens, self.model, *args, **kw)
        if op == "newkl":
            m = KLDivergence(*args, **kw)
            neg = self.model.copy()
            neg[3] = -1.
            return m.mask_value, m.negative_val, m.evaluate(self.dens, self.model, True), m.evaluate(self.dens, neg, True)
        if op == "newtsallis":
            m = TsallisDivergence(*args, **kw)
            return m.mask_value, m.alpha, m.evaluate(self.dens, self.model, True)
        if op == "atomic":
            m = AtomicGaussianDensity(self.pts3, *args, **kw)
            return m.num_s, m.num_p, m.radii, m.evaluate(np.linspace(1., 2., m.nbasis), np.linspace(.5, .9, m.nbasis), True)
        if op == "molecular":
            m = MolecularGaussianDensity(self.pts3, self.pts3[:2] * .5, np.array([[1, 1], [2, 0]]), *args, **kw)
            return m.evaluate(np.linspace(1., 2., 4), np.linspace(.5, .9, 4), True)
        if op == "evalatom":
            return AtomicGaussianDensity(self.pts1, num_s=1, num_p=1).evaluate(np.ones(2), np.ones(2), *args, **kw)
        if op == "evalmol":
            return MolecularGaussianDensity(self.pts3, self.pts3[:2], np.array([[1, 0], [0, 1]])).evaluate(np.ones(2), np.ones(2), *args, **kw)
        if op == "fpi":
            f = KLDivergenceFPI(g, d, self.fit_model(), *args, **kw)
            return (f.integral_dens, f.spherical, f.lagrange_multiplier, f.measure.mask_value, f.goodness_of_fit(self.c, self.a),
                    self.result(f.run(self.c, self.a, maxiter=1)))
        if op == "scipy":
            d = self.tailed()
            f = ScipyFit(g, d, self.fit_model(), *args, **kw)
            x = np.concatenate((self.c, self.a))
            return f.func(np.concatenate((self.c, .05 * self.a))), f.integral_dens, f.spherical, f.method.lower(), f.func(x), f.const_norm(x), f.goodness_of_fit(self.c, self.a), type(f.measure).__name__
        if op == "fpirun":
            f = KLDivergenceFPI(g, d, self.fit_model())
            try:
                r, out = self.quiet(f.run, self.c, self.a, *args, **kw)
            except ValueError as e:
                return "ValueError", bool(str(e))
            return self.result(r), out
        if op == "scipyrun":
            f = ScipyFit(g, d, self.fit_model(), method=self.method)
            try:
                r, out = self.quiet(f.run, self.c, self.a, *args, **kw)
            except ValueError as e:
                return "ValueError", bool(str(e))
            return self.result(r), out
        if op in ("one", "two", "lose"):
            f = {"one": get_next_choices, "two": get_two_next_choices, "lose": pick_two_lose_one}[op]
            return [np.array(x) for x in f(2., self.c, self.a, *args, **kw)]
        if op == "merge":
            return remove_redundancies(np.array([1., 2., 3., 4.]), np.array([1., 1.0005, 1.002, 1.04]), *args, **kw)
        if op in ("greedyls", "greedykl"):
            o = (GreedyLeastSquares if op == "greedyls" else GreedyKLFPI)(g, d, *args, **kw)
            names = ("local_tol", "global_tol", "l_maxiter", "g_maxiter", "with_constraint") if op == "greedyls" else \
                ("l_threshold_coeff", "l_threshold_exp", "l_threshold_obj", "g_threshold_coeff", "g_threshold_exp", "g_threshold_obj", "l_maxiter", "g_maxiter")
            more = o.fitting_obj.method.lower() if op == "greedyls" else o.measure.mask_value
            one, two = np.array([self.c[0]]), np.array([self.a[0]])
            return ([getattr(o, x) for x in names], o.numb_func_increase, o.model.evaluate(one, two), o.integral_dens, o.fitting_obj.spherical, more,
                    o.fitting_obj.goodness_of_fit(one, two))
        if op == "strategy":
            return Falling(*args, **kw).numb_func_increase
        if op == "greedyrun":
            np.random.seed(5)
            r, out = self.quiet(Falling().run, 2., *args, **kw)
            return self.result(r), out
        if op in ("slater", "loadwfn"):
            try:
                x = SlaterAtoms(self.element, *args, **kw) if op == "slater" else load_slater_wfn(self.element, *args, **kw)
            except ValueError:
                return "ValueError", True
            return (x.energy, x.orbitals, x.orbitals_occupation) if op == "slater" else (x["energy"], x["orbitals"], x["orbitals_occupation"])
        a = SlaterAtoms("c")
        return a.phi_matrix(self.pts1, *args, **kw) if op == "phi" else a.atomic_density(self.pts1, *args, **kw)

    @staticmethod
    def result(r):
        return {k: v for k, v in r.items() if k not in ("time", "exit_information")}


def body(ck):
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed + 36)
    r = ck.model(tlc("Options", spec="Spec", invariants=["OnlyWhatIsGiven", "Disjoint", "Distinct", "Emit"], workers=4,
                     constants=dict(Small=ck.n(6, 8), MaxNamed=ck.n(1, 3))))
    ck.rule = ("every way of giving the options of every public operation (a prefix by position, a set by name, the rest left out; operations with "
               "many options: few named or few left out): the outcome is that of the call naming every option with its given or documented value")
    by = {}
    for rec in r.records:
        by.setdefault(rec["op"], []).append(rec)
    slow = {"scipyrun": 24, "molecule": 8, "fpirun": 60, "greedyrun": 16}
    effect = {}
    for op, recs in sorted(by.items()):
        for trial in range(ck.n(2, 6)):
            pr = Problem(rng)
            pr.element = ["c", "C"][int(rng.integers(2))]
            pr.method = ["slsqp", "trust-constr"][int(trial == 1)]
            order = recs[0]["order"]
            cache = {}

            def meaning(val, pr=pr, op=op, cache=cache):
                key = tuple(sorted(val.items()))
                if key not in cache:
                    cache[key] = pr.observe(op, (), {n: pr.use(op, n, "given") if v == "given" else pr.documented(op, v, val) for n, v in val.items()})
                return cache[key]
            chosen = recs
            alone = [x for x in recs if x["pos"] == 0 and len(x["named"]) <= 1] + [x for x in recs if x["pos"] == 1 and not x["named"]]
            if op in slow and len(recs) > slow[op] * ck.n(1, 4):
                rest = [x for x in recs if x not in alone]
                chosen = alone + [rest[i] for i in rng.permutation(len(rest))[:slow[op] * ck.n(1, 4)]]
            elif len(recs) > 400 * ck.n(1, 10):
                chosen = alone + [recs[i] for i in rng.permutation(len(recs))[:400 * ck.n(1, 10)]]
            for rec in chosen:
                if pr.method == "trust-constr" and op == "scipyrun" and rec["val"]["maxiter"] != "given" and rec["val"]["tol"] != "given":
                    continue                    # takes very long
                args = [pr.use(op, n, "given") for n in order[:rec["pos"]]]
                names = list(rec["named"])
                kw = {names[i]: pr.use(op, names[i], "given") for i in rng.permutation(len(names))}
                what = f"{op}({', '.join([str(x) for x in args] + [f'{n}={v}' for n, v in kw.items()])})"
                replay = {"op": op, "positional": [str(x) for x in args], "named": {n: str(v) for n, v in kw.items()}}
                ok, want = guarded(ck, what + " with every option named", replay, meaning, rec["val"])
                if not ok:
                    continue
                ok, got = guarded(ck, what, replay, pr.observe, op, args, kw)
                if not ok:
                    continue
                ck.case((op, rec["pos"], tuple(names)), sample=what)
                ck.traces += 1
                tol = 1e-6 if op in ("scipyrun", "fpirun") else 1e-11
                if not same(got, want, tol):
                    ck.fail(f"{what}: not the outcome of the call that names every option with its given or documented value", dict(replay, meaning=rec["val"]))
                if rec["pos"] == 0 and len(names) == 1:
                    none = meaning({n: v for n, v in recs_default(recs)["val"].items()})
                    effect.setdefault((op, names[0]), []).append(not same(got, none, tol))
    for (op, n), seen in sorted(effect.items()):
        # a run goes on until both kinds of parameters have settled or the divergence has: these decide only beside others
        if not any(seen) and (op, n) not in (("greedyrun", "add_extra_choices"), ("fpirun", "c_threshold"), ("fpirun", "e_threshold")):
            ck.fail(f"{op}: giving {n} changes nothing", {"op": op, "option": n})
    for op, beside, name, edge in EDGES:        # a value given is used, also one that counts as false
        pr = Problem(rng)
        pr.method = "slsqp"
        replay = {"op": op, "beside": beside, "option": name, "value": edge}
        for form in (edge, np.float64(edge) if isinstance(edge, float) else edge):
            ok, with_it = guarded(ck, f"{op} given {name}={form!r}", replay, pr.observe, op, (), dict(beside, **{name: form}))
            ok2, without = guarded(ck, f"{op} without {name}", replay, pr.observe, op, (), beside)
            ck.case((op, "edge", name))
            if ok and ok2 and same(with_it, without, 1e-11):
                ck.fail(f"{op}: giving {name}={form!r} is the same as not giving it", replay)
    for op, beside, name, values in VALUES:     # and every value has its own effect
        pr = Problem(rng)
        pr.method = "slsqp"
        seen = []
        for v in values:
            ok, out = guarded(ck, f"{op} given {name}={v!r}", {"op": op, "option": name, "value": v}, pr.observe, op, (), dict(beside, **{name: v}))
            ck.case((op, "values", name, v))
            for u, other in seen if ok else []:
                if same(out, other, 1e-11):
                    ck.fail(f"{op}: giving {name}={v!r} is the same as giving {u!r}", {"op": op, "option": name, "values": [u, v]})
            seen += [(v, out)] if ok else []
    ck.extra["options_seen_to_matter"] = sum(any(v) for v in effect.values())


EDGES = [("uniform", {"min_radii": -2.}, "max_radii", 0.), ("uniform", {"min_radii": -2.}, "max_radii", 0), ("newkl", {}, "mask_value", 0.),
         ("newkl", {}, "negative_val", 0.), ("newtsallis", {}, "mask_value", 0.), ("molecule", {}, "extension", 0.), ("merge", {}, "eps", 0.),
         ("one", {}, "coeff_val", 0.), ("two", {}, "coeff_val", 0.), ("lose", {}, "coeff_val", 0.), ("fpirun", {}, "maxiter", 0),
         ("greedyls", {}, "local_tol", 0.), ("greedyls", {}, "global_tol", 0.), ("greedyls", {}, "l_maxiter", 0), ("greedyls", {}, "g_maxiter", 0),
         ("greedykl", {}, "mask_value", 0.), ("greedykl", {}, "l_maxiter", 0), ("greedykl", {}, "g_maxiter", 0), ("greedyrun", {}, "d_threshold", 0.)] + [
             ("greedykl", {}, f"{k}_eps_{v}", 0.) for k in "gl" for v in ("coeff", "exp", "obj")]


VALUES = [("uniform", {}, "min_radii", (-1e3, -1., 1e-9, 1., 99.)), ("uniform", {}, "max_radii", (1e-6, 1., 99.9, 1e9)),
          ("molecule", {}, "spacing", (.5, .6, 1.5)), ("molecule", {"spacing": .9}, "extension", (1., 3., 8.)),
          ("newkl", {}, "mask_value", (1e-9, 1e-7, .1, 10.)), ("newkl", {}, "negative_val", (1e-9, 1., 1e9, 1e300)),
          ("newtsallis", {}, "mask_value", (1e-9, 1e-7, .1, 10.)), ("newtsallis", {}, "alpha", (.1, .9, 1.5, 9., 1.0001)),
          ("fpi", {}, "integral_dens", (1e-6, 1., 1e6)), ("fpi", {}, "mask_value", (1e-3, .1, 9.)), ("scipy", {}, "integral_dens", (1e-6, 1., 1e6)),
          ("fpirun", {}, "maxiter", (1, 2, 7, 20)), ("scipyrun", {}, "maxiter", (1, 2, 4)), ("scipyrun", {}, "tol", (10., 1e-5)),
          ("one", {}, "coeff_val", (1e-9, 1., 1e9)), ("two", {}, "coeff_val", (1e-9, 1., 1e9)), ("lose", {}, "coeff_val", (1e-9, 1., 1e9)),
          ("merge", {}, "eps", (1e-9, .0007, .01, .5)), ("greedyrun", {}, "max_numb_funcs", (2, 3, 5, 9)), ("greedyrun", {}, "d_threshold", (1e9, 1e-3, 1e-30)),
          ("greedyls", {}, "local_tol", (1e-30, 1e-3, 1.)), ("greedyls", {}, "global_tol", (1e-30, 1e-3, 1.)), ("greedyls", {}, "l_maxiter", (1, 10 ** 6)),
          ("greedyls", {}, "g_maxiter", (1, 10 ** 6)), ("greedyls", {}, "integral_dens", (1e-6, 1e6)), ("greedykl", {}, "l_maxiter", (1, 10 ** 6)),
          ("greedykl", {}, "g_maxiter", (1, 10 ** 6)), ("greedykl", {}, "mask_value", (1e-30, 1e-3, .1)), ("greedykl", {}, "integral_dens", (1e-6, 1e6))] + [
              ("greedykl", {}, f"{k}_eps_{v}", (1e-30, 1e-3, 1.)) for k in "gl" for v in ("coeff", "exp", "obj")]


def recs_default(recs):
    return next(x for x in recs if x["pos"] == 0 and not x["named"])


def use(self, op, name, how):
    """The value given for an option."""
    assert how == "given"
    v = self.value(op, name)
    return None if isinstance(v, str) and v == "none given" else v


Problem.use = use

if __name__ == "__main__":
    run_check("C36", "model_checking", body)
