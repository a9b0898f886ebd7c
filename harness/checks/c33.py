import copy
import io
import os
import contextlib
import numpy as np
from vlib import run_check, tlc, REPO
import slater as S
from bfit.grid import _BaseRadialGrid, UniformRadialGrid, ClenshawRadialGrid, CubicGrid
from bfit.measure import SquaredDifference, KLDivergence, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import GreedyLeastSquares, GreedyKLFPI, GreedyStrategy
from bfit.density import SlaterAtoms
from bfit.parse_ugbs import get_ugbs_exponents

CALLS = ["base.init", "base.integrate", "cubic.integrate", "uniform", "clenshaw", "sd", "kl", "ts", "tsallis.init", "atomic.init", "atomic.resize",
         "atomic.evaluate", "mol.init", "mol.evaluate", "mol.assign", "fpi.init", "scipy.init", "fpi.run", "scipy.run", "scipy.model", "greedy.init",
         "greedy.ls", "greedy.kl", "greedy.run.ls", "greedy.run.kl", "slater.init", "slater.radial", "slater.phi", "slater.density", "ugbs"]
METHODS = [["slsqp"], ["SLSQP", "Slsqp"], ["trust-constr", "TRUST-CONSTR"],
           ["bfgs", "l-bfgs-b", "nelder-mead", "slsqp2", "slsq", "SLSQP ", "trust", "trust-exact", "trust-constrained", "cobyla"], [""]]
CHOICES = [["pick-one"], ["pick-two"], ["pick-two-lose-one"], ["pick-three", "pick-one-lose-one", "pick-two-lose-two", "pick-"], [""],
           ["pickone", "pick-on", "pick-ones", "pick_one", "pick-two-lose", "-one", "one"], [None]]
MODES = [["total"], ["valence"], ["core"], ["Total", "CORE", "Valence"], ["all", "none"], [""], ["cores", "valenc", "totals"], ["densities", "core+valence"]]


class Bare:
    """A grid object with only some of the members of a grid."""

    def __init__(self, kind, points):
        if kind != 2:
            self.points = points
        if kind == 4:
            self.integrate = 1.
        if kind == 2:
            self.integrate = np.sum


class Duck:
    """A complete grid whose points are rows."""

    def __init__(self, points):
        self.points = points

    def __len__(self):
        return len(self.points)

    def integrate(self, values):
        return np.sum(values)


class Plain(GreedyStrategy):
    def get_best_one_function_solution(self):
        return [1., 1.]

    def get_optimization_routine(self, params, *args, local=False):
        return {"x": params, "fun": 0., "success": True}


class World:
    """Makes concrete arguments of the abstract values and the objects the calls are made on."""

    def __init__(self, rng):
        self.rng = rng
        self.pts1 = np.sort(rng.uniform(0.1, 3., 5))
        self.pts3 = rng.uniform(-1., 1., (8, 3))
        ne, an, ca = (set(f.split(".")[0] for f in os.listdir(os.path.join(REPO, "bfit", "data", d))) for d in ("neutral", "anion", "cation"))
        light = ne & set(S.LIGHT)
        self.elements = [sorted(light - set(S.ANION) - set(S.CATION)), sorted(light & an - set(S.CATION)), sorted(light & ca - set(S.ANION)),
                         sorted(light & an & ca), sorted(ne & set(S.HEAVY) - set(S.CATION)), ["c1", "4he", "1s"], [""], [6], [None], ["xx", "qq"]]

    def val(self, x):
        t, v, s, rng = x["t"], x["v"], tuple(x["s"]), self.rng
        if t == "int":
            return int(v)
        if t == "npint":
            return [np.int64, np.int32][int(rng.integers(2))](v)
        if t == "float":
            return float(v)
        if t == "bool":
            return bool(v)
        if t == "str":
            return ["abc", "2", "1.5"][int(rng.integers(3))]
        if t == "none":
            return None
        if t == "near":
            return 1. + np.sign(v) * 10. ** -abs(v)
        if t == "tiny":
            return np.sign(v) * 10. ** -abs(v)
        if t == "arr":
            return rng.uniform(.2, 1.5, s)
        if t == "list":
            return rng.uniform(.2, 1.5, s).tolist()
        if t == "tuple":
            return tuple(rng.uniform(.2, 1.5, s).tolist())
        return v

    def word(self, words, k):
        return words[k][int(self.rng.integers(len(words[k])))]

    def grid(self, v, cls=_BaseRadialGrid):
        if v == 1:
            return CubicGrid(np.zeros(3), .5 * np.eye(3), (2, 2, 2))
        if v >= 5:
            return Duck(self.rng.uniform(-1., 1., (3, 3) if v == 5 else (5, 1)))
        if v >= 2:
            return Bare(v, self.pts1)
        return cls(self.pts1)

    @staticmethod
    def points(g, fallback):
        return g.points if hasattr(g, "points") else fallback

    def dens(self, v, n):
        d = self.rng.uniform(.2, 1., n)
        if v == 1:
            d[int(self.rng.integers(n))] = -[1e-14, 1e-300, 1e-3, 1.][int(self.rng.integers(4))]
        if v == 4:
            d[[0, n - 1] if self.rng.random() < .5 else [n - 1, 0]] = np.nan, -[1e-14, 1e-3, 1.][int(self.rng.integers(3))]
        if v == 2:
            d[:] = 0.
        if v == 3:
            d = d[:-1]
        return d

    def model(self, g, v=0):
        p = self.points(g, self.pts1)
        if v == 1:
            p = p + 1e-13
        elif v == 2:
            p = p.copy()
            k = self.rng.integers
            p[int(k(len(p)))] += [1, -1][int(k(2))] * [.01, 1e-4, 1e-6, 1e-8, 1e-10][int(k(5))]
        elif v == 3:
            p = p[:-1]
        return AtomicGaussianDensity(p, num_s=2, num_p=1, normalize=True)


def state(o):
    """What later calls on the object depend on."""
    if isinstance(o, (AtomicGaussianDensity,)):
        return {"ns": o.num_s, "np": o.num_p, "nb": o.nbasis, "pref": o.prefactor.tolist(), "points": o.points.tolist(), "radii": o.radii.tolist(),
                "f": o.evaluate(np.linspace(.5, 1., o.nbasis), np.linspace(.3, 2., o.nbasis), True)[1].tolist()}
    if isinstance(o, MolecularGaussianDensity):
        n = o.nbasis
        return {"nb": n, "pref": o.prefactor.tolist(), "f": [x.tolist() for x in o.evaluate(np.linspace(.5, 1., n), np.linspace(.3, 2., n), True)]}
    if isinstance(o, (_BaseRadialGrid, CubicGrid)):
        return {"points": o.points.tolist(), "i": float(o.integrate(np.arange(1., len(o) + 1)))}
    if isinstance(o, (KLDivergenceFPI, ScipyFit)):
        n = o.model.nbasis
        return {"model": state(o.model), "density": o.density.tolist(), "n": float(o.integral_dens),
                "g": [float(x) for x in o.goodness_of_fit(np.full(n, .5), np.full(n, .8))]}
    if isinstance(o, GreedyStrategy):
        return {"s": o.num_s, "p": o.num_p, "err": [list(map(float, e)) for e in o.err_arr], "model": state(o.model), "density": np.asarray(o.density).tolist()}
    return None


def calls(w):
    """call name -> function of the abstract arguments giving (object, function)."""
    rng = w.rng
    v = w.val

    def onmodel(mk):
        return mk()

    def atomic():
        return AtomicGaussianDensity(w.pts1, num_s=2, num_p=1, normalize=bool(rng.random() < .5))

    def molecular():
        return MolecularGaussianDensity(w.pts3, rng.uniform(-1, 1, (2, 3)), np.array([[1, 1], [1, 0]]), bool(rng.random() < .5))

    def fpi(molecule=None):
        if molecule or rng.random() < .3:
            g = CubicGrid(np.zeros(3), .5 * np.eye(3), (2, 2, 2))
            m = MolecularGaussianDensity(g.points, rng.uniform(-1, 1, (2, 3)), np.array([[1, 1], [1, 0]]), True)
            return KLDivergenceFPI(g, w.dens(0, 8), m)
        g = w.grid(0)
        return KLDivergenceFPI(g, w.dens(0, 5), w.model(g))

    def scipyfit(meth="slsqp"):
        g = w.grid(0)
        return ScipyFit(g, w.dens(0, 5), w.model(g), measure=SquaredDifference(), method=meth)

    def basis(x):
        b = np.ones(tuple(x["s"]), dtype=int)
        if x["v"] == 0:
            b[int(rng.integers(2))] = 0
        if x["v"] == -1:
            b[int(rng.integers(2)), int(rng.integers(2))] = -1
        if x["v"] == 2:
            b = b.astype(float)
        return b

    def runs(o, a):
        c, e = v(a[0]), v(a[1])
        both = a[2]["v"] or a[3]["v"]
        return o, lambda: o.run(c, e, opt_coeffs=v(a[2]), opt_expons=v(a[3]), maxiter=int(rng.choice([0, 1, 2])) if both else 2)

    def scipyruns(a):
        o = scipyfit(w.word(METHODS, a[5]["v"]))
        return o, lambda: o.run(v(a[0]), v(a[1]), opt_coeffs=v(a[2]), opt_expons=v(a[3]), maxiter=2, with_constraint=v(a[4]))

    def scipymodel(a):
        o = scipyfit()
        args = () if a[0]["t"] == "none" else (["fixed_coeffs", "fixed_expons", "fixed", "coeffs"][a[0]["v"]], np.ones(3))
        return o, lambda: o.evaluate_model(np.ones(6 if not args else 3), *args)

    def measures(a):
        return [KLDivergence(), SquaredDifference(), TsallisDivergence(), "KL", KLDivergence, None][a["v"]]

    def fpiinit(a):
        g = w.grid(a[0]["v"])
        m = w.model(g)
        return None, lambda: KLDivergenceFPI(g, w.dens(a[1]["v"], len(w.points(g, w.pts1))), m, integral_dens=v(a[4]), spherical=v(a[3]))

    def scipyinit(a):
        g = w.grid(a[0]["v"])
        m = w.model(g, a[2]["v"])
        return None, lambda: ScipyFit(g, w.dens(a[1]["v"], len(w.points(g, w.pts1))), m, measure=measures(a[5]), method=w.word(METHODS, a[4]["v"]),
                                      spherical=v(a[3]))

    def greedyinit(a):
        f = [fpi, scipyfit, atomic, lambda: None, lambda: KLDivergenceFPI][a[0]["v"]]()
        return None, lambda: Plain(f, w.word(CHOICES, a[1]["v"]))

    def greedyls(a):
        g = w.grid(a[0]["v"])
        return None, lambda: GreedyLeastSquares(g, w.dens(a[1]["v"], len(g.points)), choice=w.word(CHOICES, a[2]["v"]), method=w.word(METHODS, a[3]["v"]),
                                                spherical=v(a[4]), normalize=v(a[5]))

    def greedykl(a):
        g = w.grid(a[0]["v"])
        return None, lambda: GreedyKLFPI(g, w.dens(a[1]["v"], len(g.points)), choice=w.word(CHOICES, a[2]["v"]), spherical=v(a[3]), integral_dens=v(a[4]))

    ran = {}

    def greedyrun(cls, a):
        if cls not in ran:
            g = UniformRadialGrid(40, 0., 6., dtype=np.float64)
            d = np.exp(-g.points) + .3 * np.exp(-.4 * g.points)
            ran[cls] = cls(g, d, "pick-one")
            ran[cls].run(2., max_numb_funcs=2)
        o = ran[cls]
        return o, lambda: o.run(v(a[0]), max_numb_funcs=2)

    atom = SlaterAtoms("b")

    def slaterinit(a):
        els = w.elements[a[0]["v"]]
        e = els[int(rng.integers(len(els)))]
        if isinstance(e, str) and a[0]["v"] < 5 and rng.random() < .3:
            e = e.capitalize()
        return None, lambda: SlaterAtoms(e, anion=v(a[1]), cation=v(a[2]))

    def measure(cls, a):
        d, m = v(a[0]), v(a[1])
        return None, lambda: cls().evaluate(d, m, v(a[2]))

    def base(a):
        o = w.grid(0)
        return o, lambda: o.integrate(v(a[0]))

    def cube(a):
        o = w.grid(1)
        return o, lambda: o.integrate(v(a[0]))

    def ev(o, a):
        return o, lambda: o.evaluate(v(a[0]), v(a[1]), v(a[2]))

    def resize(a):
        o = atomic()
        return o, lambda: o.change_numb_s_and_numb_p(v(a[0]), v(a[1]))

    def assign(a):
        o = molecular()
        return o, lambda: o.assign_basis_to_center(v(a[0]))

    exps, nums = np.array([[1.1], [2.], [.7]]), np.array([[1], [2], [1]])
    return {
        "base.init": lambda a: (None, lambda: _BaseRadialGrid(v(a[0]))), "base.integrate": base, "cubic.integrate": cube,
        "uniform": lambda a: (None, lambda: UniformRadialGrid(v(a[0]), v(a[1]), v(a[2]))),
        "clenshaw": lambda a: (None, lambda: ClenshawRadialGrid(v(a[0]), v(a[1]), v(a[2]), v(a[3]), v(a[4]))),
        "sd": lambda a: measure(SquaredDifference, a), "kl": lambda a: measure(KLDivergence, a), "ts": lambda a: measure(TsallisDivergence, a),
        "tsallis.init": lambda a: (None, lambda: TsallisDivergence(v(a[0]))),
        "atomic.init": lambda a: (None, lambda: AtomicGaussianDensity(v(a[0]), v(a[1]), v(a[2]), v(a[3]), v(a[4]))),
        "atomic.resize": resize, "atomic.evaluate": lambda a: ev(atomic(), a), "mol.evaluate": lambda a: ev(molecular(), a), "mol.assign": assign,
        "mol.init": lambda a: (None, lambda: MolecularGaussianDensity(v(a[0]), v(a[1]), basis(a[2]), v(a[3]))),
        "fpi.init": fpiinit, "scipy.init": scipyinit, "fpi.run": lambda a: runs(fpi(), a), "scipy.run": scipyruns, "scipy.model": scipymodel,
        "greedy.init": greedyinit, "greedy.ls": greedyls, "greedy.kl": greedykl,
        "greedy.run.ls": lambda a: greedyrun(GreedyLeastSquares, a), "greedy.run.kl": lambda a: greedyrun(GreedyKLFPI, a),
        "slater.init": slaterinit,
        "slater.radial": lambda a: (None, lambda: SlaterAtoms.radial_slater_orbital(exps, nums, v(a[0]))),
        "slater.phi": lambda a: (None, lambda: atom.phi_matrix(v(a[0]))),
        "slater.density": lambda a: (None, lambda: atom.atomic_density(w.pts1, w.word(MODES, a[0]["v"]))),
        "ugbs": lambda a: (None, lambda: get_ugbs_exponents(["h", "Xe"][a[0]["v"]] if a[0]["t"] == "name" else v(a[0]))),
    }


def short(x):
    return {"int": x["v"], "float": float(x["v"]), "bool": bool(x["v"])}.get(x["t"], x["t"] + (str(x["s"]) if x["s"] else "") + (f"#{x['v']}" if x["v"] not in (0, 1) or
                                                                                                     x["t"] in ("name", "grid", "dens", "mpts", "meas", "meth", "choice", "elem", "fit") else ""))


def body(ck):
    ck.rule = ("every combination of the argument classes of every guarded call, made on the real library: accepted iff the specification finds no "
               "violated precondition, else an error of one of the specified kinds with the object's state unchanged; distinct = call + classes")
    r = ck.model(tlc("Guards", spec="Spec", invariants=["RejectedKeepsState", "Live", "KindsKnown", "Emit"],
                     constants={"Calls": "{" + ", ".join(f'"{c}"' for c in CALLS) + "}"}, workers=4))
    per = {}
    for rep in range(ck.n(6, 20)):
        rng = np.random.default_rng(ck.seed * 100 + 33 + rep)
        w = World(rng)
        table = calls(w)
        for rec in r.records:
            c, a, bad = rec["call"], rec["args"], set(rec["bad"])
            name = f"{c}({', '.join(str(short(x)) for x in a)})"
            replay = {"call": c, "args": a, "allowed": sorted(bad)}
            ck.case(name, sample={"call": name, "allowed errors": sorted(bad)} if rng.random() < .002 else None)
            ck.traces += 1
            k = per.setdefault(c, [0, 0])
            k[bool(bad)] += 1
            with contextlib.redirect_stdout(io.StringIO()):
                obj, f = table[c](a)
                before = copy.deepcopy(state(obj)) if bad else None
                got = None
                try:
                    f()
                except Exception as e:      # pylint: disable=broad-except
                    got = e
            kinds = {t.__name__ for t in type(got).__mro__} if got is not None else set()
            if not bad and got is not None:
                ck.fail(f"{name}: rejected with {type(got).__name__}: {got}", replay)
            elif bad and got is None:
                ck.fail(f"{name}: accepted, specified {sorted(bad)}", replay)
            elif bad and not kinds & bad:
                ck.fail(f"{name}: {type(got).__name__}: {got}, specified {sorted(bad)}", replay)
            elif bad and before is not None and state(obj) != before:
                ck.fail(f"{name}: the rejected call changed the object", replay)
    ck.extra["calls"] = {c: {"valid": k[0], "invalid": k[1]} for c, k in per.items()}


if __name__ == "__main__":
    run_check("C33", "model_checking", body)
