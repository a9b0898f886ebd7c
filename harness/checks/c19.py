import contextlib
import copy
import io
import os
import warnings
import numpy as np
from vlib import run_check, tlc, TooMany
import fitkit as K
from fpiloop import same
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import (GreedyKLFPI, GreedyLeastSquares, remove_redundancies, get_next_choices,
                         get_two_next_choices, pick_two_lose_one)
from bfit.grid import _BaseRadialGrid, UniformRadialGrid, ClenshawRadialGrid, CubicGrid
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from bfit.density import SlaterAtoms
from bfit.parse_ugbs import get_ugbs_exponents


class Arrays(dict):
    """Everything given to the library, with a copy made before it is first used."""

    def __init__(self):
        super().__init__()
        self.first = {}

    def __setitem__(self, key, val):
        self.first.setdefault(key, copy.deepcopy(val))
        super().__setitem__(key, val)

    def changed(self):
        return [k for k, x in self.items() if type(x) is not type(self.first[k]) or
                not (np.array_equal(x, self.first[k]) if isinstance(x, np.ndarray) else x == self.first[k])
                or isinstance(x, np.ndarray) and x.dtype != self.first[k].dtype]


class World:
    """Shared objects of one session, deterministically built from a seed."""

    def __init__(self, seed):
        rng = np.random.default_rng(seed)
        self.size, self.kept = "A", []
        self.arr = A = Arrays()
        self.rgrid = UniformRadialGrid(40, 0.0, 6., dtype=float)
        A["rpoints"] = self.rgrid.points
        A["dens"] = 2. * np.exp(-1.3 * A["rpoints"]) + .3 * np.exp(-.5 * A["rpoints"] ** 2)
        A["weights"] = rng.uniform(.5, 1.5, 40)
        A["center"] = np.array([0.])
        self.shapes = {"A": (2, 1), "B": (1, 2)} if seed % 2 else {"A": (2, 0), "B": (1, 1)}
        self.model = AtomicGaussianDensity(A["rpoints"], None, *self.shapes["A"], normalize=bool(seed % 3))
        for k, (s, p) in self.shapes.items():
            A["c" + k], A["e" + k] = rng.uniform(.5, 2., s + p), rng.uniform(.3, 3., s + p)
        self.measure = KLDivergence(1e-12)
        self.fpi = KLDivergenceFPI(self.rgrid, A["dens"], self.model, 0., None, True)
        self.sci = ScipyFit(self.rgrid, A["dens"], self.model, self.measure, "SLSQP", A["weights"], None, True)
        self.tru = ScipyFit(self.rgrid, A["dens"], self.model, SquaredDifference(), "trust-constr", A["weights"], None, True)
        A["origin"], A["axes"] = np.array([-1., -1.2, -.8]), np.diag([.7, .8, .6])
        A["shape"] = np.array([4, 3, 4])
        self.cgrid = CubicGrid(A["origin"], A["axes"], A["shape"])
        A["cpoints"] = self.cgrid.points
        A["coords"], A["basis"] = np.array([[0., 0., -.4], [.3, 0., .7]]), np.array([[1, 1], [2, 0]])
        self.mol = MolecularGaussianDensity(A["cpoints"], A["coords"], A["basis"], normalize=True)
        A["mc"], A["me"] = rng.uniform(.5, 1.5, 4), rng.uniform(.4, 2., 4)
        A["mdens"] = np.exp(-np.sum(A["cpoints"] ** 2, axis=1))
        self.mfpi = KLDivergenceFPI(self.cgrid, A["mdens"], self.mol)
        A["numbers"] = np.array([1, 8])
        self.gls = GreedyLeastSquares(self.rgrid, A["dens"], "pick-one", l_maxiter=4, g_maxiter=6, spherical=True)
        self.gkl = GreedyKLFPI(self.rgrid, A["dens"], "pick-two", l_maxiter=4, g_maxiter=6, spherical=True)
        self.atom = SlaterAtoms("be")
        f2, g2 = rng.uniform(0., 2., 30), rng.uniform(0., 2., 30)
        g2[::7] = 0.
        f2[::5] = 0.
        A["f2"], A["g2"] = f2, g2
        A["integrand"] = rng.normal(size=40)
        A["extra"], A["lextra"] = np.array([75., 50., 62.5]), [75., 50., 50., 100.]
        A["lcoords"], A["lshape"] = [[0., 0., -.4], [.3, 0., .7]], [3, 2, 4]
        A["fcoords"], A["fbasis"] = np.array([[0.], [.5]]), np.array([[1, 0], [0, 1]])
        A["unsorted"] = np.array([3., 1., 2., 2., 0.])
        tiny = A["dens"].copy()
        tiny[3:9], tiny[30:] = 0., np.array([1e-305, 1e-12, 1e-19, 0.] * 2 + [1e-7, 0.])
        A["tdens"] = tiny
        A["pdens"] = np.maximum(A["tdens"], 1e-305)
        A["cofactor"] = np.exp(-np.outer(A["rpoints"] ** 2, [.5, 1., 2.]))
        for k, n in (("A", sum(self.shapes["A"])), ("B", sum(self.shapes["B"]))):
            A["z" + k], A["y" + k] = np.array([0.] + [1e-14, 1., 2.][:n - 1]), np.array([1e-14, 1., 2., 3.][:n])
        A["ex"], A["co"] = np.array([.5, 1., 1.0004, 3.]), np.array([1., 2., 3., 4.])
        self.mod2 = AtomicGaussianDensity(A["rpoints"], num_s=2, normalize=True)
        for k, s in (("big", 1e6), ("small", 1e-9), ("one", 0.)):       # other magnitudes
            A["w" + k] = A["weights"] * s if s else np.ones(40)
            A["d" + k] = A["dens"] * s if s else np.ones(40)
            A["c" + k], A["e" + k] = np.array([3., 1.]) * (s or 1.), np.array([7., .2]) * (1e3 if s > 1 else 1e-3 if s else 1.)
        A["wzero"] = np.where(np.arange(40) % 3, 1., 0.)
        A["radii"] = np.array([.1, .5, 1., 2.5, 6., 3e-12, 1e-7, 4e-11, 60., 900.])
        for k, n in (("A", sum(self.shapes["A"])), ("B", sum(self.shapes["B"]))):
            A["n" + k] = np.array([0., -.4, 1.5, -2.])[:n]
        self.ls, self.ts, self.kl0 = SquaredDifference(), TsallisDivergence(1.5), KLDivergence(0.)

    def cur(self):
        return self.arr["c" + self.size], self.arr["e" + self.size]

    def resize(self, to):
        self.model.change_numb_s_and_numb_p(*self.shapes[to])
        self.size = to
        return [self.model.num_s, self.model.num_p, self.model.prefactor]


SEED = [7]          # of the guesses a greedy run draws from numpy's own generator


def greedy(obj, disp):
    np.random.seed(SEED[0])
    return obj.run(2., 1e-8, 3, None, disp)


def rejected(fn, *a):
    try:
        fn(*a)
    except (ValueError, TypeError):
        return ["rejected"]
    return ["accepted"]


@contextlib.contextmanager
def inplace(*arrays):
    """The caller's own arrays hold other values for a while (a result remembered per array object would be stale)."""
    old = [x.copy() for x in arrays]
    try:
        for x in arrays:
            x *= 1.375
        yield
    finally:
        for x, y in zip(arrays, old):
            x[:] = y


def other(w, arrays, fn):
    with inplace(*arrays):
        return fn()


OPS = {
    "eval": lambda w: [w.model.evaluate(*w.cur())],
    "evald": lambda w: list(w.model.evaluate(*w.cur(), deriv=True)),
    "gof": lambda w: w.fpi.goodness_of_fit(*w.cur()),
    "fpi": lambda w: w.fpi.run(*w.cur(), maxiter=4),
    "fpid": lambda w: w.fpi.run(*w.cur(), maxiter=4, disp=True),
    "fpic": lambda w: w.fpi.run(*w.cur(), opt_expons=False, maxiter=3),
    "sci": lambda w: w.sci.run(*w.cur(), maxiter=3),
    "scid": lambda w: w.sci.run(*w.cur(), maxiter=3, disp=True),
    "scie": lambda w: w.sci.run(*w.cur(), opt_coeffs=False, maxiter=3, with_constraint=False),
    "tru": lambda w: w.tru.run(*w.cur(), opt_coeffs=True, opt_expons=False, maxiter=3),
    "trud": lambda w: w.tru.run(*w.cur(), opt_coeffs=True, opt_expons=False, maxiter=3, disp=True),
    "sciz": lambda w: w.sci.run(w.arr["z" + w.size], w.cur()[1], opt_expons=False, maxiter=3, with_constraint=False),
    "sciy": lambda w: w.sci.run(w.cur()[0], w.arr["y" + w.size], opt_coeffs=False, maxiter=3),
    "truz": lambda w: w.tru.run(w.arr["z" + w.size], w.arr["y" + w.size], maxiter=2, with_constraint=False),
    "fpiz": lambda w: w.fpi.run(w.arr["z" + w.size], w.arr["y" + w.size], maxiter=2),
    "fpin": lambda w: w.fpi.run(w.cur()[0], w.arr["n" + w.size], maxiter=2),
    "scin": lambda w: w.sci.run(w.arr["n" + w.size], w.cur()[1], maxiter=2),
    "tfitn": lambda w: [GreedyLeastSquares.optimize_using_nnls(w.arr["mdens"], np.abs(w.arr["cpoints"])), w.mfpi.run(w.arr["mc"], w.arr["me"], opt_coeffs=False, maxiter=2),
                        KLDivergenceFPI(w.rgrid, w.arr["tdens"], w.mod2, 1e-12, None, True).run(w.arr["co"][:2], w.arr["nA"][:2], maxiter=2)],
    "fpinf": lambda w: [w.fpi.run(np.full(len(x), v), np.full(len(x), y), maxiter=2) for x in w.cur()[:1] for v, y in ((np.inf, 1.), (1., 1e6), (1e300, 1e-5))],
    "func": lambda w: list(w.sci.func(np.concatenate(w.cur()))),
    "bad": lambda w: rejected(w.model.evaluate, np.ones(9), np.ones(9)),
    "resizeA": lambda w: w.resize("A"),
    "resizeB": lambda w: w.resize("B"),
    "integrate": lambda w: [w.rgrid.integrate(w.arr["integrand"]), w.fpi.integrate(w.arr["integrand"]),
                            w.cgrid.integrate(w.arr["mdens"])],
    "mol": lambda w: list(w.mol.evaluate(w.arr["mc"], w.arr["me"], deriv=True)),
    "mfpi": lambda w: w.mfpi.run(w.arr["mc"], w.arr["me"], maxiter=3),
    "mfpid": lambda w: w.mfpi.run(w.arr["mc"], w.arr["me"], maxiter=3, disp=True),
    "kl": lambda w: list(w.measure.evaluate(w.arr["f2"], w.arr["g2"], deriv=True)) + list(w.kl0.evaluate(w.arr["f2"], w.arr["g2"] * 1e-9 + 1e-14, deriv=True)),
    "ls": lambda w: list(w.ls.evaluate(w.arr["f2"], w.arr["g2"], deriv=True)) + list(w.ts.evaluate(w.arr["f2"], w.arr["g2"], deriv=True)),
    "gls": lambda w: greedy(w.gls, False),
    "glsd": lambda w: greedy(w.gls, True),
    "gkl": lambda w: greedy(w.gkl, False),
    "gkld": lambda w: greedy(w.gkl, True),
    "helpers": lambda w: list(remove_redundancies(w.arr["co"], w.arr["ex"])) + [list(f(2., w.arr["co"], w.arr["ex"])) for f in
                              (get_next_choices, get_two_next_choices, pick_two_lose_one)],
    "atom": lambda w: [w.atom.atomic_density(w.arr["rpoints"], m) for m in ("total", "core", "valence")],
    "atomd": lambda w: [w.atom.derivative_density(w.arr["rpoints"][1:]), w.atom.positive_definite_kinetic_energy(w.arr["rpoints"]),
                        w.atom.phi_matrix(w.arr["rpoints"], deriv=True)],
    "load": lambda w: [SlaterAtoms("be").orbitals_exp["S"], SlaterAtoms("c", anion=True).orbitals_occupation,
                       SlaterAtoms("c").orbitals_energy, get_ugbs_exponents("Be")["S"]],
    "newmodels": lambda w: [x for m in (
        AtomicGaussianDensity(w.arr["cpoints"], w.arr["coords"][0], 1, 1, True), AtomicGaussianDensity(w.arr["rpoints"], w.arr["center"], 2, 0),
        MolecularGaussianDensity(w.arr["cpoints"], w.arr["coords"], w.arr["fbasis"]),
        MolecularGaussianDensity(w.arr["cpoints"], w.arr["coords"], w.arr["fbasis"], normalize=True),
        MolecularGaussianDensity(w.arr["rpoints"], w.arr["fcoords"], w.arr["fbasis"])) for x in m.evaluate(w.arr["ex"][:2], w.arr["co"][:2], True)],
    "newfits": lambda w: [ScipyFit(w.rgrid, w.arr["dens"], w.model, m, "slsqp", None, 2., True).integral_dens for m in (w.kl0, w.ts, w.measure)] + [
                          KLDivergenceFPI(w.rgrid, w.arr["dens"], w.model, 1e-3, 2., True).integral_dens,
                          ScipyFit(w.rgrid, w.arr["dens"], w.model, w.ls, "trust-constr", w.arr["weights"], None, True).integral_dens,
                          KLDivergenceFPI(w.cgrid, w.arr["mdens"], w.mol, 1e-3).integral_dens,
                          GreedyKLFPI(w.rgrid, w.arr["dens"], "pick-one").integral_dens,
                          GreedyLeastSquares(w.rgrid, w.arr["dens"], "pick-two-lose-one", spherical=True).integral_dens],
    "tfit": lambda w: [KLDivergenceFPI(w.rgrid, w.arr["tdens"], w.mod2, 1e-12, None, True).run(w.arr["co"][:2], w.arr["ex"][:2], maxiter=2),
                       ScipyFit(w.rgrid, w.arr["tdens"], w.mod2, w.ls, spherical=True).run(w.arr["co"][:2], w.arr["ex"][:2], maxiter=3),
                       greedy(GreedyKLFPI(w.rgrid, w.arr["tdens"], "pick-one", l_maxiter=2, g_maxiter=2, spherical=True), False),
                       greedy(GreedyLeastSquares(w.rgrid, w.arr["pdens"], "pick-one", l_maxiter=2, g_maxiter=2, spherical=True), False)],
    "nnls": lambda w: [GreedyLeastSquares.optimize_using_nnls(d, w.arr["cofactor"]) for d in (w.arr["dens"], w.arr["tdens"], w.arr["integrand"])],
    "newgrid": lambda w: [_BaseRadialGrid(w.arr["unsorted"]).points, _BaseRadialGrid(w.arr["unsorted"]).integrate(w.arr["unsorted"]),
                          ClenshawRadialGrid(4, 6, 5, w.arr["lextra"]).points, ClenshawRadialGrid(4, 6, 5, w.arr["lextra"], False).points,
                          CubicGrid(w.arr["origin"], w.arr["axes"], w.arr["lshape"]).points, UniformRadialGrid(9, 0.5, 3.).points, CubicGrid(w.arr["origin"], w.arr["axes"], w.arr["shape"]).points,
                          CubicGrid.from_molecule(w.arr["numbers"], w.arr["coords"], 1., 1.5, True).points,
                          CubicGrid.from_molecule(w.arr["numbers"], w.arr["coords"], 1., 1.5, False).points],
    "evalx": lambda w: other(w, w.cur(), lambda: [w.model.evaluate(*w.cur())] + list(w.model.evaluate(*w.cur(), True))),
    "gofx": lambda w: other(w, w.cur(), lambda: w.fpi.goodness_of_fit(*w.cur()) + w.sci.goodness_of_fit(*w.cur())),
    "fpix": lambda w: other(w, w.cur(), lambda: copy.deepcopy(w.fpi.run(*w.cur(), maxiter=3))),
    "scix": lambda w: other(w, w.cur(), lambda: copy.deepcopy(w.sci.run(*w.cur(), maxiter=3))),
    "trux": lambda w: other(w, w.cur(), lambda: copy.deepcopy(w.tru.run(*w.cur(), opt_coeffs=False, maxiter=2))),
    "molx": lambda w: other(w, (w.arr["mc"], w.arr["me"]), lambda: [w.mol.evaluate(w.arr["mc"], w.arr["me"])] + list(
        w.mol.evaluate(w.arr["mc"], w.arr["me"], True)) + copy.deepcopy(flat(w.mfpi.run(w.arr["mc"], w.arr["me"], maxiter=2)))),
    "arraysx": lambda w: other(w, (w.arr["integrand"], w.arr["mdens"], w.arr["f2"], w.arr["g2"], w.arr["cofactor"]), lambda: [
        w.rgrid.integrate(w.arr["integrand"]), w.fpi.integrate(w.arr["integrand"]), w.cgrid.integrate(w.arr["mdens"]),
        w.measure.evaluate(w.arr["f2"], w.arr["g2"], True), w.ls.evaluate(w.arr["f2"], w.arr["g2"]), w.ts.evaluate(w.arr["f2"], w.arr["g2"], True),
        GreedyLeastSquares.optimize_using_nnls(w.arr["integrand"], w.arr["cofactor"])]),
    "greedyx": lambda w: other(w, (w.arr["co"], w.arr["ex"]), lambda: list(remove_redundancies(w.arr["co"], w.arr["ex"])) + [
        list(f(2., w.arr["co"], w.arr["ex"])) for f in (get_next_choices, get_two_next_choices, pick_two_lose_one)]),
    "atomx": lambda w: other(w, (w.arr["radii"],), lambda: [w.atom.atomic_density(w.arr["radii"], m) for m in ("total", "core", "valence")] + [
        w.atom.derivative_density(w.arr["radii"]), w.atom.positive_definite_kinetic_energy(w.arr["radii"]), w.atom.phi_matrix(w.arr["radii"])]),
    "scaled": lambda w: [x for k in ("big", "small", "one") for x in (
        ScipyFit(w.rgrid, w.arr["d" + k], w.mod2, w.ls, "SLSQP", w.arr["w" + k], None, True).run(w.arr["c" + k], w.arr["e" + k], maxiter=2),
        ScipyFit(w.rgrid, w.arr["dens"], w.mod2, w.ls, "trust-constr", w.arr["wzero"], 5., True).func(np.append(w.arr["c" + k], w.arr["e" + k])),
        KLDivergenceFPI(w.rgrid, w.arr["d" + k], w.mod2, 0., None, True).run(w.arr["c" + k], w.arr["e" + k], maxiter=2),
        w.mod2.evaluate(w.arr["c" + k], w.arr["e" + k], True), w.measure.evaluate(w.arr["d" + k], w.arr["dens"], True),
        w.ts.evaluate(w.arr["dens"], w.arr["d" + k], True), w.ls.evaluate(w.arr["d" + k], w.arr["w" + k], True), w.rgrid.integrate(w.arr["d" + k]),
        remove_redundancies(w.arr["c" + k], w.arr["e" + k], 1.), get_next_choices(2., w.arr["c" + k], w.arr["e" + k]),
        get_two_next_choices(2., w.arr["c" + k], w.arr["e" + k]), pick_two_lose_one(2., w.arr["c" + k], w.arr["e" + k]))],
    "atomr": lambda w: [w.atom.atomic_density(w.arr["radii"], m) for m in ("total", "core", "valence")] + [
        w.atom.derivative_density(w.arr["radii"]), w.atom.positive_definite_kinetic_energy(w.arr["radii"]), w.atom.phi_matrix(w.arr["radii"])],
}
STATEFUL = ["evalx", "gofx", "fpix", "scix", "trux", "eval", "evald", "gof", "fpi", "fpid", "fpic", "sci", "scid", "scie", "tru", "trud", "func", "sciz", "sciy", "truz", "fpiz", "fpin", "scin", "fpinf"]
# asking for output changes nothing but the output
INERT = {"fpid": "fpi", "scid": "sci", "mfpid": "mfpi", "trud": "tru", "glsd": "gls", "gkld": "gkl"}


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) if k != "time" for x in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    if isinstance(v, str) or v is None:
        return [v]
    return [np.array(v) + 0.]


def equal(a, b):
    return len(a) == len(b) and all((x == y) if isinstance(x, str) or x is None or isinstance(y, str) else same(x, y) for x, y in zip(a, b))


def do(w, op):
    before = settings()
    with contextlib.redirect_stdout(io.StringIO()) as out:
        try:
            raw = OPS[op](w)
            v = flat(raw)
            if not op.startswith("resize"):
                w.kept += [(op, x, x.copy()) for x in arrays_in(raw)]
        except TooMany:
            raise
        except Exception as e:      # pylint: disable=broad-except
            v = [f"raised {type(e).__name__}: {e}"]
    if settings() != before:
        w.kept.append((op + " (settings of the whole process)", np.array(0.), np.array(1.)))         # reported with the results that changed
        np.set_printoptions(**before[0])
        np.seterr(**before[1])
    return v, out.getvalue()


def settings():
    """What a user has set for the process: not the library's to change."""
    opt = np.get_printoptions()
    return {k: opt[k] for k in ("precision", "suppress", "threshold", "linewidth", "edgeitems", "floatmode")}, np.geterr(), len(warnings.filters), os.getcwd()


def attributes(w):
    """What the objects say about themselves."""
    out = {}
    for name in ("fpi", "sci", "tru", "mfpi", "gls", "gkl"):
        o = getattr(w, name)
        fit = getattr(o, "fitting_obj", o)
        m = fit.measure
        out[name] = [type(m).__name__, *(float(getattr(m, k)) for k in ("mask_value", "alpha", "negative_val") if hasattr(m, k)), float(o.integral_dens)]
        out[name] += [] if fit is not o else [type(o.model).__name__, int(o.model.nbasis), np.asarray(o.model.prefactor, float).tolist(), o.model.points.shape]
    for name in ("measure", "ls", "ts", "kl0"):
        m = getattr(w, name)
        out[name] = [float(getattr(m, k)) for k in ("mask_value", "alpha", "negative_val") if hasattr(m, k)]
    for name in ("energy", "kinetic_energy", "potential_energy", "configuration", "orbitals", "orbitals_occupation", "orbitals_basis", "basis_numbers",
                 "orbitals_exp", "orbitals_coeff", "orbitals_energy", "orbitals_cusp"):
        v = getattr(w.atom, name)
        out["atom " + name] = [(k, np.asarray(v[k]).tolist()) for k in sorted(v)] if isinstance(v, dict) else np.asarray(v).tolist()
    for k, name in enumerate(("model", "mol", "mod2")):
        m = getattr(w, name)
        out["model " + name] = [m.nbasis if k else 0, m.natoms, m.points.tolist(), m.radii.tolist()]
    for name in ("rgrid", "cgrid"):
        g = getattr(w, name)
        out[name] = [len(g), g.points.shape, str(g.points.dtype)]
    return out


def arrays_in(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in arrays_in(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in arrays_in(y)]
    return [v] if isinstance(v, np.ndarray) and v.ndim else []


def body(ck):
    names = list(OPS)
    ck.rule = ("every session of the specification (all orders of public operations on shared objects, exhaustive up to a length and random "
               "longer ones): results must equal those on fresh objects, given arrays must be bit-identical afterwards, display inert")
    const = lambda n: dict(Ops="{" + ",".join(f'"{o}"' for o in names) + "}", Stateful="{" + ",".join(f'"{o}"' for o in STATEFUL) + "}", MaxLen=n)
    r = ck.model(tlc("Session", spec="Spec", invariants=["Pure", "Emit"], constants=const(2)))
    hist = [x["h"] for x in r.records]
    length, num = ck.n((9, 90), (14, 900))
    r = ck.model(tlc("Session", spec="Spec", invariants=["Pure", "Emit"], constants=const(length), simulate=num, depth=length + 1,
                     seed=ck.seed))
    hist += [x["h"] for x in r.records]
    if ck.thorough:
        r = ck.model(tlc("Session", spec="Spec", invariants=["Emit"], constants=const(3)))
        rng = np.random.default_rng(ck.seed)
        hist += [r.records[i]["h"] for i in rng.choice(len(r.records), 6000, replace=False)]
    # reference: each operation as the first thing done to fresh objects of the right size
    seeds = ck.n([1], [1, 2, 6])
    for seed in seeds:
        ref = {}
        rest = attributes(World(seed))
        for op in names:
            for size in ("A", "B") if op in STATEFUL else ("A",):
                w = World(seed)
                if size == "B":
                    w.model = AtomicGaussianDensity(w.arr["rpoints"], None, *w.shapes["B"], normalize=bool(seed % 3))
                    w.fpi = KLDivergenceFPI(w.rgrid, w.arr["dens"], w.model, 0., None, True)
                    w.sci = ScipyFit(w.rgrid, w.arr["dens"], w.model, w.measure, "SLSQP", w.arr["weights"], None, True)
                    w.tru = ScipyFit(w.rgrid, w.arr["dens"], w.model, SquaredDifference(), "trust-constr", w.arr["weights"], None, True)
                    w.size = "B"
                v, out = do(w, op)
                if size == "A":         # the generator of the process belongs to the caller: different before, different after
                    end = []
                    for SEED[0] in (8, 7):
                        np.random.seed(SEED[0])
                        do(World(seed), op)
                        end.append(np.random.random())
                    if end[0] == end[1]:
                        ck.fail(f"{op} resets numpy's random numbers", {"op": op, "world": seed})
                if v and isinstance(v[0], str) and v[0].startswith("raised"):
                    ck.fail(f"{op} on fresh objects {v[0]}", {"op": op, "size": size, "world": seed})
                ref[op + "/" + size if op in STATEFUL else op] = v
                if out and op not in INERT:
                    ck.fail(f"{op} prints without being asked", {"op": op})
        for d, p in INERT.items():
            for size in ("/A", "/B") if d in STATEFUL else ("",):
                ck.case(("inert", d, size))
                if not equal(ref[d + size], ref[p + size]):
                    ck.fail(f"asking {p} for output changes its result", {"op": d, "size": size, "world": seed})
        for h in hist:
            w = World(seed)
            ck.traces += 1
            ck.case((seed, tuple(h)), sample={"history": h})
            for i, res in enumerate(h):
                v, _ = do(w, res.split("/")[0])
                if not equal(v, ref[res]):
                    ck.fail(f"result of {res} after {h[:i]} differs from that on fresh objects", {"history": h[:i + 1], "world": seed,
                            "got": str(v)[:500], "fresh": str(ref[res])[:500]})
                    break
                bad = w.arr.changed()
                if bad:
                    ck.fail(f"{res} or a constructor modified its inputs {bad}", {"history": h[:i + 1], "world": seed})
                    break
            if attributes(w) != (rest if w.size == "A" else None):
                if w.size == "B":
                    w.resize("A")
                now = attributes(w)
                if now != rest:
                    ck.fail(f"after {h} the settings of the objects are {[(k, now[k], rest[k]) for k in rest if now[k] != rest[k]]} (now, before)",
                            {"history": h, "world": seed})
            late = sorted({op for op, x, x0 in w.kept if not np.array_equal(x, x0, equal_nan=True)})
            if late:
                ck.fail(f"results returned by {late} changed afterwards", {"history": h, "world": seed})
    ck.extra["operations"] = names


if __name__ == "__main__":
    run_check("C19", "model_checking", body)
