"""Writes /verif/properties.jsonl (run once after editing; the jsonl is the deliverable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files,
                  state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                  mechanism=[dict(name=a, where=b) for a, b in mech],
                  observe_at=observe or [], hook_needed=hook)))
I, H, C = "inputs", "histories", "configurations"

p("C01", "Radial grids: point construction",
  "A uniform radial grid consists of exactly the requested number of equally spaced points from the lower to the upper radius inclusive; a Clenshaw-Curtis radial grid consists exactly of the core points (1-cos(pi p/2m))/(2Z), the diffuse points 25(1-cos(pi p/2n)) and the extra points, in ascending order, with the origin present exactly when requested and core points exist. The points have the requested data type, radii not given are 0 and 100, the origin is included unless declined, and the grid's length and points agree.",
  [I, C], "every number of points, interval, atomic number, extra points, origin choice and dtype",
  "the tests sample a few grids; point counts, the include-origin shift and the merging of extra points interact",
  ["bfit/grid.py"], [("UniformRadialGrid.__init__", "bfit/grid.py"), ("ClenshawRadialGrid._get_points", "bfit/grid.py")],
  observe=["grid.points", "len(grid)"])
p("C02", "Radial grids: trapezoidal quadrature",
  "Integrating any values on a radial grid returns the trapezoidal sum over consecutive points, so it is linear in the values, exact for piecewise linear functions on arbitrarily spaced points, and independent of earlier calls. Values of any other shape are rejected.",
  [I], "every set of points (also uneven ones) and every array of values of matching or other shape",
  "the tests integrate a few smooth functions on uniform grids to loose tolerances",
  ["bfit/grid.py"], [("_BaseRadialGrid.integrate", "bfit/grid.py")], observe=["grid.integrate"])
p("C03", "Cubic grid: lattice points, order and quadrature",
  "A cubic grid enumerates every lattice point origin + i*a1 + j*a2 + k*a3 exactly once, in the order in which the last index varies fastest, for the given origin, axes (also oblique or left-handed) and shape. Its integral is the sum of the values times the positive volume of the cell spanned by the axes.",
  [I, C], "every origin, axes triple and shape", "the tests use one or two shapes with mostly equal sides, which hide permuted indices",
  ["bfit/grid.py"], [("CubicGrid.__init__", "bfit/grid.py"), ("CubicGrid._calculate_volume", "bfit/grid.py"), ("CubicGrid.integrate", "bfit/grid.py")],
  observe=["grid.points", "grid.integrate", "len(grid)"])
p("C04", "Cubic grid of a molecule encloses the molecule",
  "The cubic grid built from nuclei has orthogonal axes of the requested spacing, parallel to the coordinate axes or, on request, to the principal axes of the charge-weighted inertia tensor, and is the smallest such box, in whole cells, that covers the bounding box of all nuclei extended by the margin on every side, centred on that bounding box. Hence every nucleus lies inside the box with the margin around it.",
  [I, C], "every molecule (charges, coordinates), spacing, margin and rotation choice", "no test builds a grid from a molecule",
  ["bfit/grid.py"], [("CubicGrid.from_molecule", "bfit/grid.py")], observe=["grid.points", "grid.axes"])
p("C05", "Deviation measures: values",
  "At every point the squared difference is (f-g)^2, the Kullback-Leibler integrand is f log(f/g) and the Tsallis integrand is f((f/g)^(alpha-1)-1)/(alpha-1), where a model value not above the mask, or smaller than the density by a factor beyond the range of double precision, counts as ratio one respectively zero, a zero density contributes zero, and an undefined model value stays undefined. If the model is negative anywhere, Kullback-Leibler returns its penalty value at every point, and only then.",
  [I, C], "every density, model, mask, penalty and alpha, in every combination of the special cases across points",
  "the tests evaluate smooth positive densities and one negative model; mixtures of masked, zero and negative points are not sampled",
  ["bfit/measure.py"], [("SquaredDifference.evaluate", "bfit/measure.py"), ("KLDivergence.evaluate", "bfit/measure.py"), ("TsallisDivergence.evaluate", "bfit/measure.py")],
  observe=["measure.evaluate"])
p("C06", "Deviation measures: derivatives match values",
  "The derivative a measure returns is, wherever the value is smooth in the model density, the exact derivative of the value it returns with respect to the model density, and asking for it does not change the value; at masked points it is the derivative formula with the substituted ratio, and for a negative Kullback-Leibler model it is the penalty value.",
  [I, C], "every density, model, mask, penalty and alpha", "finite-difference tests at a few smooth points",
  ["bfit/measure.py"], [("SquaredDifference.evaluate", "bfit/measure.py"), ("KLDivergence.evaluate", "bfit/measure.py"), ("TsallisDivergence.evaluate", "bfit/measure.py")],
  observe=["measure.evaluate(deriv=True)"])
p("C07", "Atomic model: value and parameter layout",
  "The atomic model at every point equals the sum of the s-type Gaussians c exp(-a r^2) for the first num_s parameters plus the p-type Gaussians c r^2 exp(-a r^2) for the remaining num_p parameters, each times its normalization constant if normalized, with r the Euclidean distance of the point from the centre (the origin by default). This holds in any dimension and for any numbers of s and p functions, with and without derivatives requested.",
  [I, C], "every numbers of functions, parameters, points, dimension, centre and normalization",
  "tests sample specific numbers of functions and mostly equal s and p counts", ["bfit/model.py"],
  [("AtomicGaussianDensity.evaluate", "bfit/model.py"), ("AtomicGaussianDensity._eval_s", "bfit/model.py"), ("AtomicGaussianDensity._eval_p", "bfit/model.py")],
  observe=["model.evaluate", "model.radii", "model.prefactor"])
p("C08", "Model derivatives match the value",
  "The derivative matrix of the atomic and of the molecular model has one column per parameter, coefficients first then exponents in parameter order, and every column is the exact partial derivative of the model value with respect to that parameter.",
  [I, C], "every layout, parameters, points, dimension, centres and normalization",
  "finite differences at a few configurations; column permutations vanish when counts are equal", ["bfit/model.py"],
  [("AtomicGaussianDensity.evaluate", "bfit/model.py"), ("MolecularGaussianDensity.evaluate", "bfit/model.py")],
  observe=["model.evaluate(deriv=True)"])
p("C09", "Normalized basis functions integrate to one",
  "Every normalized s- and p-type basis function integrates to one over three-dimensional space for every exponent, so that a normalized model integrates to the sum of its coefficients and an un-normalized one to the analytic Gaussian integral.",
  [I, C], "every exponent, type, layout and centre", "tests check a few exponents", ["bfit/model.py"],
  [("AtomicGaussianDensity._eval_s", "bfit/model.py"), ("AtomicGaussianDensity._eval_p", "bfit/model.py")], observe=["model.evaluate"])
p("C10", "Molecular model: superposition of atoms",
  "The molecular model value and derivatives are the superposition of independent atomic models placed on each centre, whose parameters are consecutive blocks in centre order with s before p inside each block. The mapping from basis-function index to centre, the pre-factors, the distances and the counts agree with that block structure, and an index outside it is rejected.",
  [I, C], "every number of centres, per-centre numbers of functions (also zero of one type), coordinates and parameters",
  "the tests use one to three centres with particular counts", ["bfit/model.py"],
  [("MolecularGaussianDensity.evaluate", "bfit/model.py"), ("MolecularGaussianDensity.assign_basis_to_center", "bfit/model.py"), ("MolecularGaussianDensity.prefactor", "bfit/model.py")],
  observe=["model.evaluate", "assign_basis_to_center", "prefactor", "radii"])
p("C11", "Resizing an atomic model",
  "After any sequence of resizings, evaluations and rejected calls, an atomic model behaves exactly like a freshly constructed model with the current numbers of s- and p-type functions: counts, pre-factors, accepted parameter sizes, values and derivatives. A rejected resize or evaluation changes nothing.",
  [H, I], "every history of resize, evaluate and rejected calls", "tests resize once", ["bfit/model.py"],
  [("AtomicGaussianDensity.change_numb_s_and_numb_p", "bfit/model.py")],
  state=[("num_s, num_p", "current numbers of basis functions", "AtomicGaussianDensity")], observe=["num_s", "num_p", "nbasis", "prefactor", "evaluate"])
p("C12", "Goodness-of-fit and spherical integration",
  "The reported performance is, in this order, the integral of the model, the integral of the absolute difference, the largest absolute difference, the integral of the squared difference and the Kullback-Leibler divergence with the fit's own mask. With spherical integration every integral carries the factor 4 pi r^2, and the stored density norm is that integral of the density unless one is given.",
  [I, C], "every density, model, parameters, grid, mask and spherical choice", "tests compare two or three smooth cases",
  ["bfit/fit.py"], [("_BaseFit.goodness_of_fit", "bfit/fit.py"), ("_BaseFit.integrate", "bfit/fit.py")],
  observe=["goodness_of_fit", "integrate", "integral_dens"])
p("C13", "Fixed-point iteration: one step",
  "One iteration of the Kullback-Leibler fixed-point method replaces each coefficient by c * <b f/g> / lambda and each exponent by prefactor * <b f/g> / <b r^2 f/g>, evaluated at the previous parameters, with r the distance from the centre the function belongs to, b its derivative of the model with respect to the coefficient, and lambda the ratio of the integral of the density to the prescribed norm. Only the requested kinds of parameters change.",
  [I, C], "every density, grid, model (atomic or molecular), parameters, mask, norm and update choice",
  "tests compare a few hand-computed steps with one or two functions", ["bfit/fit.py"],
  [("KLDivergenceFPI._update_params", "bfit/fit.py"), ("KLDivergenceFPI.lagrange_multiplier", "bfit/fit.py")],
  observe=["KLDivergenceFPI.run(maxiter=1)", "lagrange_multiplier"])
p("C14", "Fixed-point iteration: stopping and histories",
  "The fixed-point run iterates exactly while the divergence change exceeds its threshold, a coefficient or exponent change exceeds its threshold, and the iteration limit is not reached. It records one objective value and one performance row per iteration in order, the objective being the last performance entry, and returns the parameters of the last iteration.",
  [I, H, C], "every sequence of iterates, thresholds, iteration limit and update choice",
  "tests run to convergence with default thresholds; the stopping rule's combinations are not observed", ["bfit/fit.py"],
  [("KLDivergenceFPI.run loop", "bfit/fit.py")],
  state=[("iterates", "parameters after each iteration", "KLDivergenceFPI.run")], observe=["run result fun/performance/coeffs/exps", "model evaluations during the run"])
p("C15", "Fixed-point iteration: success is truthful",
  "The fixed-point run reports success exactly if the parameters it returns are finite and it did not stop because of the iteration limit with the divergence still changing by more than its threshold, and a single iteration or none counts as still changing. It never reports success with undefined parameters or an undefined divergence.",
  [I, H], "every run, also degenerate ones (limits 0 and 1, masked or vanishing models)", "the tests only assert success on good runs", ["bfit/fit.py"],
  [("KLDivergenceFPI.run success", "bfit/fit.py")], observe=["run result success"])
p("C16", "Fixed-point iteration: conservation and descent",
  "While no point is masked, every fixed-point iteration that updates coefficients keeps them positive and makes them sum to the prescribed norm, exponents stay positive, and once the coefficients carry that norm the Kullback-Leibler divergence never increases by optimizing coefficients nor, for a normalized model, by optimizing both kinds of parameters; optimizing only the exponents of a normalized model never increases it, whatever the coefficients carry.",
  [I, H], "every positive density, grid, model and start", "tests assert final sums in a few runs only", ["bfit/fit.py"],
  [("KLDivergenceFPI._update_params", "bfit/fit.py")], observe=["run result coeffs/fun per iteration limit"])
p("C17", "Optimizer objective, gradient and constraint",
  "For every choice of optimized parameters, the objective handed to the optimizer is the weighted integral of the measure of the model at those parameters with the other ones fixed, its gradient is the exact derivative of that objective in parameter order, and the normalization constraint is the prescribed norm minus the integral of that same model.",
  [I, C], "every measure, model, mode (coefficients, exponents, both), weights, spherical choice and parameters",
  "tests check the gradient for a few configurations by finite differences", ["bfit/fit.py"],
  [("ScipyFit.func", "bfit/fit.py"), ("ScipyFit.const_norm", "bfit/fit.py"), ("ScipyFit.evaluate_model", "bfit/fit.py")],
  observe=["ScipyFit.func", "ScipyFit.const_norm", "ScipyFit.evaluate_model"])
p("C18", "Optimizer runs: results are consistent",
  "A run returns the non-optimized kind of parameters exactly as given, an objective and performance that are those of the returned parameters, as Jacobian the gradient of that objective with respect to the optimized parameters as the optimizer last evaluated it (which SLSQP may have done at the previous iterate), and success and message as the optimizer reported them, with one warning stating the message exactly if it failed. A successful run's parameters respect the positive bounds (trust-constr, an interior-point method, to within 1e-7) and, with the constraint on, its model integrates to the prescribed norm. What it returns is the outcome of the chosen algorithm on that objective from the given start, with the given tolerance and iteration limit, the lower bounds, and the constraint exactly if asked for.",
  [I, C], "every method, mode, constraint choice, measure, start, tolerance and iteration limit", "tests check coefficients of a few easy fits", ["bfit/fit.py"],
  [("ScipyFit.run", "bfit/fit.py")], observe=["ScipyFit.run result"])
p("C19", "Inputs untouched, results repeatable, display inert",
  "No public operation modifies the arrays it is given (points, density, weights, initial parameters, integrands), and evaluating, integrating or running the same thing again on the same objects, in any order with other operations in between, gives the same result and leaves results returned earlier unchanged. Nothing process-wide (numeric error settings, random state) and no attribute of the objects involved is changed by it. Asking for printed output changes nothing but the output.",
  [H, I, C], "every sequence of operations over shared objects", "tests call each function once on fresh arrays",
  ["bfit/model.py", "bfit/measure.py", "bfit/grid.py", "bfit/fit.py", "bfit/greedy.py", "bfit/density.py"],
  [("all public operations", "bfit/*.py")], observe=["argument arrays before/after", "results of repeated calls"])
p("C20", "Greedy candidates: enumeration of guesses",
  "From n sorted-by-position exponents, the one-function guess list holds, in order, the first exponent divided by the factor in front, the mid-point between every neighbouring pair in its place, and the last exponent times the factor at the end, each with the fill-in coefficient at the new position and the old parameters kept in order. The two-function list applies this twice without repeating a pair of positions, and the lose-one list removes each single function of each two-function guess once.",
  [I, C], "every number of exponents, values, factor and coefficient", "tests check one to three exponents", ["bfit/greedy.py"],
  [("get_next_choices", "bfit/greedy.py"), ("get_two_next_choices", "bfit/greedy.py"), ("pick_two_lose_one", "bfit/greedy.py")],
  observe=["get_next_choices", "get_two_next_choices", "pick_two_lose_one"])
p("C21", "Merging redundant functions keeps the total",
  "Merging functions with close exponents keeps the sum of the coefficients, leaves any two kept exponents at least the tolerance apart, keeps the first of each group in the original order, and adds each merged coefficient exactly once to a kept function whose exponent is within the tolerance.",
  [I], "every list of coefficients and exponents (any order, chains of close values) and tolerance", "tests use isolated pairs only", ["bfit/greedy.py"],
  [("remove_redundancies", "bfit/greedy.py")], observe=["remove_redundancies"])
p("C22", "Greedy run: history bookkeeping",
  "In every greedy run the recorded objective values never increase, the recorded parameters and performance rows correspond one to one, and the returned parameters, counts and objective are those of the last recorded entry, with s functions before p functions. A rejected growth step (worse objective or redundant functions) restores the previous counts and doubles the factor; an accepted one resets the factor.",
  [H, I, C], "every sequence of candidate and refinement outcomes", "tests run the algorithm on two densities with at most two functions", ["bfit/greedy.py"],
  [("GreedyStrategy.run", "bfit/greedy.py")], state=[("num_s/num_p/factor/params_iter", "progress of the search", "GreedyStrategy.run")],
  observe=["run result", "sequence of optimization requests"])
p("C23", "Greedy run: the best candidate is chosen",
  "In every growth step the candidates optimized are exactly those of the chosen strategy for s-type growth, those for p-type growth (random ones if there is none yet) and any extra ones supplied by the caller; the one with the lowest objective, the first on ties, is refined further, whatever the magnitude of the objectives (if no candidate has a finite objective, any of them may be).",
  [H, I, C], "every strategy, state and outcome of the candidate optimizations", "tests never observe which candidates are tried", ["bfit/greedy.py"],
  [("GreedyStrategy._find_best_lparams", "bfit/greedy.py"), ("GreedyStrategy.run", "bfit/greedy.py")], observe=["sequence of optimization requests"])
p("C24", "Greedy run: termination and truthful exit",
  "Every greedy run terminates with at most the permitted number of functions, stopping exactly when another growth step would exceed it, when the objective changed by less than the threshold, or after five consecutive rejected steps. Success is denied exactly in the last case, and the exit message names a reason that is true.",
  [H, I, C], "every strategy, limit, threshold and sequence of outcomes", "tests use a limit of two functions with one strategy", ["bfit/greedy.py"],
  [("GreedyStrategy.run", "bfit/greedy.py"), ("GreedyStrategy._final_exit_info", "bfit/greedy.py")], observe=["run result success, exit_information"])
p("C25", "Greedy run: repeated runs are independent",
  "Running a greedy fit again on the same object, after any earlier run with any settings and outcome, gives the result that the same run gives on a fresh object, and leaves the results of earlier runs unchanged.",
  [H], "every sequence of runs", "tests run each object once", ["bfit/greedy.py"], [("GreedyStrategy.run", "bfit/greedy.py")],
  state=[("num_s, num_p, err_arr, model size", "search state kept on the object", "GreedyStrategy")], observe=["run result"])
p("C26", "Slater files are read faithfully",
  "For every atomic Slater wave-function file (neutral, anion, cation, heavy format) the loaded data hold exactly the file's energies, orbitals in file order, their energies and cusps, and for each shell letter its Slater exponents, quantum numbers and, per orbital, the coefficient column of that orbital, in file order, independently of blank lines, of earlier loads and of what callers did with the results of earlier loads.",
  [I, C, H], "every file in the four formats, shipped or well-formed", "tests compare a handful of elements", ["bfit/_slater.py"],
  [("load_slater_wfn", "bfit/_slater.py")], observe=["load_slater_wfn", "SlaterAtoms attributes"])
p("C27", "Electron configuration to occupations",
  "For every atom the occupation of each listed orbital is the number of electrons its configuration string assigns to it, closed-shell abbreviations and noble-gas cores included, and for atoms with a complete list of orbitals they sum to the number of electrons of the atom or ion.",
  [I, C], "every configuration string", "tests check a few elements", ["bfit/_slater.py"],
  [("_get_number_of_electrons_per_orbital", "bfit/_slater.py"), ("_configuration_exact_for_heavy_elements", "bfit/_slater.py")], observe=["orbitals_occupation", "configuration"])
p("C28", "Atomic density",
  "The atomic density at every radius is the occupation-weighted sum of the squared radial orbitals divided by 4 pi, each orbital being its listed combination of normalized Slater functions, so it is non-negative and integrates to the number of electrons.",
  [I, C], "every atom, anion and cation and every radius, including zero", "tests compare a few elements on coarse grids", ["bfit/density.py"],
  [("SlaterAtoms.atomic_density", "bfit/density.py"), ("SlaterAtoms.phi_matrix", "bfit/density.py"), ("SlaterAtoms.radial_slater_orbital", "bfit/density.py")],
  observe=["atomic_density", "phi_matrix", "radial_slater_orbital"])
p("C29", "Core and valence densities",
  "Core and valence densities weight each orbital with 1-exp(-(e-e_HOMO)^2) and exp(-(e-e_HOMO)^2), where e_HOMO is the energy of the highest occupied orbital, so they are non-negative, add up to the total density, and the highest orbital is entirely valence.",
  [I, C], "every atom or ion and radius", "tests use an atom with a single type of orbital", ["bfit/density.py"],
  [("SlaterAtoms.atomic_density", "bfit/density.py")], observe=["atomic_density(mode)"])
p("C30", "Density derivative and kinetic energy density",
  "Away from the origin the reported derivatives of the orbitals and of the density are the exact radial derivatives of the reported orbitals and density, and the kinetic energy density is half the occupation-weighted sum of the squared orbital gradients, angular part l(l+1)/r^2 included, over 4 pi; at the origin the orbital derivatives are reported as zero. The kinetic energy density integrates to the tabulated kinetic energy of the atom.",
  [I, C], "every atom or ion and radius", "tests compare a few light elements", ["bfit/density.py"],
  [("SlaterAtoms.derivative_density", "bfit/density.py"), ("SlaterAtoms.positive_definite_kinetic_energy", "bfit/density.py"), ("SlaterAtoms.derivative_radial_slater_type_orbital", "bfit/density.py")],
  observe=["derivative_density", "positive_definite_kinetic_energy", "phi_matrix(deriv=True)"])
p("C31", "Universal Gaussian basis exponents are read faithfully",
  "For every element the returned exponents per shell letter are exactly those the basis-set table lists for that element and shell, in file order, whatever the letter case of the symbol, and nothing for an element the table does not list.",
  [I, C], "every element of the table and every well-formed table", "tests check a few elements", ["bfit/parse_ugbs.py"],
  [("get_ugbs_exponents", "bfit/parse_ugbs.py")], observe=["get_ugbs_exponents"])
p("C32", "Shipped fitted-density tables are consistent",
  "For every element the shipped tables of fitted parameters agree between their two formats, each lists as many coefficients and exponents as the stated numbers of s- and p-type functions, all positive, and the normalized model they define integrates to the number of electrons of the element and deviates from the element's atomic density by less than one per cent of its electrons (integrated absolute difference).",
  [C], "every element of the shipped tables", "no test reads them", ["bfit/data"],
  [("kl_slsqp_results.json / .npz", "bfit/data")], observe=["shipped tables evaluated through the model"])
p("C33", "Invalid arguments are rejected, valid ones accepted",
  "Every documented precondition of the constructors and operations (types, shapes, signs, known names, matching sizes) is enforced: a call that violates any one of them raises an error of the documented kind before anything is changed, and a call that satisfies all of them is accepted.",
  [I, C], "every combination of valid and invalid argument classes", "tests raise each error once, with all other arguments at one valid choice",
  ["bfit/model.py", "bfit/measure.py", "bfit/grid.py", "bfit/fit.py", "bfit/greedy.py", "bfit/density.py"],
  [("argument checks", "bfit/*.py")], observe=["exceptions of public calls"])
p("C34", "Greedy start and linear least-squares coefficients",
  "The greedy least-squares method starts from a single function that reproduces any density that is itself one Gaussian of the model's kind, and otherwise from the best of its weighted logarithmic fits; the linear coefficients it computes for given exponents are the non-negative least-squares optimum in the model's own basis. The greedy Kullback-Leibler method starts from the function with the density's norm and exponent 3N/(2<r^2>).",
  [I, C], "every density, normalization choice, layout and exponents", "tests use un-normalized models and fixed layouts only", ["bfit/greedy.py"],
  [("GreedyLeastSquares.get_best_one_function_solution", "bfit/greedy.py"), ("GreedyLeastSquares.optimize_using_nnls", "bfit/greedy.py"), ("GreedyKLFPI.get_best_one_function_solution", "bfit/greedy.py")],
  observe=["get_best_one_function_solution", "get_optimization_routine"])
p("C35", "Greedy settings are honoured",
  "Every optimization of a greedy object is one run of the fit the object was constructed with (least squares through scipy or the Kullback-Leibler fixed-point iteration, with the given or default method, norm, spherical option, normalization and mask): candidates with the given or default quick (local) tolerances and iteration limit, the refinement with the refining (global) ones, with the constraint exactly when asked for, started from the guess's exponents and the linear least-squares coefficients for them (least squares) or the guess's own parameters (Kullback-Leibler). It returns that run's coefficients followed by its exponents, whatever was optimized before, and the settings the object reports are those.",
  [I, C, H], "every set of given settings, basis size, guess and sequence of requests", "tests use one set of settings and look at final parameters only", ["bfit/greedy.py"],
  [("GreedyLeastSquares.get_optimization_routine", "bfit/greedy.py"), ("GreedyKLFPI.get_optimization_routine", "bfit/greedy.py"), ("GreedyLeastSquares.__init__", "bfit/greedy.py"), ("GreedyKLFPI.__init__", "bfit/greedy.py")],
  state=[("_local_tol.._g_maxiter, fitting_obj", "settings of quick and refining optimizations", "GreedyLeastSquares / GreedyKLFPI")],
  observe=["get_optimization_routine", "local_tol .. g_maxiter, l_threshold_* , g_threshold_*"])
p("C36", "Options mean the same however they are given",
  "A call of any public operation means the value of each of its options and nothing else: an option left out has its documented default, an option given by position in the documented order or by name, in any combination, has the given value, and every option given has its effect. The outcome is that of the call that names every option explicitly.",
  [I], "every operation with options, every split of its options into given by position, given by name and left out", "tests give most options always in the same way and never compare an omitted option with its documented default",
  ["bfit/grid.py", "bfit/measure.py", "bfit/model.py", "bfit/fit.py", "bfit/greedy.py", "bfit/density.py", "bfit/_slater.py"],
  [("signatures and documented defaults of public operations", "bfit/*.py")], observe=["results of public calls"])
p("C37", "Displayed output is the run's history",
  "With display on, a fixed-point run prints one line per iteration, in order, with its number, its five performance values and the changes of coefficients, exponents and divergence at that iteration; an optimizer run prints one line per optimizer iterate with the five performance values at that iterate; a greedy run prints one line for its start and one after every growth step, with the counts and performance of the last recorded entry and the last change of the objective. The closing lines state what the run returns: success, parameters and, for a greedy run, counts, objective and exit reason. With display off nothing is printed.",
  [I, H], "every run of the three fits, every pattern of accepted and rejected growth steps", "tests do not look at printed output", ["bfit/fit.py", "bfit/greedy.py"],
  [("KLDivergenceFPI.run, ScipyFit.run (disp)", "bfit/fit.py"), ("GreedyStrategy.run, _print_header (disp)", "bfit/greedy.py")],
  observe=["standard output of run(disp=True) and run(disp=False)"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
