"""Technique, level and note per claimed property (read by mkmanifest.py)."""
NA = {}
SPEC = "TLA+ specification checked with TLC + conformance replay of its behaviours into the real code"
TRACE = "TLA+ specification checked with TLC + validation of recorded executions of the real code against it"
T["C01"] = (SPEC, "model_checking", "TLC enumerates grid parameters and emits every point as an expression; the real grids are compared point by point (1e-12 relative).")
T["C02"] = (SPEC, "model_checking", "Linearity, exactness and additivity of the specified rule are TLC invariants over all small integer grids; the real integrator is compared with it there exactly and on real-valued grids.")
T["C03"] = (SPEC, "model_checking", "The lattice walk is a state machine whose behaviour is the order of the points; replayed into the real class for every shape within bounds, random axes.")
T["C04"] = (SPEC, "model_checking", "Box rule proved (TLC) smallest and covering for all nuclei sets on a small axis; real constructor compared on exhaustive and random molecules, aligned and principal axes.")
T["C05"] = (SPEC, "model_checking", "All assignments of point classes (sign, mask, zero, undefined) to small grids are enumerated; values compared with the real measures.")
T["C06"] = (SPEC, "model_checking", "Derivatives are derived symbolically from the specified values in TLA+ and compared with the real measures on the same class enumeration.")
T["C07"] = (SPEC, "model_checking", "TLC enumerates every layout within bounds and proves the structural invariants; the emitted expressions are compared with the real model on seeded numeric instances (1e-9 relative). Trusts the expression evaluator and numpy arithmetic.")
T["C08"] = (SPEC, "model_checking", "Derivative columns are derived symbolically in TLA+ from the specified value; compared with the real derivative on seeded instances.")
T["C09"] = (SPEC, "model_checking", "TLC proves in an exact monomial algebra that the specified constants normalize both function types; the real functions are integrated numerically and compared.")
T["C10"] = (SPEC, "model_checking", "Every molecular basis within bounds; block structure is an invariant; real model compared on seeded instances.")
T["C11"] = (SPEC, "model_checking", "All operation histories within bounds (resize, evaluate, rejected calls) replayed into one real object, compared with a fresh one after every step.")
T["C12"] = (SPEC, "model_checking", "Performance entries emitted as expressions, evaluated independently and compared with the real fit objects on random grids, models and masks.")
T["C13"] = (SPEC, "model_checking", "The step is emitted per parameter as an expression for every basis within bounds and compared with the real iteration, one and several steps.")
T["C17"] = (SPEC, "model_checking", "Objective, gradient (derived symbolically) and constraint compared with what the real fit object hands to scipy.")
T["C14"] = (SPEC, "model_checking", "The loop is a state machine over every outcome of the three change tests; its behaviours are driven into the real loop by choosing thresholds around the changes of recorded iterations, atomic and molecular, and every result compared.")
T["C15"] = (SPEC, "model_checking", "Success is a function of the specified final state, checked by TLC for truthfulness; real runs (iteration limits 0,1,.., masked, vanishing and undefined models) are classified by the specification.")
T["C16"] = (TRACE, "model_checking", "Monotonicity and conservation of the iteration are TLC invariants over exact rational instances; recorded real iterations are validated step by step.")
T["C18"] = (SPEC, "model_checking", "The optimizer is an environment choosing any outcome; the specification derives the result from it. Real runs with a recording and a scripted optimizer behind scipy.optimize.minimize are compared.")
T["C19"] = (SPEC, "model_checking", "A session machine over shared objects; TLC enumerates/samples operation histories, replayed on shared real objects with argument arrays compared before and after and each result compared with a fresh session.")
T["C20"] = (SPEC, "model_checking", "Candidate lists emitted by TLC for every number of exponents within bounds (ordering and counting as invariants) and compared with the real lists on random values.")
T["C21"] = (SPEC, "model_checking", "Merging specified as an algorithm, invariants (total, separation, single use) checked by TLC over all small lists; real function compared on the exhaustive lists and random real lists.")
G = "The search is a state machine against every environment of candidate and refinement outcomes; behaviours are replayed through a scripted strategy in the real run, and recorded real runs are validated against the specification."
T["C22"] = (SPEC, "model_checking", G)
T["C23"] = (SPEC, "model_checking", G + " One recorded finding (extra choices).")
T["C24"] = (SPEC, "model_checking", G + " Termination is checked by TLC as a liveness property of the specification.")
T["C34"] = (SPEC, "model_checking", "Exactness of the weighted logarithmic fits and sufficiency of the optimality conditions are TLC invariants; real starts and coefficients are compared with the specified expressions and conditions.")
T["C25"] = (SPEC, "model_checking", "Every sequence of runs within bounds (settings, success and failure) on one object; each compared with the same run on a fresh object, and earlier results checked for aliasing.")
T["C26"] = (SPEC, "model_checking", "Scenario files (four formats, sizes, blank lines) are generated by TLC, written into a scratch copy of the package and loaded by the real loader; the specification also reads every shipped file itself and the results are compared. One recorded finding (cs.cat).")
T["C27"] = (SPEC, "model_checking", "Configuration strings are interpreted by the specification: all shipped files, every combination of core and shells within bounds.")
T["C28"] = (SPEC, "model_checking", "Orbital and density expressions emitted by TLC for every layout within bounds and every shipped atom, compared with the real ones; integrated.")
T["C29"] = (SPEC, "model_checking", "Weights emitted by TLC from the specified HOMO; every shipped atom and generated atoms; sums and signs checked.")
T["C30"] = (SPEC, "model_checking", "Derivative and kinetic-energy expressions derived in the specification; every shipped atom and generated atoms, radii from zero up.")
T["C31"] = (SPEC, "model_checking", "The specification reads the table itself; every element, any letter case, and generated tables of every number of shells within bounds.")
T["C32"] = (SPEC, "model_checking", "Structure of every table entry decided by TLC over the shipped files; the real model of each entry compared with the specified one and with the atomic density.")
T["C33"] = (SPEC, "model_checking", "The argument checks are a decision table over abstract argument classes; every combination (about 24 500) is made on the real library: accepted iff no specified precondition is violated, else one of the specified kinds of error with the object unchanged.")
T["C35"] = (SPEC, "model_checking", "Which settings a request resolves to is a state machine over construction, resizes and requests, checked by TLC over every set of given settings; sampled behaviours are made on real objects and each outcome compared with one run of the specified fit. Outcomes that a 1e-12 change of the start would change are not judged.")
T["C36"] = (SPEC, "model_checking", "The meaning of a call is a function of the values of its options; the specification enumerates every call (positional prefix, named set, rest omitted; operations with more than six options: few named or few omitted), TLC checks that the meaning does not depend on the way of giving, and each emitted call is made on the real code and compared with the call that names every option.")
T["C37"] = (SPEC, "model_checking", "What a run prints is a state machine over the outcomes of its steps; TLC explores every pattern of accepted and rejected steps and prints the lines specified for the steps of real runs (fixed-point, SLSQP, trust-constr, scripted and real greedy searches), whose captured output is parsed and compared line by line.")
