#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mechanism, over=("inputs",), state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a})

M, F, G, GR, ME, D, S, U = ("bfit/model.py", "bfit/fit.py", "bfit/greedy.py", "bfit/grid.py",
                            "bfit/measure.py", "bfit/density.py", "bfit/_slater.py", "bfit/parse_ugbs.py")

p("C01", "Atomic model evaluates the documented Gaussian sum",
  "For any points (any dimension), any centre, any numbers of s- and p-type functions, and any coefficients and exponents, the atomic model's value at every point is sum_i c_i exp(-a_i|x-c|^2) + sum_j d_j |x-c|^2 exp(-b_j|x-c|^2), and with normalisation on each s (p) function is multiplied by (a/pi)^1.5 (by 2 b^2.5/(3 pi^1.5)), so that each integrates to one over space. "
  "The value does not depend on whether derivatives are requested, on earlier evaluations or earlier changes of the numbers of functions, and evaluation does not modify its arguments.",
  "every real point, centre, coefficient, positive exponent; every (num_s, num_p), normalised or not; every sequence of evaluations and size changes",
  "Tests compare a dozen fixed parameter sets to hand-written formulas; the claim is for all reals, counts, dimensions and call sequences.",
  [M], [("basis evaluation", "AtomicGaussianDensity.evaluate/_eval_s/_eval_p"), ("distance to the centre", "AtomicGaussianDensity.__init__")], ("inputs", "histories"),
  observe=["AtomicGaussianDensity.evaluate"])
p("C02", "Atomic model gradient is the exact derivative of its value",
  "When derivatives are requested, column k of the returned matrix is the exact partial derivative of the model value at every point with respect to the k-th coefficient, and column nbasis+k the exact partial derivative with respect to the k-th exponent, in the order of the parameter vectors (all s-type then all p-type). "
  "This holds for s-only, p-only and mixed models, normalised or not, around any centre.",
  "every real point, centre, coefficient, positive exponent; every (num_s, num_p), normalised or not",
  "Tests compare against hand derivatives at a few parameter values and small mixes; a wrong term, order or branch shows only elsewhere.",
  [M], [("derivative columns", "AtomicGaussianDensity._eval_s/_eval_p"), ("column interleaving", "AtomicGaussianDensity.evaluate")],
  observe=["AtomicGaussianDensity.evaluate(deriv=True)"])
p("C03", "Molecular model is the sum of its atoms, parameters laid out atom by atom",
  "The molecular model's value is the sum over centres of the atomic model built from that centre's slice of the parameter vectors, and its derivative matrix holds each atom's coefficient columns and exponent columns at the positions of those parameters. "
  "Every basis index maps to the one centre that owns it (an index beyond the last is refused), distances and prefactors (1.5 for s, 2.5 for p) are reported per centre in the same order.",
  "every number of centres, per-centre (s, p) counts, positions, points, coefficients, exponents, basis index",
  "Tests use at most three centres at fixed positions with fixed counts; slice offsets and the index-to-centre map are wrong only for particular count patterns.",
  [M], [("per-centre accumulation", "MolecularGaussianDensity.evaluate"), ("index to centre", "MolecularGaussianDensity.assign_basis_to_center"), ("prefactors", "MolecularGaussianDensity.prefactor")],
  observe=["MolecularGaussianDensity.evaluate", "assign_basis_to_center", "prefactor", "radii"])
p("C04", "Squared-difference measure and its derivative are exact",
  "At every point the squared difference equals (density - model)^2, is never negative, is zero exactly where the two agree, and the returned derivative is its exact derivative with respect to the model. "
  "Each point depends only on that point's values, and the inputs are not modified.",
  "all real densities and models of any length", "Tests use two fixed arrays.",
  [ME], [("squared residual", "SquaredDifference.evaluate")], observe=["SquaredDifference.evaluate"])
p("C05", "Kullback-Leibler measure: value, masking, sign and derivative",
  "For a non-negative density and model, the Kullback-Leibler integrand at a point is f ln(f/g) where g exceeds the mask value (zero where f is zero) with derivative -f/g, and 0 with derivative -1 where g is at or below the mask value; if the model is negative anywhere, every value and derivative returned is the configured penalty. "
  "Each integrand is at least f - g at unmasked points, so the divergence between functions of equal integral is non-negative and vanishes only when they agree.",
  "all non-negative densities, all models, all mask values and penalties, any length",
  "Tests use one linear array pair; zeros of the density, values at the mask boundary and sign changes at arbitrary positions are not covered.",
  [ME], [("masked ratio", "KLDivergence.evaluate"), ("negative model penalty", "KLDivergence.evaluate")], observe=["KLDivergence.evaluate"])
p("C06", "Tsallis measure: value, masking, limit behaviour and derivative",
  "For a non-negative density and positive model above the mask value, the Tsallis integrand is f((f/g)^(alpha-1) - 1)/(alpha-1) and the returned derivative, -(f/g)^alpha, is its exact derivative with respect to the model; at points where the model is at or below the mask value the ratio counts as zero. "
  "For alpha > 1 each unmasked integrand is at least f - g, it is zero where density and model agree, and negative or unit alpha is refused.",
  "all non-negative densities, models, masks, and alpha", "Tests sample random models at one or two alphas with loose tolerances (one of them returns before asserting).",
  [ME], [("masked ratio and power", "TsallisDivergence.evaluate"), ("alpha guard", "TsallisDivergence.__init__")], observe=["TsallisDivergence.evaluate"])
p("C07", "Radial integration is the trapezoid rule on the grid's own points",
  "For any radial points and integrand, the radial integral equals sum_i (r_{i+1}-r_i)(f_i+f_{i+1})/2; hence it is linear, exact for straight lines, non-negative for a non-negative integrand on ascending points, and independent of previous calls. "
  "An integrand whose shape differs from the grid's is refused.",
  "all ascending point sets and integrands, any length", "Tests integrate a handful of smooth functions on fine uniform grids, where a wrong end weight is invisible.",
  [GR], [("trapezoid", "_BaseRadialGrid.integrate")], observe=["_BaseRadialGrid.integrate"])
p("C08", "Radial grids contain exactly the documented points",
  "A uniform grid has num_pts equally spaced points whose first is min_radii and last is max_radii. "
  "A Clenshaw grid holds, in ascending order and each once, the core points (1-cos(pi p/(2m)))/(2Z) for p=0..m-1 (p=1..m when the origin is excluded), the diffuse points 25(1-cos(pi p/(2n))) for p=1..n and every extra point, for every Z, m, n.",
  "all interval ends, atomic numbers, counts, extra points", "Tests use two (m, n, Z) triples and four uniform grids.",
  [GR], [("uniform points", "UniformRadialGrid.__init__"), ("Clenshaw points", "ClenshawRadialGrid._get_points"), ("merge and sort", "ClenshawRadialGrid.__init__")],
  observe=["UniformRadialGrid.points", "ClenshawRadialGrid.points"])
p("C09", "Cubic grid: point lattice, cell volume and Riemann sum",
  "For any origin, any three axes (orthogonal or not, of either handedness) and any shape, point number (i*ny + j)*nz + k of the cubic grid is origin + i*a0 + j*a1 + k*a2 and every point carries the weight |det(a0,a1,a2)|, so the weights add up to the volume of the whole box. "
  "Integration is the weighted sum of the integrand over all points; an integrand of another length is refused.",
  "all origins, axes, integrands; shapes with unequal sides", "Tests use one cubic orthogonal box with equal sides, where axis order and handedness cannot be seen.",
  [GR], [("lattice", "CubicGrid.__init__"), ("volume", "CubicGrid._calculate_volume"), ("weights", "CubicGrid._choose_weight_scheme")],
  observe=["CubicGrid.points", "CubicGrid.integrate"])
p("C10", "A grid built from a molecule encloses it with the requested margin",
  "The cubic grid built around a molecule has equal orthogonal steps of the requested spacing and its points span, along each grid axis, at least every atom's coordinate extended by the requested extension on both sides, whatever the nuclear charges, positions and spacing, rotated to principal axes or not; it is not larger than needed by more than one spacing per axis. "
  "Without rotation the grid axes are the Cartesian axes.",
  "all charges, atomic positions, spacings, extensions, rotate on/off",
  "No test builds a grid from a molecule.",
  [GR], [("box extents and origin", "CubicGrid.from_molecule")], observe=["CubicGrid.from_molecule"])
p("C11", "Fit integration and goodness-of-fit report the documented quantities",
  "A fit object's integral is the grid's integral of the integrand, multiplied pointwise by 4 pi r^2 when spherical; the default target is the integral of the density and a supplied target replaces it. "
  "Goodness of fit returns, in order, the model's integral, the integral of |density - model|, the maximum of |density - model|, the integral of the squared difference, and the integral of the Kullback-Leibler integrand with the fit's mask value, all evaluated at the given parameters.",
  "all densities, models, parameters, grids, spherical on/off, mask values", "One test checks five numbers to one decimal.",
  [F], [("spherical integral", "_BaseFit.integrate"), ("error measures", "_BaseFit.goodness_of_fit")], observe=["integrate", "integral_dens", "goodness_of_fit"])
p("C12", "Objective and its gradient are consistent in every optimisation mode",
  "For every measure, weighting, grid and model, the objective handed to the optimiser is the integral of weights times the measure between density and model at the given parameters, and its gradient is the exact derivative with respect to each optimised parameter in order, whether coefficients, exponents or both are optimised. "
  "The constraint function is the target integral minus the model's integral at the same parameters.",
  "all parameters, densities, weights, models (atomic and molecular), measures; modes: both, fixed coefficients, fixed exponents; spherical on/off",
  "Tests only check that optimisation from good guesses ends near known answers; a slightly wrong gradient or weight still converges there.",
  [F, ME, M], [("objective", "ScipyFit.func"), ("constraint", "ScipyFit.const_norm"), ("parameter split", "ScipyFit.evaluate_model")],
  observe=["ScipyFit.func", "ScipyFit.const_norm", "ScipyFit.evaluate_model"])
p("C13", "ScipyFit hands the optimiser the right problem and reports its answer faithfully",
  "Whatever point the optimiser evaluates or returns, the fit minimises the objective over exactly the parameters chosen for optimisation, all bounded below by 1e-12, starting from the given guess, with the norm constraint active exactly when requested and evaluated at the same parameters as the objective, for both SLSQP and trust-constr. "
  "The result contains the optimiser's parameters in coefficient/exponent form with any fixed set returned unchanged, its objective value, success flag, message and jacobian, and the goodness of fit of those returned parameters; initial guesses are not modified and printing changes nothing.",
  "all optimiser behaviours (evaluation points and returned points), modes, methods, constraint on/off, display on/off",
  "Tests run SLSQP from good guesses; other modes with trust-constr, failure returns and display are not exercised.",
  [F], [("problem set-up", "ScipyFit.run"), ("result split", "ScipyFit.run")], ("inputs", "configurations"), observe=["ScipyFit.run", "scipy.optimize.minimize arguments"])
p("C14", "One fixed-point step is the documented self-consistent update",
  "With A1_k the integral of (f/g) b_k and A2_k the integral of (f/g) b_k |x-c_k|^2 (distance from the function's own centre), one step returns coefficients c_k A1_k/lambda and exponents (1.5 for s, 2.5 for p) A1_k/A2_k, with lambda the density's integral over the target integral and parameters not being optimised returned unchanged. "
  "Non-negative coefficients stay non-negative, and after a coefficient step with no point masked the new coefficients sum to the target integral, whatever the guess.",
  "all non-negative densities, positive models, parameters, grids, atomic and molecular models",
  "Tests compare a few updates on fixed parameters with loose tolerances.",
  [F], [("averages and update", "KLDivergenceFPI._update_params"), ("multiplier", "KLDivergenceFPI.__init__")], observe=["KLDivergenceFPI.run(maxiter=1)", "lagrange_multiplier"])
p("C15", "Fixed points of the update are stationary points of the constrained divergence",
  "For a normalised unmasked model, the exact gradient of the Kullback-Leibler divergence reported by goodness of fit with respect to coefficient k is -lambda c'_k/c_k and with respect to exponent k is -c_k A2_k (e'_k/e_k - 1), where c', e' are the parameters after one fixed-point step. "
  "So a step changes nothing exactly where the Lagrangian of the divergence with the norm constraint is stationary.",
  "all positive densities and parameters, atomic and molecular normalised models",
  "Tests only check that runs end near known optima.",
  [F, M, ME], [("update", "KLDivergenceFPI._update_params"), ("divergence", "_BaseFit.goodness_of_fit")], observe=["KLDivergenceFPI.run", "goodness_of_fit"])
p("C16", "A coefficient fixed-point step never increases the divergence",
  "For positive quadrature weights, density and target, starting from positive coefficients summing to the target, one fixed-point step that optimises coefficients only never increases the Kullback-Leibler divergence between the density and the model reported by goodness of fit, with no point masked.",
  "all positive densities, coefficients, exponents and grid points with non-negative quadrature weights",
  "Tests run a few iterations on one density and never compare consecutive divergences.",
  [F], [("coefficient update", "KLDivergenceFPI._update_params")], observe=["KLDivergenceFPI.run", "goodness_of_fit"])
p("C17", "Fixed-point run: iteration limit, history and success are truthful",
  "A fixed-point run performs at most maxiter steps and stops after the first step at which (both parameter changes are within their thresholds) or the change of the divergence is within its threshold; its histories have one entry per step, the last performance entry is the goodness of fit of the returned parameters and 'fun' is its divergence column. "
  "Success is reported false when the step limit is reached with the divergence still changing by more than its threshold, or when the returned parameters or the divergence are not numbers, and true when a stopping criterion ends the run earlier with numbers; fixed parameters come back unchanged, the guess is not modified and display changes nothing.",
  "all sequences of integral values the grid may return (including NaN at any step), all thresholds and iteration limits within the bound",
  "Tests run a few convergent fits to completion; stopping on each criterion, hitting the limit, and NaN steps are not covered.",
  [F], [("loop", "KLDivergenceFPI.run"), ("success flag", "KLDivergenceFPI.run")], ("histories", "inputs"), observe=["KLDivergenceFPI.run"])
p("C18", "Greedy candidate guesses extend the current set as documented",
  "From n functions, pick-one yields exactly n+1 candidates: inserting at the front the first exponent divided by the factor, between each neighbouring pair their midpoint, and at the end the last exponent times the factor, the fill value being inserted in the coefficients at the same place. "
  "Pick-two candidates each contain the n functions in order plus two inserted ones and are exactly the pick-one extensions of pick-one extensions that insert at or after the first insertion; pick-two-lose-one candidates are exactly those with each one function removed in turn; ascending exponents stay ascending for a factor above one and arguments are unchanged.",
  "all coefficients, exponents, factors, fill values; n up to the bound", "Tests use n = 1 and 2 with fixed numbers.",
  [G], [("pick-one", "get_next_choices"), ("pick-two", "get_two_next_choices"), ("pick-two-lose-one", "pick_two_lose_one")],
  observe=["get_next_choices", "get_two_next_choices", "pick_two_lose_one"])
p("C19", "Removing redundant exponents conserves the total coefficient",
  "Grouping similar exponents never changes the sum of the coefficients, keeps a subset of the exponents in order with no two of them closer than the threshold, drops an exponent only if it is closer than the threshold to a kept one whose coefficient it joins, and leaves arguments unchanged. "
  "Nothing is removed exactly when all exponents are pairwise at least the threshold apart.",
  "all coefficients, exponents and thresholds; n up to the bound", "Tests use three exponent patterns, none a chain of neighbours.",
  [G], [("grouping", "remove_redundancies")], observe=["remove_redundancies"])
p("C20", "Greedy driver: bookkeeping, limits and result are consistent",
  "Whatever the inner optimiser returns, the greedy driver accepts a larger model only if it is free of redundant exponents and does not raise the objective, so the accepted objectives never increase; it never exceeds max_numb_funcs functions, and stops after five consecutive rejected extensions, which is not reported as success, or once an accepted step changes the objective by less than the threshold. "
  "The returned coefficients, exponents, num_s and num_p belong together and are those of the last accepted model, 'fun' is its objective, histories have one entry per accepted model, and the model object is left with those numbers of functions. Every run of a strategy object starts afresh, whatever runs the object has behind it.",
  "all objective values and parameters produced by the inner optimiser (any history within the bound), choice rules, max_numb_funcs, thresholds",
  "Two end-to-end tests with two functions; rejection, factor growth, p-type acceptance, pick-two limits are not covered.",
  [G], [("greedy loop", "GreedyStrategy.run"), ("best local choice", "GreedyStrategy._find_best_lparams")], ("histories", "inputs"),
  state=[("num_s/num_p", "current numbers of functions", "GreedyStrategy"), ("params_iter", "accepted parameters", "GreedyStrategy.run")], observe=["GreedyStrategy.run"])
p("C21", "Greedy selection tries every candidate and takes the cheapest one",
  "In each greedy round every s-type candidate is optimised in a model with the extra s-type function(s) and every p-type candidate in one with the extra p-type function(s), and the one of strictly lowest objective, however large objectives are, is refined (a candidate whose objective is not a number is never preferred to one with a number) and its type added; the candidates are the documented extensions for the given factor, doubled once for every rejection since the last acceptance, and the first p-type ones three random guesses from 0 to 1, 1 to 10 and 10 to 100; candidate vectors keep the layout s-coefficients, p-coefficients, s-exponents, p-exponents, candidates are optimised with the local and the refinement with the global tolerances.",
  "all objective values (any magnitude) and parameters produced by the inner optimiser, any current (num_s, num_p) within the bound",
  "End-to-end tests never reach p-type candidates or large objectives.",
  [G], [("candidate loop", "GreedyStrategy._find_best_lparams"), ("layout", "GreedyStrategy.run")], ("histories", "inputs"), observe=["inner optimiser calls", "GreedyStrategy.run"])
p("C22", "One-function starting points are exact",
  "For a density that is itself a single Gaussian c exp(-a r^2), the least-squares greedy starting point recovers (c, a) exactly on any grid with two distinct radii, also where the density is zero (no longer representable) at further points; for any density on a radial grid with spherical integration, the Kullback-Leibler starting point is (target, 1.5 target / integral of f r^2 dV), the exact one-function optimum when the target is the density's integral. "
  "The design matrix used for the non-negative least-squares start reproduces the unnormalised model: matrix times coefficients equals the model value for all coefficients and exponents.",
  "all c > 0, a > 0, grids, densities, coefficients, exponents, (num_s, num_p)",
  "Never tested directly; end-to-end tests converge from poor starts too.",
  [G], [("weighted log fit", "GreedyLeastSquares._solve_one_function_weight"), ("KL start", "GreedyKLFPI.get_best_one_function_solution"), ("design matrix", "GreedyLeastSquares._create_cofactor_matrix")],
  observe=["get_best_one_function_solution", "get_optimization_routine"])
p("C23", "Slater-type orbitals are normalised and differentiated exactly",
  "For every principal number n and exponent zeta > 0 the radial Slater orbital is (2 zeta)^n sqrt(2 zeta/(2n)!) r^(n-1) exp(-zeta r), whose squared radial integral is one, and the derivative routine returns its exact radial derivative for r > 1e-10 and zero at the origin. "
  "Arrays of exponents, numbers and points combine into one column per orbital and one row per point.",
  "all zeta > 0, r >= 0, n = 1..7, any array sizes", "Tests compare a few orbitals of a few atoms.",
  [D], [("orbital", "SlaterAtoms.radial_slater_orbital"), ("derivative", "SlaterAtoms.derivative_radial_slater_type_orbital")],
  observe=["radial_slater_orbital", "derivative_radial_slater_type_orbital"])
p("C24", "Atomic density, core/valence split, gradient and kinetic energy are consistent",
  "For any wave-function data, the total density is sum_i n_i phi_i(r)^2/(4 pi), core plus valence is the total with valence weights exp(-(e_i - e_homo)^2) where e_homo is the highest orbital energy, none of them is negative, and the density-derivative routine is the exact radial derivative of the total density for r > 1e-10. "
  "The kinetic-energy density is sum_i n_i (phi_i'^2 + l(l+1) phi_i^2/r^2)/(8 pi) for r > 1e-10 and is never negative.",
  "all orbital exponents, coefficients, energies, occupations and radii; s, p, d, f shells", "Tests check integrals for a few atoms; the HOMO choice matters only when the last-listed orbital is not the highest.",
  [D], [("density modes", "SlaterAtoms.atomic_density"), ("orbitals", "SlaterAtoms.phi_matrix"), ("derivative", "SlaterAtoms.derivative_density"), ("kinetic energy", "SlaterAtoms.positive_definite_kinetic_energy")],
  observe=["atomic_density", "derivative_density", "positive_definite_kinetic_energy", "phi_matrix"])
p("C25", "Slater wave-function files are read faithfully",
  "For any numbers in a well-formed Slater file (neutral, anion, cation or heavy-element layout), each energy, cusp, exponent and coefficient ends up under the orbital and basis function whose column and row it stands in, in file order, and each orbital's occupation is the number of electrons the configuration string gives it, closed-shell abbreviations K, L, M, N, [XE], [RN] included. "
  "Element names are case-insensitive, the requested charge state's file is the one read, and charge states without data are refused.",
  "all numeric values and occupations; shell structures, basis sizes and layouts within the bound (well-formed: each block's orbitals are consecutive and start with the lowest)", "Tests read about fifteen shipped files.",
  [S, D], [("column lookup", "load_slater_wfn._get_column"), ("occupations", "load_slater_wfn._get_number_of_electrons_per_orbital"), ("core expansion", "load_slater_wfn._configuration_exact_for_heavy_elements")],
  observe=["load_slater_wfn", "SlaterAtoms"])
p("C26", "UGBS exponents are returned complete, in order and by shell",
  "For any element present in the universal Gaussian basis file, the parser returns for each shell exactly the exponents listed for that element and shell, in file order, and nothing belonging to another element, for upper- or lower-case names; an absent element gives empty lists.",
  "all exponent values; element/shell sequences within the bound", "No test covers this parser.",
  [U], [("line scan", "get_ugbs_exponents")], observe=["get_ugbs_exponents"])
p("C27", "Fits refuse inconsistent or negative data",
  "A fit refuses a density with any negative entry, spherical integration on a grid that is not one-dimensional, and a grid without points or integration; ScipyFit also refuses a grid whose points differ from the model's anywhere by more than 1e-12, and a density of another length, an unknown method or a measure that is not a measure; the fixed-point fit refuses a zero multiplier and guesses of the wrong shape. "
  "Consistent data is accepted, with the default measure and method too.",
  "all positions and values of the offending entry; all lengths within the bound", "Tests feed one offending example per check.",
  [F], [("constructor checks", "_BaseFit.__init__, ScipyFit.__init__, KLDivergenceFPI.__init__"), ("guess checks", "KLDivergenceFPI.run")], observe=["constructors", "run"])
p("C28", "Shipped fitted models and wave functions are physically normalised",
  "For every element in the shipped result tables the coefficients are non-negative and sum to the number of electrons, and every shipped wave function integrates to its number of electrons.",
  "every element in the shipped data files", "Tests cover a few elements; nothing reads the result tables.",
  ["bfit/data/kl_fpi_results.json", "bfit/data/kl_slsqp_results.json", "bfit/data/neutral"], [("data", "bfit/data")], ("configurations",))
p("C29", "Fits converge to the best model",
  "For any positive density, running the fixed-point or SLSQP fit to convergence ends at a local optimum of the chosen measure to the requested tolerance in double precision.",
  "all densities and starting points", "Tests sample a few densities.",
  [F], [("iteration", "KLDivergenceFPI.run, ScipyFit.run")], ("inputs", "histories"))
p("C30", "Malformed arguments are refused, never broadcast",
  "A measure evaluates a density and a model value exactly when both are one-dimensional arrays of one length, and gives one entry per point; the Gaussian models evaluate coefficients and exponents exactly when there is one of each per function; a centre or atomic coordinates are accepted exactly when they have the dimension of the points (one for one-dimensional points) and there is one row of function numbers per atom. "
  "Numbers of functions are accepted, at construction or when changed, exactly when they are integers, neither negative nor both zero, and refused ones leave the model unchanged. Radial grids and Slater orbitals take one-dimensional points only. Everything else raises instead of being broadcast into numbers of another meaning.",
  "all shapes up to the bound, all values, all integers as numbers of functions within the bound", "Tests feed one offending example per check.",
  [M, ME, D, GR], [("argument checks", "AtomicGaussianDensity, MolecularGaussianDensity, SquaredDifference.evaluate, KLDivergence.evaluate, TsallisDivergence.evaluate"), ("numbers of functions", "AtomicGaussianDensity.change_numb_s_and_numb_p")],
  observe=["constructors", "evaluate", "change_numb_s_and_numb_p"])
p("C31", "Greedy strategies solve the problem they are given",
  "A greedy strategy optimises, compares and reports the objective of its own problem: the density, grid, target integral, spherical element, mask, normalisation, constraint, optimiser and the local and global tolerances and limits passed to it are the ones the inner fits are run with, at every number of functions. "
  "The reported objective is the integral of the squared difference (least squares) or of f log(f/g) (Kullback-Leibler), with the spherical element exactly when asked for; each performance row holds the five documented measures of the parameters reported. The least-squares strategy hands the optimiser this objective started at the non-negative least-squares coefficients of the guessed exponents and returns the optimiser's parameters, coefficients first; one inner step of the Kullback-Leibler strategy is the documented fixed-point update; when there is no room for a second function the one-function start is the result.",
  "all densities, quadratures, models of up to the bounded number of functions, parameters, tolerances and option combinations", "Tests run one end-to-end fit per strategy with default options.",
  [G, F], [("objective", "GreedyLeastSquares.get_optimization_routine/GreedyKLFPI.get_optimization_routine"), ("options", "GreedyLeastSquares.__init__, GreedyKLFPI.__init__, GreedyStrategy.__init__")], ("inputs",),
  observe=["GreedyLeastSquares/GreedyKLFPI.run", "arguments of scipy.optimize.minimize and nnls"])
p("C32", "Objects are independent and results belong to the caller",
  "Two objects of a kind (models, measures, grids, fits, Slater atoms, greedy strategies) used in any interleaving give the results each gives alone, also when two fits share one model, grid or measure; repeating a call gives the same result even after the caller has overwritten every array, list and dictionary returned by earlier calls (the file readers and basis-set reader included), and functions that propose or merge basis functions leave their arguments unchanged.",
  "all data of the two objects, interleaved call histories within the bound", "Tests use one object at a time and never overwrite results.",
  [M, ME, GR, F, G, D, S, U], [("class or module state", "all modules"), ("caches", "parse_ugbs.get_ugbs_exponents, _slater.load_slater_wfn, models, fits")], ("histories", "inputs"),
  observe=["results of repeated calls"])
p("C33", "Displayed progress reports the run",
  "With display switched on, a run returns what it returns without display, and what it prints is true: the fixed-point fit prints one row per step with the step number, the five measures of the parameters after that step (in the order its header names them), the largest changes of coefficients and exponents and the change of the divergence; ScipyFit prints one row per iteration with the five measures of the optimiser's current point (fixed parameters at their given values); "
  "the greedy strategies print one row for the start and one per round with the accepted numbers of functions, their performance and the change of the objective. The closing lines show the returned success, coefficients and exponents (ScipyFit: the optimiser's message; greedy: numbers of functions, objective and exit information). Without display nothing is printed.",
  "all densities, models, iterates, objective values; step and round patterns within the bound", "Tests never look at the output.",
  [F, G], [("iteration tables", "KLDivergenceFPI.run, ScipyFit.run (callbacks), GreedyStrategy.run, GreedyStrategy._print_header")], ("inputs", "histories"),
  observe=["standard output", "run"])
p("C34", "Integer arrays are read as the numbers they hold",
  "An array of integers gives what the same numbers as reals give, and is itself left unchanged: points, centres, coefficients and exponents of atomic and molecular models (values and derivatives), densities and models of the measures, integrands and box vectors of the grids, atoms of CubicGrid.from_molecule, density, weights, coefficients and exponents of the fits (objective, gradient, norm constraint, goodness of fit, fixed-point step, ScipyFit.run), "
  "the greedy candidates and starting points, remove_redundancies, exponents and points of Slater orbitals and atomic densities. In particular no computed value is cut down to an integer because an argument was an integer array.",
  "all integer arrays of the sizes within the bound, in any of the arguments", "Tests use real arrays, or integers at which nothing has to be rounded.",
  [G, F, M, D], [("data type of results", "get_next_choices, get_two_next_choices, ScipyFit.func, KLDivergenceFPI._update_params, SlaterAtoms.phi_matrix, model.*.evaluate")], ("inputs",),
  observe=["evaluate", "func", "run", "get_next_choices", "phi_matrix"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
