#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one source (run by hand after changing a property)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
R = "bayes_optim/"
PY = "/opt/venv/bin/python"

# id, title, statement, quantifier(over, text), why tests cannot, files, mechanism[(name, where)], technique, level note
PROPS = [
    ("C01", "Samples of a search space lie in its declared domain",
     "Every value drawn from a variable or a search space, with any sampling method and for any number of points, is of the variable's own kind and inside its declared domain: between the bounds, rounded to the declared precision, on the integer grid given by the step, one of the listed levels, or a non-empty subset of them. The result has exactly the requested number of rows and one column per variable in the order of the space, every level of a discrete variable can be drawn, and a Latin hypercube design of real variables puts exactly one point in each slice of every axis.",
     (["inputs", "configurations"], "every search space (types, bounds, precisions, scales, steps, levels), every number of points, every sampling method and every outcome of the random generator"),
     "The tests sample a few fixed spaces and look at shapes; they fix neither bounds, scales, precisions nor the random draws.",
     [R + "search_space/variable.py", R + "search_space/search_space.py", R + "search_space/samplers.py"],
     [("_sample of each variable type", R + "search_space/variable.py"), ("SearchSpace.sample", R + "search_space/search_space.py"), ("scale transformation and its inverse", R + "search_space/variable.py")]),
    ("C02", "Constrained sampling returns only feasible points of the domain",
     "When a search space is sampled under equality or inequality constraints, every returned point satisfies every constraint the caller gave (inequality values at most zero, equality values within the requested tolerance) and lies in the declared domain of every variable, including precision and integer step. At most the requested number of points is returned, and the constraint functions are evaluated on the points in the form the space declares.",
     (["inputs", "configurations"], "every search space, every deterministic constraint function and every outcome of the random generator"),
     "The tests use two or three fixed constraints and one seed; feasibility has to hold for every constraint function and draw.",
     [R + "search_space/search_space.py", R + "search_space/samplers.py"],
     [("SearchSpace.sample / _sample_constrained", R + "search_space/search_space.py"), ("SCMC", R + "search_space/samplers.py")]),
    ("C03", "Search-space operations keep exactly the right variables, in order",
     "Adding, subtracting, replicating, slicing, filtering, updating, popping, removing and assigning produce exactly the variables those operations promise, in the promised order, with no variable lost, repeated or altered, and with the operands of a pure operation unchanged. After any history of operations the names, bounds, types, index groups and other descriptions a space reports, its membership tests, comparisons and rounding agree with the variables it holds, and all names of distinct variables are different.",
     (["inputs", "histories"], "every search space and every finite sequence of these operations"),
     "The tests run each operation once on one space; the consistency of names, bounds and index groups must survive every sequence of operations.",
     [R + "search_space/search_space.py", R + "search_space/variable.py"],
     [("SearchSpace.__add__, __sub__, __mul__, __getitem__, filter, update, pop, remove, __setitem__ and in-place forms", R + "search_space/search_space.py"), ("_set_data, _set_index, _update_data", R + "search_space/search_space.py")]),
    ("C04", "Solutions keep values, objective values, counts and labels together",
     "However a set of solutions is built, sliced, masked, indexed, joined, replicated, deduplicated or converted from and to dictionaries and CSV, every row keeps its own values, objective value(s), evaluation count and label, and every value stays under its own variable name. Joining matches variables by name, and writing an attribute of a slice changes exactly those rows of the original.",
     (["inputs", "histories"], "every set of solutions with one or more objectives and every finite sequence of these operations"),
     "The tests slice one or two fixed arrays; alignment of rows and attributes must hold for every selection and history.",
     [R + "solution.py"],
     [("Solution.__new__, __getitem__, __array_finalize__, __setattr__, __add__, __mul__, unique, to_dict, from_dict, to_csv", R + "solution.py")]),
    ("C05", "The reported optimum is the best evaluated solution",
     "After any sequence of reported evaluations the optimizer's current optimum is one of the solutions it was told about, carries that solution's own objective value and evaluation count, and no other recorded solution has a better value in the chosen direction (smaller when minimizing, larger when maximizing). The recorded history of best values has one entry per report and never gets worse, and failed (not finite) evaluations are never recorded or reported as optimum.",
     (["histories", "inputs"], "every sequence of ask/tell rounds, batch sizes, objective values (ties, infinities, NaN), both directions and warm data"),
     "The tests run a handful of optimizations to the end and check that they finish; they do not compare the reported optimum with the history.",
     [R + "base.py", R + "bayes_opt.py", R + "mobo.py"],
     [("BaseBO.tell, xopt, fopt, _compare", R + "base.py"), ("recommend", R + "bayes_opt.py")]),
    ("C06", "Evaluation budget, counters and stopping are exact",
     "Every reported evaluation is recorded exactly once with its own point and value unless it failed (not finite), the counters of evaluations and iterations count everything that was reported except warm data, and the history has one entry per iteration. A run starts a new round exactly while the evaluation budget is not used up and the target value is not surpassed; the first round has the requested initial design size (skipped when warm data are given) and the later ones the requested number of points, unless the space has too few distinct feasible points. A run returns the best evaluation and why it stopped, and the functional interface returns exactly the evaluations made, grouped by iteration.",
     (["histories", "configurations", "fault_sequences"], "every budget, batch size, initial design size, target, direction, and every pattern of failed evaluations"),
     "The tests use one or two budgets and only check that a run ends; off-by-one errors for other budgets, batch sizes and failures are not reached.",
     [R + "base.py", R + "__init__.py", R + "bayes_opt.py"],
     [("BaseBO.run, step, ask, tell, evaluate, check_stop, post_eval_check", R + "base.py"), ("fmin", R + "__init__.py")]),
    ("C07", "Every proposed candidate is admissible",
     "Every candidate an optimizer proposes (in the initial design, by the acquisition search or at random) lies in the declared domain of every variable (bounds, precision, integer step, listed levels), equals the values the caller fixed on the fixed variables, satisfies the caller's constraints, and was not evaluated before (real values within numpy's closeness, other values equal; noisy optimizers may repeat a point). Never more candidates are proposed than requested, and exactly that many when a free continuous variable exists and nothing is constrained.",
     (["histories", "configurations", "inputs"], "every search space, data history, acquisition function, inner optimizer, fixed-variable assignment and batch size"),
     "The tests run a few optimizers on one space and do not check the candidates against the domain; the inner search returns different points for every data set.",
     [R + "base.py", R + "bayes_opt.py", R + "acquisition/optim/__init__.py", R + "extension.py"],
     [("BaseBO.ask, create_DoE, arg_max_acquisition", R + "base.py"), ("BO.pre_eval_check, _batch_arg_max_acquisition", R + "bayes_opt.py"), ("argmax_restart", R + "acquisition/optim/__init__.py")]),
    ("C08", "Acquisition functions follow their definitions and gradients",
     "For every predicted mean and standard deviation at a point the acquisition value equals its definition with respect to the incumbent value and the declared direction (confidence bound, expected improvement, probability of improvement, moment generating function of the improvement), is finite, and maximizing an objective gives the same values as minimizing its negation; where the deviation is zero the improvement based ones are zero, and an overflow counts as zero. The returned gradient is the derivative of the returned value wherever the deviation is positive, and a better predicted mean is never worth less. The optimizer hands over its model, its direction and its best (standardized) value unless the caller gives another incumbent.",
     (["inputs", "configurations"], "every mean, standard deviation (including zero), incumbent value, direction and parameter setting"),
     "The tests evaluate each function at one random point of one fitted model; they cannot cover zero deviation, maximization and all parameter values.",
     [R + "acquisition/acquisition_fun.py", R + "bayes_opt.py", R + "base.py"],
     [("UCB, EI, EpsilonPI, PI, MGFI", R + "acquisition/acquisition_fun.py"), ("plugin and direction handling in create_acquisition", R + "bayes_opt.py")]),
    ("C09", "The constraint penalty is zero exactly on feasible points",
     "The penalty for a set of points is computed for each point from its own constraint values: it is zero exactly when every inequality value is at most zero and every equality value is zero within the tolerance, and otherwise it makes the point worse in the chosen direction. It grows with each violation and with the iteration number, and its size is set by the documented parameters.",
     (["inputs", "configurations"], "every set of points, every constraint function (scalar or vector valued), iteration number, tolerance, exponents and direction"),
     "The tests do not call the penalty at all except through one optimization run.",
     [R + "utils/utils.py"],
     [("dynamic_penalty", R + "utils/utils.py")]),
    ("C10", "Box handling reflects points into the box and leaves inner points alone",
     "Every point is mapped into a bounded box by mirroring it at the bounds, coordinate by coordinate: the result is never outside, a coordinate already inside is unchanged, and a coordinate outside becomes its mirror image after as many reflections as needed. A coordinate that lacks a finite lower or upper bound is left unchanged, and every coordinate is treated independently of the others.",
     (["inputs"], "every point at any distance from the box and every box"),
     "The tests never call the box handling with points outside the box on both sides or many widths away.",
     [R + "utils/utils.py", R + "surrogate/gaussian_process/boundary_handling.py"],
     [("handle_box_constraint", R + "utils/utils.py"), ("boundary_handling", R + "surrogate/gaussian_process/boundary_handling.py")]),
    ("C11", "Pareto sets and non-dominated fronts are exact",
     "A point is reported as non-dominated exactly when no other point of the set is at least as good in every objective and better in one, for every number of points and objectives, in the direction declared, in the presence of ties; of points with equal values one is reported (all of them on request). Non-dominated sorting assigns every point to exactly one front, in order, and none of these functions changes its input. A multi-objective optimizer reports exactly the non-dominated solutions of its data, each with its own values and the direction declared for each objective.",
     (["inputs", "configurations"], "every finite set of objective vectors, with ties and duplicates, and every direction"),
     "The tests check two or three fixed sets of points.",
     [R + "utils/multi_objective/pareto.py", R + "utils/utils.py", R + "mobo.py"],
     [("is_non_dominated, fast_non_dominated_sort, non_dominated_set_2d", R + "utils/multi_objective/pareto.py"), ("is_pareto_efficient", R + "utils/utils.py"), ("BaseMOBO.xopt", R + "mobo.py")]),
    ("C12", "Hypervolume, box decompositions and expected improvement are exact",
     "The hypervolume of a set equals the volume dominated by it and bounded by the reference point, for any number of objectives and regardless of order, duplicates, dominated points or points beyond the reference point. A box decomposition partitions the non-dominated region into disjoint boxes that cover it, however many updates the points arrive in, and the expected hypervolume improvement of each point equals the expectation over its own predictive distribution (up to single precision). The criterion of the multi-objective optimizer is this improvement over the values its model is trained on, at the point with the fixed values filled in, and its reference point is beaten by the best recorded value of every objective that varies.",
     (["inputs"], "every set of objective vectors and reference point with two or more objectives"),
     "The tests compare a handful of fixed fronts.",
     [R + "utils/multi_objective/hypervolume.py", R + "utils/multi_objective/box_decompositions/non_dominated.py", R + "utils/multi_objective/box_decompositions/utils.py", R + "multi_objective/analytic.py", R + "mobo.py"],
     [("Hypervolume.compute", R + "utils/multi_objective/hypervolume.py"), ("FastNondominatedPartitioning", R + "utils/multi_objective/box_decompositions/non_dominated.py")]),
    ("C13", "Saving and loading an optimizer preserves it and its progress",
     "Saving an optimizer and loading it back gives an optimizer with the same data, optimum, counters, search space, settings and model, which proposes and accepts evaluations like the original. Saving, whether it succeeds or fails, leaves the running optimizer unchanged and usable.",
     (["histories", "crash_points", "fault_sequences"], "every point of a run at which the optimizer is saved, and every failure while saving"),
     "The test saves one optimizer once and checks that it can be loaded.",
     [R + "base.py"],
     [("BaseBO.save, load", R + "base.py")]),
    ("C14", "Inner optimizers return the best feasible point they evaluated",
     "The optimizers used to maximize an acquisition function evaluate only points of the search space and return one of them together with its own value, which is the best one they evaluated in the direction they were asked for (for the evolution strategy with the penalty of the iteration in which the point was evaluated added; for the (1+1)-CMA-ES the best feasible one as soon as a feasible point was evaluated). Restarting returns a feasible point or none, and the best one of its runs. Evaluation and iteration counters are exact, and without constraints the evaluation budget is exceeded by no more than one generation, for every mix of real, integer and categorical variables and finite objective values.",
     (["inputs", "configurations", "histories"], "every objective, search space, constraint, budget, direction and outcome of the random generator"),
     "The tests run each optimizer once on a sphere function.",
     [R + "acquisition/optim/mies.py", R + "acquisition/optim/one_plus_one_cma_es.py", R + "acquisition/optim/__init__.py"],
     [("MIES.optimize, select, mutation", R + "acquisition/optim/mies.py"), ("OnePlusOne_CMA, OnePlusOne_Cholesky_CMA", R + "acquisition/optim/one_plus_one_cma_es.py"), ("argmax_restart", R + "acquisition/optim/__init__.py")]),
    ("C15", "Fixing variables and wrapping functions keeps every argument in its place",
     "A function wrapped to fix some of its variables or to take lists or dictionaries receives every free argument at its own position and every fixed value at its own, and returns the function's value for exactly that point (and the derivative with respect to the free variables only). Filling the fixed values back into partial points restores the full points, for one or many points and for any subset of fixed variables. A penalized function is the negated value plus the penalty, with the gradient of that sum.",
     (["inputs", "configurations"], "every set of variables, subset of fixed ones, values and number of points"),
     "The tests fix one variable in one run.",
     [R + "utils/utils.py", R + "base.py", R + "acquisition/optim/__init__.py"],
     [("partial_argument, fillin_fixed_value, func_with_list_arg, arg_to_int, set_bounds", R + "utils/utils.py"), ("Penalized, finite_difference", R + "acquisition/optim/__init__.py")]),
    ("C16", "Conditional search spaces activate exactly the right variables",
     "For conditions of the form `variable == value`, stated with the variables or as a structure: the condition tree contains every conditional variable exactly once, under the variable and the condition that activate it, and tree operations (adding, removing, pruning, iterating over paths) keep exactly the remaining variables. The unconditional subspaces are exactly the combinations of the stated branches, each with exactly the variables active on it, and operations on spaces (filtering, slicing, adding, subtracting, removing) keep the conditions whose selector is still there. A conditional optimizer proposes points with exactly the active variables (the others are None), first visits every subspace once, and gives the optimizer of each subspace exactly its own points with their values. Conditions of other forms are rejected.",
     (["inputs", "configurations", "histories"], "every tree of conditions over every space, and every operation history on it"),
     "The tests build two fixed trees.",
     [R + "search_space/node.py", R + "search_space/search_space.py", R + "extension.py"],
     [("Node operations", R + "search_space/node.py"), ("get_unconditional_subspace, _set_structure", R + "search_space/search_space.py"), ("ConditionalBO", R + "extension.py")]),
    ("C17", "Search spaces survive conversion to and from dictionaries and JSON",
     "A search space built from a dictionary or JSON file has exactly the variables the description lists, in order, each with its type, range, precision, scale, step, default, condition (stated with the variable) and repetition, and a space written to JSON and read back describes the same domain variable by variable. The conversions do not modify their input, and descriptions that cannot be honoured (an unknown type or scale, impossible bounds, a default outside of the domain) are rejected instead of being dropped silently.",
     (["inputs", "configurations"], "every search space and every dictionary description"),
     "The tests read two fixed dictionaries.",
     [R + "search_space/search_space.py"],
     [("SearchSpace.from_dict, from_json, to_json, to_dict", R + "search_space/search_space.py")]),
    ("C18", "Surrogate models are trained on exactly the recorded data",
     "After every report of evaluations the surrogate is trained on exactly the recorded points, each paired with its own value(s). The values are mapped by one affine map (one for each objective), which keeps their order (several objectives are all turned into maximization), and training changes no recorded data. For the random forest, numbers are kept and every level of a categorical variable has an indicator of its own, so that different points are never encoded alike. The incumbent value handed to the acquisition function is the best trained value in the chosen direction (in the noisy case the best prediction at the recorded points) unless the caller gave one. With dimensionality reduction the model is trained on the images of all recorded points under the current transformation, the reduced domain contains the image of every point of the original domain, and mapping back and forth is the identity on the reduced space; the criterion there is the acquisition value where the image is in the original domain and minus the image's total excess over the bounds elsewhere.",
     (["histories", "inputs", "configurations"], "every history of evaluations, any mix of variable types, both directions"),
     "The tests only check that a model can be fitted.",
     [R + "base.py", R + "surrogate/random_forest.py", R + "bayes_opt.py", R + "extension.py", R + "mobo.py"],
     [("update_model", R + "base.py"), ("_create_acquisition (incumbent)", R + "bayes_opt.py"), ("RandomForest.fit, one-hot encoding", R + "surrogate/random_forest.py"), ("PCABO, LinearTransform", R + "extension.py"), ("BaseMOBO.update_model", R + "mobo.py")]),
    ("C19", "Surrogate predictions, uncertainties and gradients are the model's own",
     "A random forest predicts, for every point and independently of the other points asked for, the average of its trees, with their sample variance as uncertainty; a weighted sum of models predicts the weighted sum with the squared weights on the variances. A Gaussian process (squared exponential, absolute exponential or Matern 3/2 correlation; trend absent, given, constant, linear or quadratic; noise absent, given or estimated; one target, concentrated likelihood) predicts the posterior mean and variance that follow from its training data and its trained parameters: the variance is never negative, a noise-free model reproduces its data, the length scales stay within their bounds and are those of the best restart, the variances are the residual variances, the reported likelihood is that of the data, and training ends. Its gradient (also at training points) and, for the squared exponential, its second derivatives are the derivatives of these predictions. Correlation functions follow their formula and are one at distance zero.",
     (["inputs", "configurations"], "every data set, point, correlation, trend and noise setting (condition numbers within floating-point reach)"),
     "The tests only check that predictions exist and have the right shape.",
     [R + "surrogate/random_forest.py", R + "surrogate/gaussian_process/gpr.py", R + "surrogate/gaussian_process/kernel.py", R + "surrogate/gaussian_process/trend.py", R + "surrogate/gaussian_process/__init__.py"],
     [("RandomForest.predict, SurrogateAggregation", R + "surrogate/random_forest.py"), ("GaussianProcess.fit/predict/gradient/Hessian", R + "surrogate/gaussian_process/gpr.py"), ("correlation functions", R + "surrogate/gaussian_process/kernel.py"), ("trends", R + "surrogate/gaussian_process/trend.py"), ("GaussianProcessSklearn", R + "surrogate/gaussian_process/__init__.py")]),
    ("C20", "Runs are reproducible from their seed, and sampling never restarts",
     "A given random seed (any non-negative integer, zero included) fixes every random choice that follows: two search spaces with the same seed and the same definition yield the same points, draw after draw, and two optimizers with the same configuration and seed (one job) that are told the same values propose the same candidates, whatever random numbers were used before and in another process too. Without a seed nothing touches the state of the random numbers: building, slicing, filtering and sampling a space only draws on, so that sampling a seeded space again yields new points, a slice keeps the seed of its space, and different seeds give different points.",
     (["inputs", "configurations", "histories"], "every seed, space, configuration of the optimizer and history of told values, with one job"),
     "The tests never compare two runs.",
     [R + "_base.py", R + "search_space/search_space.py", R + "acquisition/optim/one_plus_one_cma_es.py", R + "base.py"],
     [("random_seed", R + "_base.py"), ("random_seed, __getitem__, sample", R + "search_space/search_space.py"), ("random_seed", R + "acquisition/optim/one_plus_one_cma_es.py")]),
]

CLAIMED = [p[0] for p in PROPS if os.path.exists(f"{HERE}/contracts/{p[0]}.py")]

TECH = ("contract-based deductive verification of the code in /repo: functions are extracted from the current source on every run, symbolically executed "
        "against contracts (callees replaced by their contracts, loops cut by invariants), every obligation discharged by z3 (cvc5 second); "
        "functions out of reach, and floating-point effects, get the same contracts checked at run time on the real package within a stated bound")


def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for pid, title, st, (over, text), why, files, mech in PROPS:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": w} for a, w in mech]}}) + "\n")
    notes = json.load(open(f"{HERE}/levels.json")) if os.path.exists(f"{HERE}/levels.json") else {}
    man = {"version": 1, "setup_cmd": "true",
           "checks": [{"property": p, "quick_cmd": f"{PY} /verif/check.py {p}", "thorough_cmd": f"{PY} /verif/check.py {p} --thorough", "technique": TECH,
                       "level": "proof", "level_note": notes.get(p, "see DESIGN.md; obligations discharged by z3/cvc5, the listed functions out of the verifier's reach are bounded")} for p in CLAIMED],
           "not_applicable": [{"property": p[0], "reason": "contracts not written yet"} for p in PROPS if p[0] not in CLAIMED]}
    json.dump(man, open(f"{HERE}/MANIFEST.json", "w"), indent=1)


main()
