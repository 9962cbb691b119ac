#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["pySOT/" + f for f in files],
                          "mechanism": [{"name": n, "where": "pySOT/" + w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": "pySOT/" + w} for n, m, w in state],
                          "observe_at": observe}})
SS = "strategy/surrogate_strategy.py"
p("C01", "The evaluation budget is never exceeded and is used up",
  "For every strategy and every order in which proposals are accepted or refused and evaluations finish, fail or are killed, the number of completed plus outstanding evaluations never exceeds the evaluation budget, and termination is proposed only while nothing is outstanding. Termination is proposed only if the budget was reached by completed plus outstanding evaluations at some point, or the run converged with restarts disabled; so a run in which nothing is refused or fails, and which does not stop for convergence, completes exactly the budget.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all interleavings of proposal, accept, reject, complete, cancel and kill events; all strategies; serial, synchronous and asynchronous; all budgets, batch sizes and restart settings",
  "The tests run a few complete optimizations on one controller schedule each and look at the final count; refusals, failures and out-of-order completions never happen in them.",
  [SS, "strategy/srbf_strategy.py", "strategy/dycors_strategy.py", "strategy/ei_strategy.py", "strategy/lcb_strategy.py", "strategy/sop_strategy.py", "strategy/random_strategy.py"],
  [("budget check before every proposal", SS + ":check_termination,propose_action"), ("counters in the event handlers", SS + ":on_initial_*,on_adapt_*,make_proposal")],
  ["propose_action()", "proposals and evaluation records seen by a controller"],
  [("num_evals/pending_evals", "completed and outstanding evaluations", SS)])
p("C02", "Every evaluation is accounted for exactly once",
  "In every history of events, each completed evaluation is recorded exactly once, in order of completion, as its own point paired with its own value, and evaluations that fail, are killed, or were refused add no data. The pending points are, as a multiset, exactly the points proposed but not yet refused, completed, failed or killed. A point of the initial design that is refused or whose evaluation fails is queued again, as is a point of a synchronous batch that is refused, and no other point is queued again.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of accept, reject, complete, cancel and kill events over any number of outstanding evaluations, including several outstanding evaluations at the same point",
  "The tests never refuse, kill or fail an evaluation, never have duplicate pending points, and compare only final values.",
  [SS, "strategy/sop_strategy.py", "strategy/srbf_strategy.py"],
  [("event handlers of both phases", SS + ":on_initial_*,on_adapt_*"), ("pending bookkeeping", SS + ":make_proposal,remove_pending")],
  ["recorded points and values", "pending points", "points proposed next"],
  [("X/fX", "completed evaluations", SS), ("Xpend", "pending points", SS), ("batch_queue", "points waiting to be proposed", SS)])
p("C03", "The surrogate holds exactly the evaluations of the current run",
  "Whenever control returns to the controller, the surrogate model has been given exactly the evaluations completed in the current run (those started after the last restart), each once with its own value, plus, before the first restart, the user-supplied points with known values. Evaluations started before a restart never enter the surrogate of the new run, and a change of the search step size discards nothing. Points with unknown (missing, nan or infinite) value are evaluated once in the first run instead of being given to the surrogate.",
  ["schedules", "histories", "configurations"],
  "all event histories with restarts and step-size changes at any point, any number of evaluations in flight across them, and all choices of extra points and values",
  "A wrong training set still gives a run that finishes; the tests only look at the best value found and never have evaluations in flight across a restart.",
  [SS, "strategy/srbf_strategy.py", "surrogate/surrogate.py"],
  [("event ids decide which completions belong to the current run", SS + ":get_ev,on_*_completed,sample_restart"), ("extra points", SS + ":sample_initial")],
  ["data added to the surrogate", "data of the current run"],
  [("ev_restart/ev_last", "event index of the last restart/step change", SS), ("_X/_fX", "data of the current run", SS)])
p("C04", "The optimization never stalls and restarts are clean",
  "Whenever no evaluation is outstanding, asking the strategy for its next action yields an evaluation or termination, never nothing; asynchronous strategies that have not terminated always propose an evaluation. After convergence a strategy with restarts enabled begins a new run with a fresh initial design, an emptied surrogate and run data, and initial step-size state, waiting in synchronous mode until nothing is outstanding; with restarts disabled it proposes termination once nothing is outstanding.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all reachable states of every strategy, all event histories including refused and failed evaluations, all restart and synchronization settings; within the documented requirements that the design has more points than there are workers and the Pareto strategy at least as many centers as workers",
  "A stall needs a particular history (convergence without restarts, all proposals of a batch refused, leaked search centers); the tests end by budget only.",
  [SS, "strategy/srbf_strategy.py", "strategy/sop_strategy.py", "strategy/ei_strategy.py", "strategy/lcb_strategy.py"],
  [("decision logic", SS + ":propose_action,check_termination"), ("restart", SS + ":sample_restart, strategy/srbf_strategy.py:sample_initial")],
  ["propose_action()"])
p("C05", "Every proposed point lies in the domain",
  "Every point proposed for evaluation by any strategy, in the initial design or later, lies within the bounds in every coordinate and has integer values in the integer variables. This holds for user-supplied starting points that satisfy it themselves, for any surrogate model, and for problems with integer bounds on their integer variables.",
  ["inputs", "configurations", "histories"],
  "all domains (dimension, bounds, integer variables), data sets, surrogates, weights and random draws",
  "The tests use continuous problems with round bounds almost everywhere and check at most a sample of points.",
  ["auxiliary_problems/candidate_srbf.py", "auxiliary_problems/candidate_dycors.py", "auxiliary_problems/candidate_uniform.py", "auxiliary_problems/ei_ga.py", "auxiliary_problems/lcb_ga.py", "experimental_design/experimental_design.py", "strategy/random_strategy.py", "utils.py"],
  [("rounding and clipping of integer variables", "utils.py:round_vars"), ("truncated sampling", "auxiliary_problems/candidate_srbf.py:candidate_srbf"), ("mapping of designs", "experimental_design/experimental_design.py:_expdes_dist")],
  ["points proposed for evaluation", "results of the candidate and GA searches"])
p("C06", "Experimental designs are valid designs",
  "A Latin hypercube, symmetric Latin hypercube or two-level factorial design has exactly the requested number of rows and columns; mapped to a domain, its points satisfy the bounds and integrality, and the points of the two hypercube designs are pairwise distinct with full column rank (or an error is raised). In the unit cube the symmetric design takes every level (k-1)/(n-1) exactly once in each column and is symmetric about the center (row i and row n+1-i add up to one), and the factorial design consists of all distinct corners.",
  ["inputs", "configurations"],
  "all dimensions, numbers of points, bounds, integer variables, and all outcomes of the random generator",
  "The tests check shapes and rank for a few sizes; the guarantees concern every size, parity and random outcome.",
  ["experimental_design/experimental_design.py", "experimental_design/slhd.py", "experimental_design/lhd.py", "experimental_design/two_factorial.py", "utils.py"],
  [("construction of the symmetric design", "experimental_design/slhd.py:_slhd"), ("selection and mapping", "experimental_design/experimental_design.py:_expdes_dist")],
  ["generate_points()"])
p("C07", "Candidate selection minimizes the weighted-distance merit",
  "The weighted-distance search returns, in order, candidates that each minimize w*s + (1-w)*(1-d) among those at least the distance tolerance away from every evaluated, pending and already selected point, where s is the surrogate prediction rescaled to [0,1] over all candidates, d is the distance to the nearest evaluated, pending or already selected point rescaled to [0,1], and w is the weight for that position. Candidates closer than the tolerance to one of these points are never returned while another candidate is available.",
  ["inputs"],
  "all candidate sets, data sets, pending sets, predictions, weights and tolerances",
  "The tests only check that the returned points are in the box and not too close; a wrong merit or a forgotten pending set passes them.",
  ["auxiliary_problems/candidate_srbf.py", "utils.py"],
  [("greedy selection", "auxiliary_problems/candidate_srbf.py:weighted_distance_merit"), ("rescaling", "utils.py:unit_rescale")],
  ["points returned by the candidate searches"])
p("C08", "EI and LCB acquisition values and selections are correct",
  "The expected improvement of a point equals sigma*(g*Phi(g)+phi(g)) with g=(best value-mu)/sigma, and the lower confidence bound equals mu-kappa*sigma, with mu and sigma the surrogate's mean and standard deviation; within the distance tolerance of an evaluated, pending or already selected point they are replaced by zero and plus infinity respectively. The searches return the points found by the optimizer one after another, each kept away from the ones before, and give up exactly if the best expected improvement is below its threshold or the best confidence bound is above its target.",
  ["inputs"],
  "all points, means, deviations, data and pending sets, tolerances, thresholds and batch sizes",
  "The tests evaluate a few points in one dimension against hand-computed values without pending points or thresholds.",
  ["auxiliary_problems/ei_merit.py", "auxiliary_problems/lcb_merit.py", "auxiliary_problems/ei_ga.py", "auxiliary_problems/lcb_ga.py", "strategy/ei_strategy.py", "strategy/lcb_strategy.py"],
  [("merit functions", "auxiliary_problems/ei_merit.py:ei_merit"), ("searches", "auxiliary_problems/ei_ga.py:ei_ga")],
  ["ei_merit()", "lcb_merit()", "ei_ga()", "lcb_ga()"])
p("C09", "The genetic algorithm returns the best feasible individual it evaluated",
  "The genetic algorithm returns an individual inside the bounds, with integer values in the integer variables, together with exactly the objective value of that individual; no individual it ever evaluated had a smaller value, and every individual it evaluates is feasible. It evaluates the initial population and then the given number of generations, and neither the bounds nor a user-supplied initial population are modified.",
  ["inputs", "configurations"],
  "all objective functions, domains, integer variables, population sizes, generation counts, initial populations and random draws",
  "The tests check that two optima are found; losing the best individual or evaluating slightly infeasible ones does not change that.",
  ["utils.py"],
  [("main loop", "utils.py:GeneticAlgorithm.optimize")],
  ["GeneticAlgorithm(...).optimize()", "calls of the objective"])
p("C10", "Non-dominated sorting is correct",
  "One vector dominates another exactly if it is strictly smaller in every objective. The computed front splits the indices of all vectors into those not dominated by any vector and the others, each index appearing exactly once. Ranks follow repeated removal of fronts: rank k is given exactly to the vectors that are not dominated once all vectors of smaller rank are removed, for every rank up to the one at which the requested number of points is reached, and the remaining vectors have infinite rank.",
  ["inputs"],
  "all numbers of objectives and vectors, all values including ties and duplicates, all limits",
  "The existing test only covers two small examples (and crashed on current numpy); order- and tie-dependent errors need specific inputs.",
  ["utils.py"],
  [("incremental update of the front", "utils.py:nd_add"), ("fronts and ranks", "utils.py:nd_front,nd_sorting"), ("domination", "utils.py:domination")],
  ["domination()", "nd_front()", "nd_sorting()"])
p("C11", "Pareto center selection follows the tabu, rank and radius rules",
  "In the Pareto-based strategy the best evaluated point, unless it is being processed, is always the first new center; further centers are taken in order of tabu status, then non-domination rank with respect to (value, minus distance to the nearest other point), then value, skipping points closer to an already chosen new center than its scaled search radius, and the number of centers is always the configured one. A center whose new point is not on the first front gets its failure count raised and its radius halved, a center with more than three failures becomes tabu, and a tabu point is released after five updates with its radius and failure count reset. A center is in use from proposing a point until that point is evaluated, refused, killed or lost, and every new point is generated around a center not in use.",
  ["histories", "inputs", "schedules"],
  "all evaluation histories, values, budgets, numbers of centers and points in flight",
  "The strategy is only run end to end on one problem; wrong ranks or leaked centers still give a run.",
  ["strategy/sop_strategy.py", "utils.py"],
  [("center list", "strategy/sop_strategy.py:update_center_list"), ("memory", "strategy/sop_strategy.py:adjust_memory"), ("radius rule", "utils.py:check_radius_rule")],
  ["centers and their memory", "points proposed next"])
p("C12", "Step size and weights of the stochastic search follow their rules",
  "In the stochastic searches the sampling radius starts at its maximum 0.2, is halved exactly after the failure tolerance of consecutive unsuccessful updates and doubled, never beyond its maximum, exactly after three consecutive successful ones, where an update is successful if it is the first of the run or the best new value improves the value of the last successful update by more than 0.1 percent of its magnitude, and the failure tolerance is the larger of the dimension and four, divided by the batch size and rounded up in synchronous mode. The search converges exactly if the number of consecutive failures reaches four times the tolerance or the radius falls to its minimum; asynchronous runs update after each evaluation and synchronous ones after each batch, using only evaluations started after the last radius change or restart. The weights are used cyclically in the given order, one per proposed point.",
  ["histories", "schedules", "inputs"],
  "all sequences of function values, batch sizes, dimensions and weight lists, and all orders of completion",
  "The tests never look at the radius or the weights used; only long value sequences with specific success/failure patterns reach the branches.",
  ["strategy/srbf_strategy.py"],
  [("step control", "strategy/srbf_strategy.py:adjust_step,on_adapt_completed"), ("weights", "strategy/srbf_strategy.py:get_weights")],
  ["sampling radius, convergence and weights after each completion"])
p("C13", "Scaling and rounding utilities are exact",
  "Mapping to the unit box and back are inverse to each other, map the lower bound to zero and the upper bound to one, and act on each coordinate independently and monotonically. Rescaling a vector shifts and scales it linearly so that its smallest entry becomes zero and its largest becomes one, or gives all ones if they are equal. Rounding changes only the integer variables, gives each the nearest integer clipped to the bounds, and leaves every point that is already feasible unchanged.",
  ["inputs"],
  "all arrays, bounds, sets of integer variables and shapes",
  "The tests compare single examples.",
  ["utils.py"],
  [("unit box maps", "utils.py:to_unit_box,from_unit_box"), ("rescaling", "utils.py:unit_rescale"), ("rounding", "utils.py:round_vars")],
  ["to_unit_box()", "from_unit_box()", "unit_rescale()", "round_vars()"])
p("C14", "The RBF interpolant solves its fitting equations, refit or extended",
  "After any sequence of adding points, resetting and predicting, the coefficients of the radial basis function model solve the documented regularized saddle-point system for all points currently in the model in the unit box, with the transformed values on the right-hand side. In particular extending an existing factorization gives the same model as fitting from scratch, and with vanishing regularization the model interpolates the data.",
  ["histories", "inputs"],
  "all point sets, values, kernels, tails, regularizations and all ways to split the points over additions, predictions and resets",
  "The tests compare predictions loosely on one function with one way to add the points.",
  ["surrogate/rbf.py", "surrogate/kernels/cubic_kernel.py", "surrogate/tails/linear_tail.py"],
  [("initial factorization and extension", "surrogate/rbf.py:RBFInterpolant._fit"), ("evaluation", "surrogate/rbf.py:RBFInterpolant.predict")],
  ["RBFInterpolant.predict()", "coefficients"])
p("C15", "Derivatives are the derivatives of the values",
  "The derivative of each kernel is the derivative of its value with respect to distance, and the derivative of each polynomial tail is the Jacobian of its basis. The gradient predicted by the radial basis function model is the gradient of the predicted value with respect to the original variables, away from the data points.",
  ["inputs"],
  "all kernels, tails, distances, dimensions, points, bounds and coefficients",
  "The tests compare with finite differences at a few points of one model.",
  ["surrogate/rbf.py", "surrogate/kernels/cubic_kernel.py", "surrogate/kernels/linear_kernel.py", "surrogate/kernels/tps_kernel.py", "surrogate/tails/linear_tail.py", "surrogate/tails/constant_tail.py"],
  [("gradient", "surrogate/rbf.py:RBFInterpolant.predict_deriv"), ("kernels and tails", "surrogate/kernels/tps_kernel.py:TPSKernel.deriv")],
  ["eval()/deriv() of kernels and tails", "predict()/predict_deriv()"])
p("C16", "Surrogates never use stale or altered data",
  "Adding points to a surrogate appends exactly the given points and values, in order, to its data, and resetting empties it; every prediction made afterwards is based on exactly the current data, in unit-box coordinates and with the output transformation applied to a copy of the values. No operation of a surrogate, kernel or output transformation modifies an array passed to it or changes the stored values. Median capping returns the values with everything above the median replaced by the median.",
  ["histories", "inputs"],
  "all sequences of add, reset, predict and derivative calls on every surrogate class, all data and transformations",
  "The tests add points once or twice and check the error; a stale model or an altered input is still a good model.",
  ["surrogate/surrogate.py", "surrogate/rbf.py", "surrogate/gp.py", "surrogate/poly.py", "surrogate/mars.py", "surrogate/output_transformations/median_capping.py", "surrogate/kernels/tps_kernel.py"],
  [("data container", "surrogate/surrogate.py:Surrogate.add_points,reset"), ("lazy refit", "surrogate/rbf.py:_fit, surrogate/gp.py:_fit, surrogate/poly.py:_fit")],
  ["X, fX, predict()"])
p("C17", "A checkpoint on disk is always complete, current and loadable",
  "At every point at which the process may stop while a checkpoint is being written, the checkpoint file is absent only if none was ever finished, and otherwise is one complete earlier or the new snapshot; a crash while writing never damages the previous snapshot. Once an evaluation has been reported completed, killed or cancelled, or the run has terminated, the file on disk contains the strategy's state including that event. Starting a fresh run refuses to overwrite an existing checkpoint, wherever the file is located.",
  ["crash_points", "histories"],
  "every file-system operation of every save as a crash point, every event that triggers a save, every file location",
  "The tests interrupt one run between evaluations; a crash between file operations is never exercised.",
  ["controller/controller.py", "strategy/surrogate_strategy.py"],
  [("write to a temporary file, then rename", SS + ":save"), ("save on events", "controller/controller.py:on_update,_save")],
  ["checkpoint file"])
p("C18", "A resumed run continues from exactly the saved state",
  "Resuming restores all completed evaluations, values and search state of the snapshot, forgets all evaluations that were pending, and in the initial phase puts the pending points back in the queue, so that none of the design is lost. The resumed run counts the restored evaluations against the budget and continues until the budget is used up again; resuming without a checkpoint is an error.",
  ["histories", "crash_points", "configurations"],
  "every reachable state as the snapshot (either phase, any number of pending evaluations, terminated or not), every strategy",
  "One interrupted run is resumed in the tests, with at most a few pending evaluations in the adaptive phase.",
  [SS, "controller/controller.py", "strategy/sop_strategy.py"],
  [("reset of pending state", SS + ":resume"), ("reload", "controller/controller.py:resume")],
  ["state after resume and the evaluations made afterwards"])
p("C19", "Test problems compute their documented functions",
  "Every benchmark problem evaluates its published formula at every point of its domain and in every dimension, has consistent bounds and variable types, and rejects points of the wrong dimension. Where a minimum and a minimizer are documented, the minimizer lies in the domain, the function takes the documented value there, and it takes no smaller value anywhere in the domain.",
  ["inputs", "configurations"],
  "all problems, dimensions and points of the domain",
  "The tests evaluate each problem at its documented minimizer only, in one dimension.",
  ["optimization_problems/" + f for f in ("ackley.py", "branin.py", "exponential.py", "goldstein_price.py", "griewank.py", "hartmann3.py", "hartmann6.py", "himmelblau.py", "levy.py", "michaelewicz.py", "perm.py", "rastrigin.py", "rosenbrock.py", "schwefel.py", "six_hump_camel.py", "sphere.py", "sum_of_squares.py", "weierstrass.py", "zakharov.py")],
  [("formulas", "optimization_problems/ackley.py:Ackley.eval")],
  ["eval(), lb, ub, min, minimum"])
p("C20", "Invalid configurations are rejected before anything is evaluated",
  "Constructing a strategy raises an error exactly when an argument is invalid: the budget is not a positive integer or smaller than the initial design, synchronous mode has no batch size, the Pareto strategy has fewer than four centers or a batch larger than the number of centers, weights are outside [0,1], the surrogate, design or problem has the wrong type, the Bayesian strategies get a surrogate that is not a Gaussian process, or the design does not match the dimension. A problem is rejected unless its bounds are arrays of the right length with lower below upper, and its integer and continuous variables are disjoint valid index arrays covering all dimensions.",
  ["inputs", "configurations"],
  "all argument values of all strategies and all problem definitions",
  "Only valid configurations (and two invalid ones) are constructed in the tests.",
  [SS, "strategy/sop_strategy.py", "strategy/srbf_strategy.py", "strategy/random_strategy.py", "strategy/ei_strategy.py", "utils.py"],
  [("input checks", SS + ":check_input"), ("problem check", "utils.py:check_opt_prob")],
  ["constructors of the strategies", "check_opt_prob()"])
p("C21", "Coordinate perturbation follows the dynamic coordinate search rules",
  "Each candidate of the dynamic coordinate search differs from the given center (by default the best point of the run) only in coordinates of the requested subset, at least one coordinate is selected for perturbation in every candidate, and every coordinate of the subset can be the one selected. The selection probability passed on by the strategies is min(20/d,1)*(1-log(n+1)/log(N)), but at least 1/d, where n is the number of evaluations completed or pending beyond the initial design size and N the budget beyond it, so it always lies between 1/d and 1. The stochastic and uniform searches likewise leave all coordinates outside the subset at the best point, and perturbations have standard deviation radius*(upper-lower), at least one for integer variables.",
  ["inputs", "histories"],
  "all dimensions, subsets, probabilities, data sets, budgets, evaluation counts and random draws",
  "The tests always use the default subset and do not look at which coordinates change or which probability is used.",
  ["auxiliary_problems/candidate_dycors.py", "auxiliary_problems/candidate_srbf.py", "auxiliary_problems/candidate_uniform.py", "strategy/dycors_strategy.py", "strategy/sop_strategy.py"],
  [("candidate generation", "auxiliary_problems/candidate_dycors.py:candidate_dycors"), ("probability", "strategy/dycors_strategy.py:generate_evals")],
  ["candidates handed to the selection", "probability handed to the search"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
