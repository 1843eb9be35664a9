"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
S = "pySOT/strategy/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

base = S + "surrogate_strategy.py"
T_SCHED = "The tests run each strategy once per mode with one (timing dependent) completion order and no failures or rejections."

prop("C01", "Evaluation budget is respected and used up",
 "At every moment the number of completed evaluations plus the number in flight never exceeds the budget, and a strategy asks to terminate only when nothing is in flight. "
 "Without failed evaluations a run performs exactly the budgeted number of evaluations, and it stops short of that only if an evaluation failed once the whole budget was committed or the run converged with restarts disabled. "
 "Rejected proposals, killed or cancelled evaluations and user-supplied points with known values do not consume budget.",
 ["schedules", "fault_sequences", "configurations"],
 "All strategies, serial/synchronous/asynchronous, any worker count, any order of proposal accept/reject and completion/kill/cancel, any convergence pattern.",
 T_SCHED + " They only look at the final evaluation count.",
 [base, S + "random_strategy.py"],
 [("check_termination", base), ("make_proposal", base), ("on_adapt_reject", base), ("propose_action", base)],
 [("num_evals", "completed evaluations"), ("pending_evals", "evaluations in flight"), ("terminate", "budget committed or run finished")])

prop("C02", "Strategy history is an exact ledger of what was evaluated",
 "Between any two controller events, the strategy's record of evaluated points and values equals, in order, the user-supplied known points followed by exactly the evaluations that completed, each with the point and value that the controller reported. "
 "Its set of pending points equals exactly the evaluations in flight (with multiplicity), its counters of completed, pending, accepted and rejected items match, and its list of finished evaluations holds every completed, killed and cancelled evaluation exactly once. "
 "Nothing is lost, duplicated, altered or attributed to another point, whatever the completion order, failures, rejections and restarts.",
 ["schedules", "fault_sequences", "histories"],
 "Every interleaving of proposals, accepts, rejects, completions, kills and cancels up to the explored bound, in every mode and for every strategy.",
 T_SCHED + " Out-of-order completion with a failure in between is never produced.",
 [base], [("on_initial_completed/on_initial_aborted", base), ("on_adapt_completed/on_adapt_aborted", base), ("remove_pending", base), ("on_initial_rejected/on_adapt_reject", base)],
 [("X, fX", "completed evaluations"), ("Xpend", "points in flight"), ("fevals", "finished records")])

prop("C03", "No schedule crashes, stalls or livelocks a run",
 "On every legal sequence of controller actions (proposals accepted or rejected, evaluations completed, killed or cancelled in any order) no strategy raises an exception. "
 "Whenever nothing is in flight a strategy proposes something, either an evaluation or termination, so that serial controllers never fail and threaded ones never hang. "
 "Every run in which evaluations eventually complete terminates after finitely many proposals.",
 ["schedules", "fault_sequences", "configurations"],
 "All strategies and modes, batch sizes smaller than, equal to and larger than the worker count, restarts enabled or disabled, known and unknown extra points, points rejected while workers are busy.",
 T_SCHED + " A stall shows up as a hung test only on the particular schedule that triggers it.",
 [base, S + "sop_strategy.py", S + "srbf_strategy.py", S + "ei_strategy.py", S + "lcb_strategy.py"],
 [("propose_action", base), ("generate_evals", S + "sop_strategy.py"), ("adjust_memory", S + "sop_strategy.py"), ("update_center_list", S + "sop_strategy.py")])

prop("C04", "Every proposed point is feasible",
 "Every point that a strategy sends for evaluation, in the initial design as well as in the adaptive phase, is a finite vector of the problem's dimension that lies within the variable bounds. "
 "Every integer variable of such a point has an integer value. "
 "This holds for all strategies including plain random sampling, and for every outcome of the random number generator.",
 ["inputs", "schedules", "configurations"],
 "All strategies; continuous, mixed and pure integer problems, with asymmetric, negative, offset and narrow bounds; extreme outcomes of the random draws.",
 "The tests use random draws that practically never hit the extremes of a distribution, and check only one mixed-integer problem at the end of a run.",
 ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py", "pySOT/auxiliary_problems/candidate_uniform.py", "pySOT/auxiliary_problems/ei_ga.py", "pySOT/auxiliary_problems/lcb_ga.py", S + "random_strategy.py", "pySOT/experimental_design/experimental_design.py", "pySOT/utils.py"],
 [("round_vars", "pySOT/utils.py"), ("candidate generation", "pySOT/auxiliary_problems"), ("GeneticAlgorithm.optimize", "pySOT/utils.py")])

prop("C05", "The initial design is evaluated completely before adaptive sampling",
 "Every run starts by proposing the points of the experimental design, together with (first run only) every user-supplied extra point whose value is unknown; each of them is evaluated once, with retries after a rejection or failure until it succeeds. "
 "While any of these points is waiting to be evaluated, nothing else is proposed; in synchronous mode adaptive sampling begins only after all of them completed, in asynchronous mode only after all of them were handed out. "
 "Extra points with a known value are never evaluated but are used like evaluated points.",
 ["schedules", "fault_sequences", "configurations"],
 "Any order of rejections, failures and completions of design points, before and after adaptive proposals have begun, with any mix of known and unknown (NaN or infinite) extra values.",
 "The tests never fail or reject a design point, and exercise extra points only in fault-free runs.",
 [base], [("sample_initial", base), ("init_proposal", base), ("on_initial_rejected/on_initial_aborted", base)],
 [("batch_queue", "points waiting to be proposed"), ("phase", "1 initial design, 2 adaptive")])

prop("C06", "The surrogate is trained on exactly the current run's evaluations",
 "At every moment the surrogate's data are exactly the evaluations of the current run that have completed, each with its reported value, plus (first run only) the extra points with known values. "
 "Evaluations that were proposed before a restart never enter the new run's data, and no evaluation of the current run is dropped or entered twice, in particular not those in flight while the strategy adapts its own parameters. "
 "The best point and the distances used to select new points are computed from the same data.",
 ["schedules", "histories", "fault_sequences"],
 "Every interleaving of completions with parameter changes, restarts, failures and rejections up to the explored bound, with any number of evaluations in flight at a restart.",
 T_SCHED + " None compares the surrogate's data with the evaluations.",
 [base, S + "srbf_strategy.py"],
 [("on_initial_completed/on_adapt_completed", base), ("sample_restart", base), ("adjust_step", S + "srbf_strategy.py")],
 [("surrogate.X, surrogate.fX", "training data"), ("ev_last", "event index of the last restart")])

prop("C07", "Convergence triggers exactly one clean restart, or ends the run",
 "When the current run has converged and restarts are enabled, exactly one new run starts: the surrogate is emptied, a fresh experimental design is generated and evaluated, and all adaptive state (sampling radius, success and failure counts, incumbent) returns to its initial value, while the global history and the budget carry on. "
 "In synchronous mode the new run starts only after all evaluations in flight have finished. "
 "No restart happens without convergence, and with restarts disabled the run terminates after convergence as soon as nothing is in flight, without generating another design.",
 ["schedules", "histories", "fault_sequences"],
 "Every position and number of convergence events and every interleaving with evaluations in flight, for user-defined strategies and the built-in ones.",
 "Convergence needs long unlucky runs; the tests' short runs rarely restart and never inspect a restart.",
 [base, S + "srbf_strategy.py", S + "ei_strategy.py", S + "lcb_strategy.py"],
 [("sample_restart", base), ("propose_action", base), ("adjust_step", S + "srbf_strategy.py"), ("sample_initial", S + "srbf_strategy.py")],
 [("converged", "current run has converged")])

prop("C08", "Synchronous batches are barriers; asynchronous workers never idle",
 "In synchronous mode new points are generated only when no evaluation is in flight and the previous batch has been handed out, always exactly one batch of the configured size, and all points of a batch are handed out without waiting for each other; a rejected point of a batch is proposed again, a failed one is not. "
 "In asynchronous mode, as long as uncommitted budget remains, every request for work is answered immediately with an evaluation, irrespective of what is in flight. "
 "(A strategy with a fixed number of search centers may instead wait while all its centers are occupied.)",
 ["schedules", "fault_sequences", "configurations"],
 "Every interleaving with batch sizes and worker counts from one to four, with rejections and failures inside a batch.",
 "The tests check only final counts; a batch that starts early or a worker that idles leaves those unchanged.",
 [base, S + "sop_strategy.py"], [("propose_action", base), ("on_adapt_reject", base), ("generate_evals", "pySOT/strategy/*.py")])

prop("C09", "Sampling radius and convergence follow the published success/failure rule",
 "A round counts as success if its best new value improves on the incumbent of the run by more than 0.1 percent (the first always does), else as failure; three consecutive successes double the sampling radius up to 0.2 and a full failure tolerance of consecutive failures halves it, and each such change restarts the count, ignoring evaluations proposed before it. "
 "The failure tolerance is max(dim, 4) per evaluation in asynchronous mode and the same divided by the batch size, rounded up, per batch in synchronous mode. "
 "The run converges exactly when failures since the last success reach four times the tolerance or the radius reaches 0.2/64.",
 ["histories", "schedules"],
 "Every sequence of improvement / insignificant improvement / no improvement outcomes and completion orders up to the explored depth, in both modes and both strategies that use the rule.",
 "The state machine has hundreds of reachable states; a test run walks one path determined by the objective and never compares the radius with the rule.",
 [S + "srbf_strategy.py", S + "dycors_strategy.py"], [("adjust_step", S + "srbf_strategy.py"), ("on_adapt_completed", S + "srbf_strategy.py"), ("sample_initial", S + "srbf_strategy.py")],
 [("sampling_radius", "current radius"), ("status", "signed success/failure streak"), ("failcount", "failures since last success")])

prop("C10", "Candidate search returns the best admissible candidates",
 "Each point selected by the candidate-search methods is one of the generated candidates and minimises the weighted sum of rescaled prediction and rescaled (inverted) distance, for its own weight, among the candidates that keep the minimum distance to all evaluated, pending and previously selected points, whenever such a candidate exists. "
 "Candidates equal the best evaluated point (or the given center) in every coordinate outside the chosen subset, perturbations use the current radius scaled by the variable ranges (at least one unit for integers) truncated to the bounds, and dynamic coordinate search perturbs at least one coordinate of each candidate, where each coordinate may be that one. "
 "A strategy uses its weights cyclically, one per new point.",
 ["inputs", "histories"],
 "All small sets of evaluated, pending and candidate points on a grid, all prediction patterns, weights and batch sizes; all coordinate subsets and perturbation masks; every generation step of explored runs.",
 "The tests check three hand-made calls on a random model; the argmin is never compared with an exhaustive search.",
 ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py", "pySOT/auxiliary_problems/candidate_uniform.py", S + "srbf_strategy.py", S + "dycors_strategy.py"],
 [("weighted_distance_merit", "pySOT/auxiliary_problems/candidate_srbf.py"), ("candidate_dycors", "pySOT/auxiliary_problems/candidate_dycors.py"), ("get_weights", S + "srbf_strategy.py")])

prop("C11", "Acquisition values, exclusion distance and give-up rules are exact",
 "Expected improvement and the lower confidence bound returned for any points equal their closed forms for the model's mean and standard deviation and the best observed value of the run, except that points closer than the minimum distance to an evaluated, pending or already selected point are excluded. "
 "The point chosen by either acquisition search is feasible, keeps that distance whenever a point the search looked at does, and attains the best acquisition value among all points the search looked at. "
 "A search gives up (which converges the run) exactly when that best value misses the configured threshold, whose default is 1e-6 times the observed value range.",
 ["inputs", "configurations"],
 "All combinations over small alphabets of means, deviations, incumbent values, distances and thresholds, batch sizes and pending points, for both acquisition functions and strategies.",
 "The tests optimise one acquisition on one model and check feasibility; thresholds and exclusion are not examined.",
 ["pySOT/auxiliary_problems/ei_merit.py", "pySOT/auxiliary_problems/ei_ga.py", "pySOT/auxiliary_problems/lcb_merit.py", "pySOT/auxiliary_problems/lcb_ga.py", S + "ei_strategy.py", S + "lcb_strategy.py"],
 [("ei_merit", "pySOT/auxiliary_problems/ei_merit.py"), ("lcb_merit", "pySOT/auxiliary_problems/lcb_merit.py"), ("generate_evals", S + "ei_strategy.py")])

prop("C12", "A crash during checkpointing never destroys the checkpoint",
 "If the process dies, or a file operation fails, at any point while a checkpoint is being written, the checkpoint file afterwards is complete and loadable and holds either the previous state or the new state; before the first successful save it is simply absent. "
 "A leftover of an interrupted save never prevents or corrupts later saves. "
 "This holds wherever the checkpoint file is located, including in another directory.",
 ["crash_points", "fault_sequences", "configurations"],
 "Every prefix of the file-system operations of a save, with every write cut short at several lengths, every single operation failing with an error, over histories of consecutive saves and leftovers, for several file locations.",
 "The one checkpoint test kills the process at an arbitrary time, which practically never falls within a save.",
 [base, "pySOT/controller/controller.py"], [("save", base), ("_save", "pySOT/controller/controller.py")])

prop("C13", "A resumed run loses no finished work and completes the budget",
 "After a crash at any moment, resuming from the checkpoint restores every evaluation that had finished, with its value, in the strategy and in the controller, and continues the run until the budget is used, never counting an evaluation twice. "
 "Design points that were waiting or in flight at the crash are still evaluated, everything else in flight is forgotten, and the surrogate, incumbent and search state carry on from their saved values. "
 "A new run refuses to start over an existing checkpoint file and a resume refuses to start without one.",
 ["crash_points", "schedules", "histories"],
 "A crash after every controller event of every explored schedule, including repeated crashes and crashes with several evaluations in flight, in all modes and for all strategies.",
 "The test crashes one serial run at one arbitrary time and checks the final counts.",
 [base, "pySOT/controller/controller.py", S + "sop_strategy.py"], [("resume", base), ("resume", "pySOT/controller/controller.py"), ("on_update", "pySOT/controller/controller.py")])

prop("C14", "Incremental RBF fitting equals fitting from scratch",
 "Whatever the order and grouping in which points are added and the model is used in between, the interpolant's predictions equal those of the regularised radial basis function model fitted from scratch to all points. "
 "With vanishing regularisation the model reproduces the transformed function values at the data points and reproduces every function in its polynomial tail. "
 "This holds for every kernel and tail, including when the incremental update is numerically impossible.",
 ["histories", "inputs"],
 "Every way to split short point sequences into additions and uses, for every kernel, tail, output transformation and regularisation, including duplicate and nearly duplicate points.",
 "The tests compare one incremental sequence of well-separated random points per kernel.",
 ["pySOT/surrogate/rbf.py", "pySOT/surrogate/kernels", "pySOT/surrogate/tails"], [("_fit", "pySOT/surrogate/rbf.py"), ("reset", "pySOT/surrogate/rbf.py")],
 [("L, U, piv", "running LU factorisation"), ("c", "coefficients")])

prop("C15", "Surrogate predictions depend only on the current data",
 "After any sequence of adding points, predicting, and resetting, a surrogate holds exactly the points added since the last reset with their original values, and its predictions equal those of a new surrogate given these points at once; no operation modifies the caller's arrays. "
 "Predictions of n points are n by 1 arrays that do not depend on the other points asked for in the same call, rescaling the domain together with all points leaves predictions unchanged, and changing the unit or origin of the (transformed) values changes predictions in the same way. "
 "The output transformation is applied to all values before each fit, and capping replaces exactly the values above the median by the median.",
 ["histories", "inputs", "configurations"],
 "Every operation sequence up to the explored length over a small set of points, for all available surrogate types, output transformations and domains.",
 "The tests use each model in one fixed sequence and never reuse it after a reset with different data.",
 ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/rbf.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/output_transformations"],
 [("add_points", "pySOT/surrogate/surrogate.py"), ("reset", "pySOT/surrogate/surrogate.py"), ("_fit", "pySOT/surrogate/*.py"), ("median_capping", "pySOT/surrogate/output_transformations/median_capping.py")])

prop("C16", "The RBF derivative is the gradient of the prediction",
 "For every model state, the derivative reported at any point equals the gradient of the model's own prediction with respect to the original (unscaled) coordinates, one row per point. "
 "This holds for every kernel and tail, on non-unit and anisotropic domains, and at and near the data points.",
 ["inputs", "configurations", "histories"],
 "A grid of evaluation points including the data points, every kernel and tail, several domains, and every short history of additions and uses.",
 "The tests compare with finite differences for a single model per kernel, on one domain.",
 ["pySOT/surrogate/rbf.py", "pySOT/surrogate/kernels", "pySOT/surrogate/tails"], [("predict_deriv", "pySOT/surrogate/rbf.py"), ("deriv", "pySOT/surrogate/kernels"), ("deriv", "pySOT/surrogate/tails")])

prop("C17", "Experimental designs keep their structure for every random outcome",
 "A Latin hypercube design puts exactly one point in each of the n equal slices of every coordinate; a symmetric one uses n equispaced levels once per coordinate and contains the mirror image of every point; a two-level factorial design consists of all corners exactly once. "
 "Given bounds, the design is mapped affinely onto them, with integer variables rounded to feasible integers; without bounds it lies in the unit cube. "
 "Among the generated alternatives the returned design has full column rank and the largest minimum distance between points; if none qualifies an error is raised.",
 ["inputs", "configurations"],
 "All outcomes of the random decisions of small designs, all sizes and dimensions up to the bound, with and without bounds and integer variables.",
 "The tests draw a few random designs and check their shape and symmetry.",
 ["pySOT/experimental_design"], [("_slhd", "pySOT/experimental_design/slhd.py"), ("generate_points", "pySOT/experimental_design/lhd.py"), ("_expdes_dist", "pySOT/experimental_design/experimental_design.py"), ("generate_points", "pySOT/experimental_design/two_factorial.py")])

prop("C18", "The genetic algorithm returns the best feasible individual it evaluated",
 "Every individual that the genetic algorithm evaluates lies within the bounds and has integer values for the integer variables. "
 "The returned individual and value are those of the best individual evaluated in the whole run, so the result is never worse than the best of the initial population. "
 "It evaluates one full (even-sized) population initially and per generation, accepts any feasible initial population of the right size and leaves the caller's arrays unchanged, and rejects infeasible ones.",
 ["inputs", "configurations"],
 "All combinations of extreme and typical random outcomes for small populations, dimensions, bounds, integer sets, initialisation methods and objective patterns including ties.",
 "The tests minimise two functions with one random stream and check the result's quality.",
 ["pySOT/utils.py"], [("GeneticAlgorithm.optimize", "pySOT/utils.py")])

prop("C19", "Non-dominated sorting and the radius rule are exact",
 "The non-domination rank of a point is one plus the number of successive non-dominated fronts that must be removed before no remaining point is strictly better in all objectives; once at least the requested number of points is ranked, the remaining points have infinite rank. "
 "The ranking does not depend on the order of the points. "
 "A point is rejected as a search center exactly when it is closer to an already chosen center than that center's radius (halved per failure) times the distance factor over the square root of the dimension.",
 ["inputs"],
 "All small sets of objective vectors over a small value alphabet including ties and duplicates, all orders, all cut-offs; all small center configurations.",
 "The tests sort one or two hand-made sets.",
 ["pySOT/utils.py"], [("nd_sorting", "pySOT/utils.py"), ("nd_front", "pySOT/utils.py"), ("nd_add", "pySOT/utils.py"), ("check_radius_rule", "pySOT/utils.py")])

prop("C20", "Pareto-based center selection follows its specification",
 "Each new point is searched around its own center: the best evaluated point, unless it is already being processed, followed by the others ordered by tabu status, up-to-date non-domination rank (value against distance to the nearest other point) and value, skipping those too close to a chosen center, with centers being processed kept until their point is done. "
 "A center whose new point does not reach the first front has its radius halved and its failure count raised; the fourth failure makes it tabu for five updates with its memory reset, and a center whose point failed or was rejected becomes available again. "
 "At most the configured number of centers exists.",
 ["schedules", "histories", "fault_sequences"],
 "Every completion order and failure placement up to the explored bound in asynchronous and synchronous mode, with batch sizes up to the number of centers.",
 "The tests run the strategy fault-free and look only at the final result.",
 [S + "sop_strategy.py", "pySOT/utils.py"], [("update_center_list", S + "sop_strategy.py"), ("adjust_memory", S + "sop_strategy.py"), ("generate_evals", S + "sop_strategy.py"), ("update_ranks", S + "sop_strategy.py")],
 [("centers", "current centers"), ("evals", "evaluated points with radius, failure and tabu counts")])

prop("C21", "Domain scaling and rounding utilities are exact",
 "Mapping to the unit box and back is affine, sends the bounds to 0 and 1, and the two maps invert each other; rescaling a vector to the unit interval maps its extremes to 0 and 1, keeps the order, and maps a constant vector to ones. "
 "Rounding changes only the integer variables, to the closest integer within the bounds, and is idempotent. "
 "None of these depends on how many points are passed at once.",
 ["inputs"],
 "All grid points over several domains, with all subsets of integer variables, and all short value vectors over a small alphabet.",
 "The tests check a handful of random points.",
 ["pySOT/utils.py"], [("round_vars", "pySOT/utils.py"), ("to_unit_box/from_unit_box", "pySOT/utils.py"), ("unit_rescale", "pySOT/utils.py")])

prop("C22", "Test problems compute their documented functions and optima",
 "Each built-in test problem returns the value of its documented formula at every point of its domain, is a finite deterministic number, and does not modify its input. "
 "The documented global minimizer lies in the domain, attains the documented minimum, and no point of the domain has a smaller value. "
 "Points of the wrong dimension are refused.",
 ["inputs", "configurations"],
 "All points of a grid on each domain, for dimensions one to three where the problem has variable dimension.",
 "The tests evaluate each problem at a single point, its minimizer.",
 ["pySOT/optimization_problems"], [("eval", "pySOT/optimization_problems/*.py")])

prop("C23", "Invalid configurations are rejected up front, valid ones accepted",
 "A strategy refuses to be constructed with a budget that is not a positive integer at least as large as the initial design, with objects that are not a problem, design or surrogate, with weights outside the unit interval, without a batch size in synchronous mode, with more batch points than search centers, or with an acquisition strategy on a model without variances. "
 "A problem is refused unless its dimension is a positive integer, its bounds are arrays of that length with each lower bound below its upper bound, and every variable is exactly one of continuous or integer. "
 "Kernels are refused with tails of too low a degree, and every configuration satisfying these rules is accepted.",
 ["configurations"],
 "All combinations of one valid and several invalid choices per argument, alone and in pairs, for every strategy, problem and interpolant.",
 "The tests construct a few invalid problems and models; combinations and strategies are not covered.",
 [base, S + "srbf_strategy.py", S + "sop_strategy.py", S + "ei_strategy.py", S + "random_strategy.py", "pySOT/utils.py", "pySOT/surrogate/rbf.py"],
 [("check_input", "pySOT/strategy/*.py"), ("check_opt_prob", "pySOT/utils.py"), ("__init__", "pySOT/surrogate/rbf.py")])

prop("C24", "Under every controller a run ends with the best completed evaluation",
 "Running a strategy under the serial, simulated-parallel or threaded controller terminates for every timing of the evaluations and every evaluation failure, and returns the completed evaluation with the smallest value. "
 "Controller and strategy then agree on which evaluations were made, with which status and value, and no more evaluations run at once than there are workers. "
 "In synchronous mode no two batches overlap in time.",
 ["schedules", "fault_sequences", "configurations"],
 "All assignments of short and long evaluation times and of failures to evaluations, up to the explored bound, for one to three workers, for all strategies; all completion orders of real worker threads within the bound.",
 "The thread-based tests sample whatever timing the machine produces; the simulated controller is not used.",
 [base, S + "sop_strategy.py", S + "random_strategy.py"], [("propose_action", base), ("on_adapt_update", base)])

prop("C25", "Adaptive regression splines surrogate matches its data",
 "Before every prediction that follows a change, the multivariate adaptive regression splines surrogate fits its library's model to exactly the points added since the last reset, mapped to the unit box, with all values transformed. "
 "Predictions of n points are n by 1 arrays that do not depend on the other points asked for in the same call nor on how the data were grouped when added, and no operation modifies the caller's arrays.",
 ["histories", "configurations"], "Every short sequence of additions, predictions and resets, for several dimensions, domains and transformations, with a stand-in for the optional library.",
 "The tests skip this surrogate, its library is not installed.",
 ["pySOT/surrogate/mars.py"], [("_fit", "pySOT/surrogate/mars.py"), ("predict", "pySOT/surrogate/mars.py")])

prop("C26", "Dynamic coordinate search perturbs the published share of coordinates",
 "Whenever DYCORS or the Pareto-based strategy generates candidates, each coordinate of each candidate is perturbed independently with probability min(20/dim, 1) * (1 - ln(n + 1) / ln(budget - design size)), but at least 1/dim, where n is the number of known, completed and pending evaluations beyond one design; a candidate for which no coordinate is drawn gets exactly one, drawn at random. "
 "The share thus shrinks with every evaluation over the whole budget and does not start over at a restart, whereas stochastic radial basis function search always perturbs every coordinate. "
 "Every search generates the configured number of candidates, by default 100 per dimension.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "Every generation under every schedule within the bound, serial, synchronous and asynchronous, with pending evaluations, failures, known extra points and restarts, in low and high dimensions.",
 "No test looks at the candidates that a strategy generates; a wrong share only makes the search less efficient.",
 [S + "dycors_strategy.py", S + "sop_strategy.py", S + "srbf_strategy.py", "pySOT/auxiliary_problems/candidate_dycors.py"],
 [("generate_evals", S + "dycors_strategy.py"), ("generate_evals", S + "sop_strategy.py"), ("candidate_dycors", "pySOT/auxiliary_problems/candidate_dycors.py")],
 [("X, Xpend, num_exp, max_evals", "what the share is computed from")])

prop("C27", "Regression surrogates compute the fit of their model",
 "The polynomial surrogate's predictions are those of the ridge regression (unit penalty, free intercept) of the transformed values on all monomials up to the configured degree, including cross terms, of the coordinates mapped to the unit box. "
 "The Gaussian process surrogate's predictions and deviations are the posterior mean and standard deviation of the given process for the transformed values, standardised by their mean and standard deviation and scaled back. "
 "By default the process has a squared exponential kernel whose hyperparameters are fitted to the current data and are never less likely than those it starts from.",
 ["inputs", "configurations", "histories"],
 "All multisets of up to four lattice points with all values over an alphabet, including repeated points and constant values, for several degrees, kernels, domains, units and output transformations.",
 "The tests only require a small error for one smooth function on the unit box.",
 ["pySOT/surrogate/poly.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/surrogate.py"],
 [("_fit", "pySOT/surrogate/poly.py"), ("_fit", "pySOT/surrogate/gp.py"), ("predict", "pySOT/surrogate/gp.py"), ("predict_std", "pySOT/surrogate/gp.py")],
 [("_mu, _sigma", "mean and deviation of the transformed values")])

prop("C28", "Strategies, surrogates and designs in one process are independent",
 "Two optimization runs in the same process behave, step by step, exactly as each of them does alone in a new process, whatever is done with the other one before or in between, and likewise two surrogates, experimental designs, genetic algorithms or built-in problems. "
 "This also holds if the runs share the optimization problem or the experimental design, or if RBF surrogates share kernel and tail objects. "
 "Given the same random numbers, using a design or genetic algorithm object again gives what a new object would give.",
 ["schedules", "histories", "configurations"],
 "All ways to interleave the controller events of two runs, of the same and of different strategies and modes, within the deviation bound, and one after the other; runs that differ in a single respect; all interleavings of operation sequences on two surrogates of every pair of types; all sequences of calls to designs and genetic algorithms; all pairs of problems.",
 "Every test creates its own objects and compares nothing with another run, so that state kept in a class, a module or a default argument goes unnoticed.",
 [base, S + "srbf_strategy.py", S + "sop_strategy.py", S + "ei_strategy.py", S + "lcb_strategy.py", "pySOT/surrogate/surrogate.py", "pySOT/surrogate/rbf.py", "pySOT/experimental_design", "pySOT/utils.py"],
 [("__init__", base), ("__init__", S + "srbf_strategy.py"), ("__init__", "pySOT/surrogate/surrogate.py"), ("reset", "pySOT/surrogate/rbf.py"), ("generate_points", "pySOT/experimental_design"), ("GeneticAlgorithm", "pySOT/utils.py")])

prop("C29", "Arrays handed over by the caller are left as they were",
 "No strategy changes the problem's bounds and index sets, the extra points and values or the weights it was given, and the parameters and value in the record of an evaluation stay what they were when it was proposed and completed. "
 "No candidate search, acquisition function, scaling utility, sorting or radius rule, experimental design, genetic algorithm, built-in problem or surrogate changes the arrays it is called with, whatever their memory layout or number type, and changing a returned array does not change them either. "
 "The utilities, problems and surrogate predictions return the same for the same arguments when called again.",
 ["inputs", "schedules", "configurations"],
 "All strategies under every schedule within the bound; all combinations of dimension, memory layout, number type, integer set, pending points, subset and weights for the functions; every surrogate type, transformation and domain.",
 "The tests build new arrays for each call and never look at them afterwards.",
 [base, "pySOT/utils.py", "pySOT/auxiliary_problems", "pySOT/surrogate", "pySOT/experimental_design", "pySOT/optimization_problems"],
 [("candidate_srbf", "pySOT/auxiliary_problems/candidate_srbf.py"), ("round_vars (works in place on the caller's copy)", "pySOT/utils.py"), ("nd_sorting", "pySOT/utils.py"), ("add_points", "pySOT/surrogate/surrogate.py"), ("median_capping", "pySOT/surrogate/output_transformations/median_capping.py")])

prop("C30", "Synchronous runs do not depend on the order of completion",
 "In synchronous mode the points that a strategy proposes are the same, in the same order, and a run evaluates the same points and finds the same best value, whatever the order in which the evaluations of the design and of every batch finish, whatever the number of workers and however their completions are interleaved with requests for work. "
 "Rejected proposals and failing evaluations of design points change the order in which points are proposed but not which points are evaluated. "
 "Random sampling proposes the same sequence of points in every schedule.",
 ["schedules", "configurations"],
 "All orders of completion, interleavings and rejections within the deviation bound over complete runs of every strategy, for batches of two to four points and one to four workers, with restarts, integers and extra points, each compared with the sequential run.",
 "A test carries out one run with whatever order the threads produce and compares it with no other.",
 [base, S + "srbf_strategy.py", S + "sop_strategy.py", S + "ei_strategy.py", S + "lcb_strategy.py", S + "random_strategy.py"],
 [("propose_action", base), ("on_adapt_completed", base), ("adjust_step", S + "srbf_strategy.py"), ("adjust_memory", S + "sop_strategy.py")])

prop("C31", "Runs do not depend on the units of variables and values",
 "If all variables are measured in another unit or from another origin, or objective values in another unit, every strategy proposes, given the same random numbers and events, the same points in the new units, and restarts at the same moments. "
 "Tolerances that the user gives are in the user's units; the default ones follow the domain and the values, except for the candidate searches' smallest distance of 1e-3 between points, which is absolute. "
 "Sampling radii are fractions of the domain and stay the same.",
 ["schedules", "configurations", "inputs"],
 "Every schedule within the bound, with failures, rejections and restarts, for every strategy and mode, carried out in two systems of units: domains scaled up and down and shifted, values scaled by up to 4**12, with integers (shifted), extra points and user-given tolerances.",
 "The tests look at one domain per problem and never compare two runs.",
 [base, S + "srbf_strategy.py", S + "dycors_strategy.py", S + "sop_strategy.py", S + "ei_strategy.py", S + "lcb_strategy.py", "pySOT/auxiliary_problems", "pySOT/surrogate/rbf.py", "pySOT/utils.py"],
 [("adjust_step", S + "srbf_strategy.py"), ("update_F", S + "sop_strategy.py"), ("generate_evals", S + "ei_strategy.py"), ("generate_evals", S + "lcb_strategy.py"), ("candidate_srbf", "pySOT/auxiliary_problems/candidate_srbf.py"), ("GeneticAlgorithm", "pySOT/utils.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import re
    for p in P:
        n = len(re.findall(r"[.?!](\s|$)", re.sub(r"\d\.\d|e\.g\.|i\.e\.", "", p["statement"])))
        if n > 3 or len(p["title"]) > 80: print(p["id"], n, len(p["title"]))
