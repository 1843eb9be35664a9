"""Registry: how each property is decided."""
from . import acq, cand, ckpt, ctrl, design, dyc, ga, indep, probs, pure, radius, regr, relate, resume, sched, sop, surr, util, valid

SCHED_RULE = ("executions of the real strategies under every sequence of controller actions (propose+accept, propose+reject, complete/kill/cancel any "
              "evaluation in flight, strategy-specific convergence choices) that deviates from the default schedule at most as often as the configuration's bound; "
              "distinct_nontrivial counts distinct final histories (order and fate of all evaluations, restarts, proposals) per configuration")
SCHED_TECH = ("stateless model checking of the real code: every controller schedule within a deviation bound, by prefix replay, "
              "with monitors that compare the strategy with the driver's ground truth after every event")
SCHED_ASSUME = ["evaluations are independent of the schedule; objective values are deterministic",
                "asynchronous designs have enough points to fit the surrogate while W of them are in flight (documented precondition)"]


def S(mons, focus, only=None):
    return lambda tier: sched.jobs(mons, tier, focus, only)


def m(level, jobs, rule=SCHED_RULE, assumptions=SCHED_ASSUME, technique=""):
    return dict(level=level, jobs=jobs, rule=rule, assumptions=assumptions, technique=technique)


CHECKS = {}
CHECKS["C01"] = m("model_checking", S(["budget"], r"^tiny-async$|tiny-async-conv$|norestart|over|exact|tiny-sync-b2$|random$|conv3"))
CHECKS["C02"] = m("model_checking", S(["ledger"], r"tiny-async-w3|dup|tiny-async-conv$|sop-async$|srbf-async$|random|tiny-sync-b2$|tiny-async-extras$"))
CHECKS["C03"] = m("model_checking", S(["progress"], r"^sop|tiny-sync-b2-w3|tiny-sync-b2-d3|^srbf-|norestart|tiny-async-7|ei-|lcb-"))
CHECKS["C05"] = m("model_checking", S(["initial"], r"extras|tiny-async$|tiny-sync-b3|exact|tiny-async-conv$|tiny-sync-conv|tiny-async-known"))
CHECKS["C06"] = m("model_checking", S(["training"], r"conv3|extras|known|srbf|tiny-async-conv$|tiny-sync-conv|dycors-async"))
CHECKS["C07"] = m("model_checking", S(["restart"], r"conv|norestart|restart", lambda c: c["strat"] != "random"))
CHECKS["C08"] = m("model_checking", S(["batches"], r"-sync|^sop-sync|tiny-async-7"))

INPUT_ASSUME = ["the enumerated inputs and random outcomes are representative of the continuous domains they discretise (small scope)"]
INPUT_TECH = "exhaustive enumeration of a bounded input space on the real code (free choice points of the exploration engine) against a brute-force oracle"
CHECKS["C04"] = m("model_checking", lambda t: sched.feasible_jobs(t) + cand.grid_jobs(t, True) + sched.jobs(["feasible"], t, "^$"),
                  rule=SCHED_RULE + "; plus every combination of candidate generator, integer set, coordinate subset, incumbent position, radius and random-number extreme",
                  technique=SCHED_TECH + "; random number generator interposed to return extreme outcomes",
                  assumptions=SCHED_ASSUME + ["bounds of integer variables are integers"])
CHECKS["C10"] = m("model_checking", lambda t: cand.grid_jobs(t) + cand.merit_jobs(t) + cand.strategy_jobs(t),
                  rule="all combinations of candidate sets, predictions, evaluated and pending points, weights and minimum distances on small grids; of generator, subset, integers, incumbent, radius and random extreme; "
                       "and every generation of SRBF/DYCORS runs under all schedules within the deviation bound; non-trivial: distinct combination or final history",
                  technique="exhaustive enumeration of selection problems against a brute-force arg-min oracle, and stateless exploration of strategy schedules with recorded candidates and random draws",
                  assumptions=INPUT_ASSUME + ["truncated normal draws go through scipy.stats.truncnorm (otherwise their parameters are not checked)"])
CHECKS["C09"] = m("model_checking", radius.jobs,
                  rule="executions of the real strategies in lockstep with an explicit model of the rule: all value sequences (no, tiny, sufficient improvement) to a depth, and all sequences and controller schedules within the "
                       "deviation bound of long default sequences (to convergence and restart), for all dimensions 1-7 and batch sizes; states are model states; distinct_nontrivial counts distinct final histories",
                  technique="explicit-state model of the radius/convergence rule, conformance-checked after every event of every explored execution of the real code",
                  assumptions=SCHED_ASSUME + ["a synchronous batch whose last event is a failure is left unspecified (pruned)"])
CHECKS["C11"] = m("model_checking", acq.jobs,
                  rule="all combinations of means, deviations, incumbents, distances for the closed forms; searches over problems, pending points, minimum distances, random modes and thresholds on both sides of the attained value; "
                       "every generation of EI/LCB runs under all schedules within the deviation bound",
                  technique="exhaustive enumeration against independent closed forms, and stateless exploration of strategy schedules with recorded acquisition evaluations",
                  assumptions=INPUT_ASSUME + ["the genetic algorithm is run with 8 individuals and 2 generations"])
CHECKS["C12"] = m("fault_enumeration", ckpt.jobs,
                  rule="every file operation of a save (as observed at the C library) is made the last one before a crash, torn at several lengths, failed once or from there on, or cut short; for several locations, "
                       "with and without an earlier checkpoint, and for two interrupted saves in a row; every combination is distinct and non-trivial",
                  technique="exhaustive enumeration of crash points, torn writes and failing file operations on the real code and file system (LD_PRELOAD fault injector, one forked process per case)",
                  assumptions=["process crashes only: data handed to the kernel survives (no power loss)"])
CHECKS["C12"]["preload"] = True
CHECKS["C13"] = m("model_checking", resume.jobs,
                  rule="executions of the real strategies under the real CheckpointController with a crash (with or without termination callbacks) after any controller event, up to three crashes per run, under all "
                       "schedules within the deviation bound; and runs with POAP's serial and simulated controllers crashing in every evaluation; distinct_nontrivial counts distinct final histories",
                  technique="stateless model checking of the real code including real checkpoint files: every schedule and crash point within a deviation bound, with rollback of the driver's ground truth to the checkpoint",
                  assumptions=SCHED_ASSUME + ["a crash happens between controller events (crashes inside a save: C12)"])
CHECKS["C14"] = m("model_checking", surr.inc_jobs,
                  rule="every way to split point sequences (generic, duplicate, nearly duplicate, gridded, degenerate) into additions with no use, a prediction or a derivative in between, for every kernel/tail pair and a "
                       "neighbourhood of the default regularisation, transformation, values, domain and dimension; each history is distinct and non-trivial",
                  technique=INPUT_TECH + " (operation sequences to a depth; oracle: dense solve of the documented system)", assumptions=INPUT_ASSUME + ["comparisons are skipped where the system's condition number makes 1e-2 accuracy impossible"])
CHECKS["C15"] = m("model_checking", surr.life_jobs,
                  rule="every sequence of additions (point, vector, column form), predictions, derivatives and resets up to the depth, for every surrogate type, transformation and domain; every vector over an alphabet for capping; "
                       "each sequence is distinct and non-trivial",
                  technique=INPUT_TECH + " (operation sequences to a depth; oracle: new model with the same data)", assumptions=INPUT_ASSUME + ["Gaussian process with fixed hyperparameters, or optimised from a fixed start"])
CHECKS["C16"] = m("exploration", surr.grad_jobs,
                  rule="every way to split point sequences into additions and uses; derivative at all points of a grid, at the data points and near them, for every kernel/tail pair and a neighbourhood of the default configuration; "
                       "each history is distinct and non-trivial",
                  technique=INPUT_TECH + " (oracles: difference quotients of the model's own predictions and closed form)", assumptions=INPUT_ASSUME + ["the linear kernel is not differentiable at the data points (not compared there)"])
CHECKS["C17"] = m("model_checking", design.jobs,
                  rule="every outcome of the random decisions (coin flips, permutations, jitter extremes) of small designs, every pair/triple of alternatives for the choice of the best, with all forms of bounds and integer sets; "
                       "every size and dimension up to a bound with ordinary random numbers; each sequence of outcomes is distinct and non-trivial",
                  technique="exhaustive enumeration of the outcomes of an interposed random number generator on the real code, against structural oracles",
                  assumptions=["bounds of integer variables are integers", "random decisions go through the functions of numpy.random (otherwise they are sampled)"])
CHECKS["C18"] = m("exploration", ga.jobs,
                  rule="all combinations of extreme and typical outcomes of the random draws (whole-array patterns) that deviate from the default at most as often as the bound, for all kinds of initial population, objectives, integer sets and "
                       "population sizes; every size/violation of a given initial population; each sequence of outcomes is distinct and non-trivial",
                  technique="bounded exhaustive enumeration of the outcomes of an interposed random number generator on the real code, against the recorded evaluations",
                  assumptions=["bounds of integer variables are integers"])
CHECKS["C19"] = m("exploration", sop.sort_jobs,
                  rule="all sequences of n vectors over a small alphabet (with ties and duplicates) for several n, numbers of objectives and cut-offs; all permutations of structured sets; the radius rule for all combinations of radii, failure "
                       "counts, numbers of centers and points just inside and outside; one distinct case per first-two-vectors (or per combination) subtree",
                  technique=INPUT_TECH, assumptions=["points exactly at the radius are compared only when no rounding is involved"])
CHECKS["C20"] = m("model_checking", sop.jobs,
                  rule="executions of the real SOP strategy in lockstep with an explicit model of its memory (tabu, failures, radii) and center selection: all sequences of worse/best/middling values to a depth, and all sequences and "
                       "controller schedules within the deviation bound of longer default sequences, serial, asynchronous and synchronous; states are model states; distinct_nontrivial counts distinct final histories with their values",
                  technique="explicit-state model of SOP's center selection and memory, conformance-checked on every generation of every explored execution of the real code through the interposed random number generator (centers and radii of all "
                            "truncated normal draws)",
                  assumptions=SCHED_ASSUME + ["truncated normal draws go through scipy.stats.truncnorm (otherwise centers are not checked)"])
CHECKS["C21"] = m("exploration", util.jobs,
                  rule="all combinations of domains and points on grids with bounds, interior, near-bound and outside points, for 1-3 dimensions; all vectors up to a length over an alphabet of values; all bounds, subsets of integer variables and "
                       "points around the rounding thresholds; distinct cases are distinct domains (subsets), each with all its points",
                  technique=INPUT_TECH.replace("a brute-force oracle", "exact rational arithmetic"), assumptions=["bounds of integer variables are integers"])
CHECKS["C22"] = m("exploration", probs.jobs,
                  rule="all points of product grids (1-6 dimensions), of lines along every axis, of every pair of coordinates, around the documented minimizer and of dense grids in up to 3 dimensions, for every built-in problem and several "
                       "dimensions, and all wrong dimensions; distinct cases are distinct problems and dimensions",
                  technique=INPUT_TECH.replace("a brute-force oracle", "independent formulas"), assumptions=["comparison with a relative tolerance of 1e-9 (2e-4 per dimension for Schwefel, whose constant is documented with several precisions)"])
CHECKS["C23"] = m("exploration", valid.jobs,
                  rule="for every strategy, all combinations of at most `bound` deviations from a valid configuration (problem, design, surrogate, budget, mode and batch size, weights, centers, extra points); for problems all combinations of "
                       "dimension, bound forms and relations and all assignments of variables; for surrogates all pairs of kernels and tails; every combination is distinct",
                  technique="exhaustive enumeration of configurations (choice points of the exploration engine, deviation bounded) against an independent statement of the rules",
                  assumptions=["a refusal is any exception raised by the constructor (or by check_opt_prob)"])
CHECKS["C24"] = m("model_checking", ctrl.jobs,
                  rule="complete runs of the real strategies under POAP's real controllers: serial with every pattern of failures, simulated with every assignment of durations and failures, and threaded with real threads under every thread "
                       "schedule (scheduling points: all queue operations, yields, starts and ends of evaluations), each within the deviation bound; distinct_nontrivial counts distinct orders and outcomes of the evaluations",
                  technique="stateless model checking of the real multi-threaded code under a controlled scheduler with a deviation (preemption) bound; enumeration of durations and failures in simulated time",
                  assumptions=["worker threads interact with the controller only through their queues", "asynchronous designs have enough points to fit the surrogate while W of them are in flight (documented precondition)"])
CHECKS["C25"] = m("exploration", surr.mars_jobs,
                  rule="every sequence of additions (point, vector, column form), predictions and resets up to the depth, for several dimensions, transformations and domains; each sequence is distinct and non-trivial",
                  technique=INPUT_TECH + " (operation sequences to a depth; oracle: closed form of the stand-in fitted to the current data, and a new model)",
                  assumptions=INPUT_ASSUME + ["the optional package py-earth is not installed: a stand-in with its calling conventions takes its place, so only pySOT's own code is checked; derivatives are not"])
CHECKS["C26"] = m("model_checking", dyc.jobs,
                  rule=SCHED_RULE.replace("distinct_nontrivial counts", "the uniform draws that select coordinates are replaced by a known well spread set, so the number of perturbed coordinates is determined; distinct_nontrivial counts"),
                  technique=SCHED_TECH + "; random number generator interposed",
                  assumptions=SCHED_ASSUME + ["coordinates are selected by uniform draws of one array with a row per candidate (otherwise only the number of candidates is checked)", "the budget exceeds the design by at least two"])
CHECKS["C27"] = m("exploration", regr.jobs,
                  rule="all multisets of n lattice points with all (quick: every k-th) value vectors over an alphabet, for every degree or kernel, domain and output transformation; default Gaussian process on a family of data sets; distinct cases are distinct multisets per configuration",
                  technique=INPUT_TECH.replace("a brute-force oracle", "closed forms by dense solves"), assumptions=INPUT_ASSUME + ["covariances of scikit-learn kernels are trusted for the default process"])
CHECKS["C28"] = m("model_checking", indep.jobs,
                  rule="executions of two real strategies whose controller events are interleaved in all ways that deviate from one after the other (or from strict alternation) at most as often as the bound, in a process forked from a pristine "
                       "one, compared event by event with the same events alone; all interleavings of pairs of operation sequences on two surrogates; all sequences of calls to several designs or genetic algorithms; distinct cases are "
                       "distinct interleavings",
                  technique="stateless model checking of the real code: all interleavings of two users within a deviation bound, against the recorded behaviour of each user alone in a pristine process",
                  assumptions=SCHED_ASSUME + ["each user has its own stream of random numbers (swapped by the harness on every switch)"])
CHECKS["C29"] = m("exploration", pure.jobs,
                  rule=SCHED_RULE + "; plus all combinations of dimension, memory layout, number type, integer set, pending points, coordinate subset and weights for the functions, models, designs and problems",
                  technique="monitor over every controller schedule within a deviation bound, and " + INPUT_TECH.replace("against a brute-force oracle", "comparing all arguments byte by byte before and after"),
                  assumptions=["round_vars and nd_add work in place by design, and kernels may change the distances they are given"])
CHECKS["C30"] = m("model_checking", relate.order_jobs,
                  rule="complete synchronous runs under all sequences of controller actions (propose, reject, complete any evaluation in flight) that deviate from the default at most as often as the bound, for one to four workers; each run is "
                       "compared with the one in which evaluations are carried out one by one; distinct_nontrivial counts distinct final histories",
                  technique="stateless model checking of a relation between executions: every schedule of the real code within a deviation bound against the sequential schedule (confluence)",
                  assumptions=["objective values are distinct and predictions do not depend on the order of the data (a double with a canonical order of summation; also real RBF models, whose rounding errors are far below the differences between candidates)",
                               "which evaluations fail does not depend on the schedule"])
CHECKS["C31"] = m("model_checking", relate.units_jobs,
                  rule="runs of the real strategies under all sequences of controller actions that deviate from the default at most as often as the bound, each carried out twice, with the same choices and random numbers, in two systems of units; "
                       "distinct_nontrivial counts distinct final histories",
                  technique="stateless model checking of a relation between executions: every schedule of the real code within a deviation bound, in lockstep with the same schedule in other units",
                  assumptions=["all variables are measured in the same unit (distances are); units are powers of two, so that scaling itself is exact", "domains are large compared with the absolute default distance of 1e-3 between points",
                               "integer variables are shifted, not scaled"])
