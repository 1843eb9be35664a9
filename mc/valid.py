"""C23: combinations of valid and invalid arguments: refused at construction exactly when a rule is broken."""
import itertools

import numpy as np

from .core import Violation, require


def problem_class():
    from pySOT.optimization_problems import OptimizationProblem

    class P(OptimizationProblem):
        def __init__(self, dim, lb, ub, cont, ints):
            self.dim, self.lb, self.ub, self.cont_var, self.int_var, self.info = dim, lb, ub, cont, ints, ""

        def eval(self, x):
            return float(np.sum(x))

    return P


def attempt(f):
    """(result, None) or (None, exception)"""
    try:
        return f(), None
    except Exception as e:
        return None, e


def check(ok, made, err, what):
    if ok:
        if err is not None:
            raise Violation("valid configuration refused: %s (%s: %s)" % (what, type(err).__name__, err))
    else:
        require(err is not None, "invalid configuration accepted: {}", what)


# problems ---------------------------------------------------------------------------------------------------------

DIMS = [(2, True), (np.int64(2), True), (1, None), (3, None), (0, False), (-2, False), (2.0, False), ("2", False), (None, False)]


def prob_bounds(ch, cfg):
    """Dimension and bounds."""
    from pySOT.utils import check_opt_prob

    P = problem_class()
    dim, dok = ch.pick(DIMS, "dim", free=True)
    low = ch.pick(["lo", "eq", "hi", "mixed", "nan"], "relation", free=True)
    form = [ch.pick(["array", "list", "tuple", "scalar", "short", "long", "none"], "form", free=True) for _ in range(2)]
    lo, hi = np.array([-1.0, 0.0]), np.array([2.0, 5.0])
    if low == "eq":
        hi[1] = lo[1]
    elif low == "hi":
        lo, hi = hi, lo
    elif low == "mixed":
        hi[0] = -3.0
    elif low == "nan":
        lo[1] = np.nan

    def shape(v, f):
        return {"array": v, "list": v.tolist(), "tuple": tuple(v.tolist()), "scalar": float(v[0]), "short": v[:1], "long": np.append(v, v[-1]), "none": None}[f]

    a, b = shape(lo, form[0]), shape(hi, form[1])
    p = P(dim, a, b, None, None)
    n = 0
    if isinstance(dim, (int, np.integer)) and dim > 0:
        n = int(dim)
    p.cont_var, p.int_var = np.arange(max(n, 2) if n == 0 else n), np.array([])
    ok = n > 0 and all(isinstance(v, np.ndarray) and len(v) == n for v in (a, b)) and all(a[i] < b[i] for i in range(n))
    made, err = attempt(lambda: check_opt_prob(p))
    check(ok, made, err, "problem with dim=%r, lb=%r, ub=%r" % (dim, a, b))
    count(ch, ok, err, cfg["name"], dim, low, form)


def count(ch, ok, err, *key):
    ch.stats.case(*key)
    ch.stats.count("accepted" if ok else "refused")
    if err is not None:
        ch.stats.count("refused with " + type(err).__name__)


def prob_vars(ch, cfg):
    """Every assignment of the variables to integer, continuous, both or neither, and stray indices."""
    from pySOT.utils import check_opt_prob

    dim = cfg["dim"]
    P = problem_class()
    kinds = [ch.pick("cibn", "kind", free=True) for _ in range(dim)]
    stray = ch.pick([None, ("c", dim), ("i", dim), ("c", -1), ("i", -1), ("c", dim + 3), ("c", "twice"), ("i", "twice")], "stray", free=True)
    order = ch.choose(2, "order", free=True)
    empty = ch.pick(["array", "int", "list"], "empty", free=True)
    cont = [i for i, k in enumerate(kinds) if k in "cb"]
    ints = [i for i, k in enumerate(kinds) if k in "ib"]
    twice = False
    if stray:
        v = cont if stray[0] == "c" else ints
        twice = stray[1] == "twice"
        if not twice:
            v.append(stray[1])
        elif not v or all(k in "ci" for k in kinds):  # an index given twice while nothing is missing: unspecified
            return
        else:  # an index given twice does not make up for a missing one
            v.append(v[0])
    if order:
        cont, ints = cont[::-1], ints[::-1]

    def arr(v):
        if not v:
            return {"array": np.array([]), "int": np.array([], dtype=int), "list": []}[empty]
        return np.array(v)

    p = P(dim, np.zeros(dim), np.ones(dim) * 3, arr(cont), arr(ints))
    ok = all(k in "ci" for k in kinds) and not stray
    made, err = attempt(lambda: check_opt_prob(p))
    check(ok, made, err, "problem with dim=%d, cont_var=%r, int_var=%r" % (dim, p.cont_var, p.int_var))
    count(ch, ok, err, cfg["name"], kinds, stray, order, empty)
    if dim < 3:
        from pySOT.strategy import RandomStrategy

        made, err = attempt(lambda: RandomStrategy(3, p))
        check(ok, made, err, "random strategy for a problem with dim=%d, cont_var=%r, int_var=%r" % (dim, p.cont_var, p.int_var))


def prob_mixed(ch, cfg):
    """A violated bound of any variable, whatever its kind."""
    from pySOT.strategy import RandomStrategy
    from pySOT.utils import check_opt_prob

    dim = cfg["dim"]
    kinds = [ch.pick("ci", "kind", free=True) for _ in range(dim)]
    at = ch.choose(dim + 1, "variable", free=True)
    how = ch.pick(["equal", "swapped", "nan", "nan2"], "violation", free=True)
    lo, hi = np.arange(dim) * 2.0 - 3, np.arange(dim) * 3.0 + 1
    if at < dim:
        lo[at], hi[at] = {"equal": (lo[at], lo[at]), "swapped": (hi[at], lo[at]), "nan": (np.nan, hi[at]), "nan2": (lo[at], np.nan)}[how]
    c, i = [j for j in range(dim) if kinds[j] == "c"], [j for j in range(dim) if kinds[j] == "i"]
    p = problem_class()(dim, lo, hi, np.array(c, dtype=int), np.array(i, dtype=int))
    what = "problem with lb=%r, ub=%r, cont_var=%r, int_var=%r" % (lo.tolist(), hi.tolist(), c, i)
    made, err = attempt(lambda: check_opt_prob(p))
    check(at == dim, made, err, what)
    made, err2 = attempt(lambda: RandomStrategy(3, p))
    check(at == dim, made, err2, "random strategy for a " + what)
    count(ch, at == dim, err, cfg["name"], kinds, at, how)


class NotAProblem:
    dim, lb, ub, cont_var, int_var, info = 2, np.zeros(2), np.ones(2) * 3, np.arange(2), np.array([]), ""

    def eval(self, x):
        return 0.0


class NotADesign:
    dim, num_pts = 2, 6

    def generate_points(self, lb=None, ub=None, int_var=None):
        return np.array([[0.5, 0.1], [0.1, 2.0], [1.5, 1.1], [2.5, 0.7], [1.1, 2.9], [2.2, 2.1]])


class NotASurrogate:
    num_pts = 0
    X = _X = np.empty((0, 2))
    fX = np.empty((0, 1))

    def reset(self):
        pass

    def add_points(self, xx, fx):
        pass

    def predict(self, xx):
        return np.zeros((np.atleast_2d(xx).shape[0], 1))

    predict_std = predict


GOODW = [None, [0.3, 0.5], [0.0, 1.0], np.array([0.2, 0.9]), [1.0], np.array([0.0])]
BADW = [[1.1], [-0.1], [0.3, 1.0 + 1e-9], [0.3, -1e-9, 0.5], np.array([0.5, 2.0]), [0.5, float("nan")], np.array([[-0.5]]), "0.5", 0.5, [0.2, "a"], [None]]


def strategy(ch, cfg):
    """Any combination of up to `bound` deviations from a valid configuration."""
    from pySOT import strategy as st
    from pySOT.experimental_design import SymmetricLatinHypercube
    from pySOT.surrogate import GPRegressor, PolyRegressor, RBFInterpolant

    name = cfg["strategy"]
    P = problem_class()
    lb, ub = np.zeros(2), np.ones(2) * 3
    bad = []
    n0 = 6
    # problem
    good = {"cont": lambda: P(2, lb, ub, np.arange(2), np.array([])), "mixed": lambda: P(2, lb, ub, np.array([1]), np.array([0])), "int": lambda: P(2, lb, ub, np.array([]), np.array([1, 0]))}
    badp = {"no problem": NotAProblem, "class": lambda: P, "none": lambda: None, "array": lambda: np.zeros(2), "bounds": lambda: P(2, ub, lb, np.arange(2), np.array([])), "equal": lambda: P(2, lb, np.array([3.0, 0.0]), np.arange(2), np.array([])),
            "list": lambda: P(2, [0.0, 0.0], ub, np.arange(2), np.array([])), "short": lambda: P(2, lb[:1], ub, np.arange(2), np.array([])), "both": lambda: P(2, lb, ub, np.arange(2), np.array([1])),
            "neither": lambda: P(2, lb, ub, np.array([0]), np.array([])), "dim": lambda: P(0, np.zeros(0), np.zeros(0), np.array([]), np.array([])), "float dim": lambda: P(2.0, lb, ub, np.arange(2), np.array([])),
            "stray": lambda: P(2, lb, ub, np.arange(3), np.array([]))}
    k = ch.pick(list(good) + list(badp), "problem")
    prob = (good.get(k) or badp.get(k))()
    bad += ["problem (%s)" % k] if k in badp else []
    # design
    k = ch.pick(["slhd", "duck", "none", "array", "class"], "design")
    des = {"slhd": lambda: SymmetricLatinHypercube(dim=2, num_pts=n0), "duck": NotADesign, "none": lambda: None, "array": lambda: np.zeros((6, 2)), "class": lambda: SymmetricLatinHypercube}[k]()
    bad += ["design (%s)" % k] if k != "slhd" else []
    # surrogate
    acq = name in ("EIStrategy", "LCBStrategy")
    order = ["gp", "rbf", "poly"] if acq else ["rbf", "gp", "poly"]
    k = ch.pick(order + ["duck", "none", "class"], "surrogate")
    sur = {"gp": lambda: GPRegressor(dim=2, lb=lb, ub=ub), "rbf": lambda: RBFInterpolant(dim=2, lb=lb, ub=ub), "poly": lambda: PolyRegressor(dim=2, lb=lb, ub=ub),
           "duck": NotASurrogate, "none": lambda: None, "class": lambda: RBFInterpolant}[k]()
    bad += ["surrogate (%s)" % k] if k not in (["gp"] if acq else order) else []
    # budget
    b, ok = ch.pick([(20, 1), (n0, 1), (np.int64(n0), 1), (n0 + 1, 1), (n0 - 1, 0), (1, 0), (0, 0), (-3, 0), (20.0, 0), (np.float64(20), 0), ("20", 0), (None, 0), (float("inf"), 0), (np.int32(n0 - 1), 0), ([20], 0)], "budget")
    bad += ["budget %r" % (b,)] if not ok else []
    # mode
    nc = None
    mode = ch.pick([(True, None), (False, 1), (False, 2), (False, 4), (False, None), (True, 3), (False, 5)], "mode")
    kw = dict(asynchronous=mode[0], batch_size=mode[1])
    bad += ["no batch size"] if mode == (False, None) else []
    if name in ("SRBFStrategy", "DYCORSStrategy"):
        w, ok = ch.pick([(w, 1) for w in GOODW] + [(w, 0) for w in BADW], "weights")
        bad += ["weights %r" % (w,)] if not ok else []
        if w is not None:
            kw["weights"] = w
        kw["num_cand"] = ch.pick([None, 7], "num_cand")
    if name == "SOPStrategy":
        nc = ch.pick([None, 5, 8, 4], "ncenters")
        if nc is not None:
            kw["ncenters"] = nc
        if not mode[0] and mode[1] is not None and mode[1] > (nc or 4):
            bad.append("%d batch points, %d centers" % (mode[1], nc or 4))
    ex = ch.pick(["none", "unknown", "known", "mixed"], "extra points")
    if ex != "none":
        kw["extra_points"] = np.array([[1.0, 2.0], [2.0, 0.0]])
        if ex != "unknown":
            kw["extra_vals"] = np.array([[1.0], [np.nan if ex == "mixed" else 2.0]])
    kw["use_restarts"] = ch.pick([True, False], "restarts")
    what = "%s(max_evals=%r, %s) with %s" % (name, b, ", ".join("%s=%r" % i for i in kw.items()), "; ".join(bad) or "nothing wrong")
    made, err = attempt(lambda: getattr(st, name)(max_evals=b, opt_prob=prob, exp_design=des, surrogate=sur, **kw))
    check(not bad, made, err, what)
    if not bad:
        a = made.propose_action()
        require(a is not None and a.action == "eval" and np.shape(a.args[0]) == (2,), "{}: does not start with an evaluation", what)
    count(ch, not bad, err, cfg["name"], tuple(t[1] for t in ch.trace))


def random_strategy(ch, cfg):
    from pySOT.strategy import RandomStrategy

    P = problem_class()
    b, bok = ch.pick([(3, 1), (1, 1), (np.int64(2), 1), (0, 0), (-1, 0), (2.0, 0), ("3", 0), (None, 0)], "budget", free=True)
    k = ch.pick(["good", "duck", "none", "bounds", "both"], "problem", free=True)
    p = {"good": P(2, np.zeros(2), np.ones(2), np.arange(2), np.array([])), "duck": NotAProblem(), "none": None, "bounds": P(2, np.ones(2), np.zeros(2), np.arange(2), np.array([])),
         "both": P(2, np.zeros(2), np.ones(2), np.arange(2), np.array([0]))}[k]
    ok = bok and k == "good"
    made, err = attempt(lambda: RandomStrategy(b, p))
    check(ok, made, err, "RandomStrategy(%r, %s)" % (b, k))
    count(ch, ok, err, cfg["name"], repr(b), k)


def rbf(ch, cfg):
    """Kernels and tails."""
    from pySOT import surrogate as s

    class Order(s.Kernel):
        def __init__(self, order):
            super().__init__()
            self.order = order

        def eval(self, d):
            return -d

        def deriv(self, d):
            return -np.ones(d.shape)

    class Degree(s.Tail):
        def __init__(self, dim, degree):
            super().__init__()
            self.degree, self.dim, self.dim_tail = degree, dim, 1

        def eval(self, X):
            return np.ones((len(np.atleast_2d(X)), 1))

        def deriv(self, x):
            return np.zeros((1, self.dim))

    dim = ch.pick([1, 2, 3], "dim", free=True)
    lb, ub = np.zeros(dim), np.ones(dim)
    k, order = ch.pick([("cubic", 2), ("tps", 2), ("linear", 1), ("o0", 0), ("o1", 1), ("o2", 2), ("o3", 3), ("string", None), ("class", None), ("tail", None)], "kernel", free=True)
    t, deg = ch.pick([("linear", 1), ("constant", 0), ("d0", 0), ("d1", 1), ("d2", 2), ("string", None), ("class", None), ("kernel", None)], "tail", free=True)
    off = ch.pick([0, 1], "tail of another dimension", free=True)
    kern = {"cubic": s.CubicKernel, "tps": s.TPSKernel, "linear": s.LinearKernel, "string": lambda: "cubic", "class": lambda: s.CubicKernel, "tail": lambda: s.LinearTail(dim)}.get(k, lambda: Order(order))()
    d2 = dim + off
    tail = {"linear": lambda: s.LinearTail(d2), "constant": lambda: s.ConstantTail(d2), "string": lambda: "linear", "class": lambda: s.LinearTail, "kernel": s.CubicKernel}.get(t, lambda: Degree(d2, deg))()
    ok = order is not None and deg is not None and order - 1 <= deg and not off
    eta = ch.pick([{}, dict(eta=0.0), dict(eta=1e-3), dict(eta=1.0), dict(eta=50.0)], "eta", free=True)
    made, err = attempt(lambda: s.RBFInterpolant(dim=dim, lb=lb, ub=ub, kernel=kern, tail=tail, **eta))
    check(ok, made, err, "RBFInterpolant in %d dimensions with kernel %s (order %s) and tail %s (degree %s) of dimension %d" % (dim, k, order, t, deg, d2))
    count(ch, ok, err, cfg["name"], dim, k, t, off, eta)
    if k == "cubic" and t == "linear" and not off:
        for kw in ({}, dict(eta=1e-8), dict(output_transformation=lambda f: f)):
            made, err = attempt(lambda: s.RBFInterpolant(dim=dim, lb=lb, ub=ub, **kw))
            check(True, made, err, "RBFInterpolant with defaults")
        from sklearn.gaussian_process import GaussianProcessRegressor as G

        for gp, ok in ((None, 1), (G(), 1), ("gp", 0), (G, 0), (5, 0)):
            made, err = attempt(lambda: s.GPRegressor(dim=dim, lb=lb, ub=ub, gp=gp))
            check(ok, made, err, "GPRegressor with gp=%r" % (gp,))


def jobs(tier):
    b = 3 if tier == "thorough" else 2
    out = [(prob_bounds, dict(name="bounds"), 0), (rbf, dict(name="rbf"), 0), (random_strategy, dict(name="random"), 0)]
    for d in (1, 2, 3, 4):
        out.append((prob_vars, dict(name="vars-%d" % d, dim=d), 0))
        out.append((prob_mixed, dict(name="mixed-%d" % d, dim=d), 0))
    for s in ("SRBFStrategy", "DYCORSStrategy", "EIStrategy", "LCBStrategy", "SOPStrategy"):
        out.append((strategy, dict(name="ctor-" + s, strategy=s), b))
    return out
