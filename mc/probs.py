"""C22: the built-in test problems against independent formulas on exhaustive grids."""
import inspect
import itertools
import math

import numpy as np

from .core import Violation, require

pi, cos, sin, exp, sqrt = math.pi, math.cos, math.sin, math.exp, math.sqrt

H3A = [[3, 10, 30], [0.1, 10, 35], [3, 10, 30], [0.1, 10, 35]]
H3P = [[3689, 1170, 2673], [4699, 4387, 7470], [1091, 8732, 5547], [381, 5743, 8828]]
H6A = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
H6P = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]
ALPHA = [1.0, 1.2, 3.0, 3.2]


def hartmann(x, A, P):
    return -sum(al * exp(-sum(a * (xi - p * 1e-4) ** 2 for a, xi, p in zip(ra, x, rp))) for al, ra, rp in zip(ALPHA, A, P))


def levy(x):
    w = [1 + (a - 1) / 4 for a in x]
    return sin(pi * w[0]) ** 2 + sum((a - 1) ** 2 * (1 + 10 * sin(pi * a + 1) ** 2) for a in w[:-1]) + (w[-1] - 1) ** 2 * (1 + sin(2 * pi * w[-1]) ** 2)


def weier(x):
    d = len(x)
    s = sum(0.5 ** k * (sum(cos(2 * pi * 3 ** k * (a + 0.5)) for a in x) / d - cos(pi * 3 ** k)) for k in range(12))
    return 10 * s ** 3


def zak(x):
    t = sum(0.5 * i * a for i, a in enumerate(x, 1))
    return sum(a * a for a in x) + t ** 2 + t ** 4


def goldstein(x):
    a, b = x
    return ((1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b))
            * (30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b)))


# name: (formula, documented bounds (None: not documented), documented minimum, its location (function of the dimension), fixed dimension)
F = {
    "Ackley": (lambda x: -20 * exp(-0.2 * sqrt(sum(a * a for a in x) / len(x))) - exp(sum(cos(2 * pi * a) for a in x) / len(x)) + 20 + math.e, (-15, 20), 0, lambda d: [0] * d, None),
    "Branin": (lambda x: (x[1] - 5.1 / (4 * pi ** 2) * x[0] ** 2 + 5 / pi * x[0] - 6) ** 2 + 10 * (1 - 1 / (8 * pi)) * cos(x[0]) + 10, ([-5, 0], [10, 15]), 0.397887, lambda d: [-pi, 12.275], 2),
    "Exponential": (lambda x: sum(exp(i * a) - exp(-5.12 * i) for i, a in enumerate(x, 1)), (-5.12, 5.12), 0, lambda d: [-5.12] * d, None),
    "GoldsteinPrice": (goldstein, (-2, 2), 3, lambda d: [0, -1], 2),
    "Griewank": (lambda x: 1 + sum(a * a for a in x) / 4000 - math.prod(cos(a / sqrt(i)) for i, a in enumerate(x, 1)), (-512, 512), 0, lambda d: [0] * d, None),
    "Hartmann3": (lambda x: hartmann(x, H3A, H3P), (0, 1), -3.86278, lambda d: [0.114614, 0.555649, 0.852547], 3),
    "Hartmann6": (lambda x: hartmann(x, H6A, H6P), (0, 1), -3.32237, lambda d: [0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573], 6),
    "Himmelblau": (lambda x: sum(a ** 4 - 16 * a * a + 5 * a for a in x) / (2 * len(x)), None, -39.1661657, lambda d: [-2.903534] * d, None),
    "Levy": (levy, None, 0, lambda d: [1] * d, None),
    "Michalewicz": (lambda x: -sum(sin(a) * sin(i * a * a / pi) ** 20 for i, a in enumerate(x, 1)), (0, pi), None, None, None),
    "Perm": (lambda x: sum(sum((j + 10) * (a ** i - (1 / j) ** i) for j, a in enumerate(x, 1)) ** 2 for i in range(1, len(x) + 1)), None, 0, lambda d: [1 / i for i in range(1, d + 1)], None),
    "Rastrigin": (lambda x: 10 * len(x) + sum(a * a - 10 * cos(2 * pi * a) for a in x), (-5.12, 5.12), 0, lambda d: [0] * d, None),
    "Rosenbrock": (lambda x: sum(100 * (a * a - b) ** 2 + (1 - a) ** 2 for a, b in zip(x, x[1:])), (-2.048, 2.048), 0, lambda d: [1] * d, None),
    "Schwefel": (lambda x: 418.9829 * len(x) - sum(a * sin(sqrt(abs(a))) for a in x), (-512, 512), 0, lambda d: [420.968746] * d, None),
    "SixHumpCamel": (lambda x: (4 - 2.1 * x[0] ** 2 + x[0] ** 4 / 3) * x[0] ** 2 + x[0] * x[1] + (4 * x[1] ** 2 - 4) * x[1] ** 2, None, -1.0316, lambda d: [0.0898, -0.7126], 2),
    "Sphere": (lambda x: sum(a * a for a in x), (-5.12, 5.12), 0, lambda d: [0] * d, None),
    "SumOfSquares": (lambda x: sum(i * a * a for i, a in enumerate(x, 1)), None, 0, lambda d: [0] * d, None),
    "Weierstrass": (weier, None, 0, lambda d: [0] * d, None),
    "Zakharov": (zak, None, 0, lambda d: [0] * d, None),
}
MTOL = {"Schwefel": 1.2e-4, "Branin": 1e-5, "Hartmann3": 1e-5, "Hartmann6": 1e-5, "SixHumpCamel": 1e-4, "Himmelblau": 1e-6}
VTOL = {"Schwefel": 2e-4}  # the constant is documented and implemented with different precision
SCALE = {"Griewank": 1, "Schwefel": 1}


def make(name, dim):
    import pySOT.optimization_problems as op

    cls = getattr(op, name)
    return cls() if F[name][4] else cls(dim)


def points(lb, ub, mini, dim, tier):
    """Every combination of a few values per coordinate; everything else along axes, diagonals and pairs of coordinates."""
    rel = [0.0, 1.0, 0.37, 0.5, 0.113, 0.83, 0.691, 0.25]
    big = tier == "thorough"
    k = {1: 8, 2: 8, 3: 7, 4: 4, 5: 3, 6: 3}.get(dim, 0) + (1 if big and dim in (4, 5, 6) else 0)
    if k:
        cols = [[lb[i] + r * (ub[i] - lb[i]) for r in rel[:k]] for i in range(dim)]
        yield from itertools.product(*cols)
    base = [lb[i] + (0.5 + 0.4 * sin(3.0 * i + 1)) * (ub[i] - lb[i]) for i in range(dim)]
    for b in [base, base[::-1] if len(set(lb)) == 1 else base] + ([mini] if mini is not None else []):
        b = list(b)
        yield b
        for i in range(dim):
            for r in [j / 24 for j in range(25)]:
                yield b[:i] + [lb[i] + r * (ub[i] - lb[i])] + b[i + 1 :]
        for i, j in itertools.combinations(range(dim), 2):
            for r, s in itertools.product((0.0, 0.21, 0.77, 1.0), repeat=2):
                c = list(b)
                c[i], c[j] = lb[i] + r * (ub[i] - lb[i]), lb[j] + s * (ub[j] - lb[j])
                yield c
        if len(set(lb)) == 1 == len(set(ub)) and dim > 1:
            for s in range(dim):
                yield b[s:] + b[:s]
    if mini is not None:
        for e in (1e-3, 0.02, 0.1):
            for i in range(dim):
                for sg in (1, -1):
                    c = list(mini)
                    c[i] = min(max(c[i] + sg * e * (ub[i] - lb[i]), lb[i]), ub[i])
                    yield c
            for sg in itertools.product((1, -1, 0), repeat=min(dim, 4)):
                yield [min(max(m + s * e * (u - l), l), u) for m, s, l, u in zip(mini, itertools.cycle(sg), lb, ub)]
    n = {1: 1601, 2: 101 if not big else 301, 3: 19 if not big else 41}.get(dim, 0)
    if n:
        yield from itertools.product(*[np.linspace(lb[i], ub[i], n).tolist() for i in range(dim)])


def problem(ch, cfg):
    from pySOT.utils import check_opt_prob

    name, dim = cfg["problem"], cfg["dim"]
    f, bounds, fmin, loc, fixed = F[name]
    p, q = make(name, dim), make(name, dim)
    require(p.dim == dim, "{} has dimension {} instead of {}", name, p.dim, dim)
    check_opt_prob(p)
    lb, ub = [float(v) for v in p.lb], [float(v) for v in p.ub]
    if bounds is not None:
        require(np.allclose(lb, bounds[0], rtol=1e-12) and np.allclose(ub, bounds[1], rtol=1e-12), "{}: the domain is {} to {} but {} is documented", name, lb, ub, bounds)
    require(all(np.isfinite(lb)) and all(np.isfinite(ub)), "infinite domain")
    require(len(p.int_var) == 0 and sorted(p.cont_var) == list(range(dim)), "{} is a continuous problem", name)
    mini = None
    if fmin is not None:
        require(hasattr(p, "min") and hasattr(p, "minimum"), "{} has no documented minimum", name)
        mini = loc(dim)
        require(abs(p.min - fmin) <= MTOL.get(name, 1e-9) * max(1, dim), "documented minimum {} instead of {}", p.min, fmin)
        m = np.array(p.minimum, dtype=float)
        require(m.shape == (dim,) and np.allclose(m, mini, rtol=1e-5, atol=1e-5), "documented minimizer {} instead of {}", m, mini)
        require(np.all(m >= p.lb) and np.all(m <= p.ub), "{}: the minimizer {} is outside of the domain", name, m)
        v = float(p.eval(p.minimum))
        require(abs(v - p.min) <= MTOL.get(name, 1e-9) * dim + 1e-9, "{}: value {} at the minimizer instead of {}", name, v, p.min)
    snap = [np.array(a) for a in (p.lb, p.ub, p.cont_var)]
    first = None
    n = 0
    for x in points(lb, ub, mini, dim, cfg["tier"]):
        x = np.array(x, dtype=float)
        keep = x.copy()
        v = p.eval(x)
        require(np.ndim(v) == 0, "{}: value of shape {}", name, np.shape(v))
        v = float(v)
        w = f(x.tolist())
        require(math.isfinite(v), "{}({}) = {}", name, x.tolist(), v)
        # relative to the size of the terms, which may cancel
        tol = 1e-9 * max(1.0, abs(w)) + VTOL.get(name, 0) * dim
        require(abs(v - w) <= tol, "{}({}) = {} instead of {}", name, x.tolist(), v, w)
        require(np.array_equal(x, keep), "{} modifies its argument", name)
        if fmin is not None:
            require(v >= p.min - MTOL.get(name, 1e-9) * dim, "{}({}) = {} is below the documented minimum {}", name, x.tolist(), v, p.min)
        n += 1
        if n % 7 == 0:
            require(float(p.eval(x)) == v and float(q.eval(x)) == v, "{}({}) is not deterministic", name, x.tolist())
        if first is None:
            first = (x, v)
    require(float(p.eval(first[0])) == first[1], "the value at {} changes after other evaluations", first[0])
    require(all(np.array_equal(a, b) for a, b in zip(snap, (p.lb, p.ub, p.cont_var))), "evaluations modify the problem")
    for k in list(range(0, dim)) + [dim + 1, dim + 2, 2 * dim]:
        if k == dim:
            continue
        for x in (np.full(k, 0.5), np.zeros(k)):
            try:
                v = p.eval(x)
            except Exception:
                continue
            raise Violation("%s of dimension %d accepts a point of dimension %d (value %s)" % (name, dim, k, v))
    ch.stats.executions += n
    ch.stats.transitions += n
    ch.stats.case(name, dim)
    ch.stats.count("points evaluated", n)


def complete(ch, cfg):
    """No built-in problem is left out."""
    import pySOT.optimization_problems as op

    base = op.OptimizationProblem
    names = {n for n, c in vars(op).items() if inspect.isclass(c) and issubclass(c, base) and c is not base}
    require(set(F) <= names, "test problems {} are missing", set(F) - names)
    ch.stats.count("problems without a reference formula", len(names - set(F)))


def jobs(tier):
    out = [(complete, dict(name="complete"), 0)]
    for name, (f, b, m, loc, fixed) in F.items():
        for dim in [fixed] if fixed else [1, 2, 3, 4, 5, 10, 13, 24] + ([6, 7, 15, 40] if tier == "thorough" else []):
            out.append((problem, dict(name="%s-%d" % (name, dim), problem=name, dim=dim, tier=tier), 0))
    return out
