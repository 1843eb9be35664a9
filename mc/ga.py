"""C18: the genetic algorithm under chosen outcomes of its random decisions."""
import itertools

import numpy as np

from . import env, rng
from .core import require

LB = np.array([-2.0, 1.0, 0.0])
UB = np.array([3.0, 5.0, 1.0])


def objective(kind, X):
    if kind == "sum":
        return X.sum(axis=1)
    if kind == "neg":
        return -np.abs(X - 0.4).sum(axis=1)
    if kind == "const":
        return np.zeros(len(X))
    if kind == "step":
        return np.floor(2 * X).sum(axis=1) % 3
    if kind == "wild":
        return np.sin(37.0 * X).sum(axis=1) * 10.0 ** np.round(3 * np.cos(11.0 * X[:, 0]))
    if kind == "corner":
        return np.where(np.abs(X - LB[: X.shape[1]]).sum(axis=1) < 1e-12, -5.0, 1.0 + 0.1 * X.sum(axis=1))
    if kind == "inf":
        return np.where(X[:, 0] > 0.1, np.inf, X[:, 0])


def pattern(kind, info, ch, floats, free=False):
    args, kw = info
    if kind in ("rand", "random", "random_sample", "randn"):
        shape = tuple(args) if kind in ("rand", "randn") else tuple(np.atleast_1d(args[0] if args else kw.get("size", ())))
        if not shape:
            return None
        n = int(np.prod(shape))
        if kind == "randn":
            alts = [None, np.zeros(n), np.full(n, 9.0), np.full(n, -9.0), np.resize([0.3, -9.0, 9.0, -0.2], n)]
        else:
            alts = [None, np.zeros(n), np.full(n, rng.ONE), np.full(n, 0.5), np.resize([rng.ONE, 0.0], n), np.resize([0.0, 0.95, 0.5], n)]
        c = ch.choose(len(alts), kind, free=free)
        return None if alts[c] is None else alts[c].reshape(shape)
    if kind in ("uniform", "normal"):
        return None
    if kind == "randint":
        lo, hi = (0, args[0]) if len(args) == 1 and "high" not in kw else (args[0], args[1] if len(args) > 1 else kw["high"])
        size = args[2] if len(args) > 2 else kw.get("size")
        if size is None:
            return None
        shape = tuple(np.atleast_1d(size))
        n = int(np.prod(shape))
        alts = [None, np.full(n, lo), np.full(n, hi - 1), lo + np.arange(n) % (hi - lo), lo + (n - 1 - np.arange(n)) % (hi - lo), lo + np.arange(n) // 5 % (hi - lo)]
        c = ch.choose(len(alts), kind, free=free)
        return None if alts[c] is None else alts[c].reshape(shape)
    return None


def start_population(cfg, n, d, lb, ub):
    k = cfg["start"]
    g = np.linspace(0, 1, n)
    U = np.stack([np.roll(g, j) for j in range(d)], axis=1)
    if k == "array":
        return lb + (ub - lb) * (0.05 + 0.9 * U)
    if k == "edge":
        return lb + (ub - lb) * U
    if k == "same":
        return np.tile(0.5 * (lb + ub), (n, 1))
    if k == "intarray":
        return np.round(lb + (ub - lb) * U).astype(int)


def run(ch, cfg):
    from pySOT.utils import GeneticAlgorithm

    d, gens = cfg["dim"], cfg["gens"]
    lb, ub = LB[:d].copy(), UB[:d].copy()
    ints = cfg.get("ints")
    pop = cfg["pop"]
    n = pop + pop % 2
    start = cfg["start"]
    sarr = None
    if start not in ("SLHD", "LHD", "Random"):
        start = sarr = start_population(cfg, n, d, lb, ub)
    seen = []

    def fun(X):
        X = np.asarray(X)
        require(X.shape == (n, d), "population of shape {} evaluated instead of {}", X.shape, (n, d))
        require(np.all(np.isfinite(X)) and np.all(X >= lb) and np.all(X <= ub), "infeasible individuals evaluated: {}", X.tolist())
        for i in ints or []:
            require(np.array_equal(X[:, i], np.round(X[:, i])), "variable {} of an evaluated individual is not integer: {}", i, X[:, i].tolist())
        f = objective(cfg["fun"], X.astype(float))
        seen.append((X.astype(float).copy(), f.copy()))
        if rng.script is None:
            rng.script = lambda kind, info: None if kind == "truncnorm" else pattern(kind, info, ch, None)
        return f.reshape(-1, 1) if cfg.get("col", True) else f

    if isinstance(start, str) and start == "Random":
        rng.script = lambda kind, info: None if kind == "truncnorm" else pattern(kind, info, ch, None)
    keep = np.random.RandomState
    np.random.RandomState = lambda seed=None: keep(3 if seed is None else seed)
    env.on_cleanup(lambda: (setattr(np.random, "RandomState", keep), setattr(rng, "script", None)))
    a = dict(lb=lb.copy(), ub=ub.copy(), start=None if sarr is None else sarr.copy())
    kw = {}
    if ints is not None:
        kw["int_var"] = list(ints) if cfg.get("iform", "list") == "list" else np.array(ints, dtype=int)
    ga = GeneticAlgorithm(fun, d, a["lb"], a["ub"], pop_size=pop, num_gen=gens, start=start if sarr is None else a["start"], **kw)
    x, v = ga.optimize()
    require(np.array_equal(a["lb"], lb) and np.array_equal(a["ub"], ub), "the caller's bounds are modified")
    if sarr is not None:
        require(np.array_equal(a["start"], sarr), "the caller's initial population is modified")
        want = sarr.astype(float).copy()
        for i in ints or []:
            want[:, i] = seen[0][0][:, i] if np.all(np.abs(seen[0][0][:, i] - want[:, i]) <= 0.5 + 1e-12) else np.nan
        require(np.array_equal(seen[0][0], want), "the given initial population is not what is evaluated first: {} instead of {}", seen[0][0].tolist(), sarr.tolist())
    require(len(seen) == gens + 1, "{} populations evaluated instead of {}", len(seen), gens + 1)
    best = min(np.min(f) for _, f in seen)
    require(np.ndim(v) == 0 and v == best, "returned value {} but the best individual evaluated has {}", v, best)
    x = np.asarray(x, dtype=float)
    require(x.shape == (d,), "returned individual has shape {}", x.shape)
    require(any(np.array_equal(x, p) and fx == best for X, f in seen for p, fx in zip(X, f)), "returned individual {} is not one that was evaluated with the returned value {}", x.tolist(), best)
    for X, f in seen:
        ch.stats.transitions += 1
        ch.stats.state(cfg["name"], X.tolist())
    ch.stats.case(cfg["name"], tuple(t[1] for t in ch.trace))


def initial(ch, cfg):
    """Which initial populations are accepted."""
    from pySOT.utils import GeneticAlgorithm

    d = cfg["dim"]
    lb, ub = LB[:d].copy(), UB[:d].copy()
    pop = ch.pick([3, 4, 6], "pop", free=True)
    n = pop + pop % 2
    rows = ch.pick([n, n - 1, n + 1, n + 2], "rows", free=True)
    cols = ch.pick([d, d + 1] + ([d - 1] if d > 1 else []), "cols", free=True)
    g = np.resize(np.linspace(0, 1, 7), (rows, cols))
    L, U = np.resize(lb, cols), np.resize(ub, cols)
    X = L + (U - L) * g
    where = ch.pick(["none", "below", "above", "ulp-below", "ulp-above"], "where", free=True)
    i, j = ch.choose(rows, "row", free=True), ch.choose(cols, "col", free=True)
    if where != "none":
        X[i, j] = {"below": L[j] - 0.5, "above": U[j] + 0.5, "ulp-below": np.nextafter(L[j], -np.inf), "ulp-above": np.nextafter(U[j], np.inf)}[where]
    bad = where != "none" or rows != n or cols != d
    calls = []

    def fun(P):
        calls.append(np.array(P))
        return np.sum(P, axis=1).reshape(-1, 1)

    kept = X.copy()
    try:
        x, v = GeneticAlgorithm(fun, d, lb, ub, pop_size=pop, num_gen=1, start=X).optimize()
    except ValueError:
        require(bad, "a feasible initial population of the right size is refused")
        require(not calls, "a refused initial population was evaluated")
    else:
        require(not bad, "initial population {} (rows {}, cols {}, {}) is not refused", X.tolist(), rows, cols, where)
        require(v <= np.min(kept.sum(axis=1)), "result is worse than the initial population")
    require(np.array_equal(kept, X), "the initial population is modified")
    ch.stats.case("init", d, pop, rows, cols, where, i, j)


def unknown(ch, cfg):
    from pySOT.utils import GeneticAlgorithm

    try:
        GeneticAlgorithm(lambda P: np.sum(P, axis=1), 2, LB[:2], UB[:2], pop_size=4, num_gen=1, start="nonsense").optimize()
    except ValueError:
        ch.stats.case("unknown")
        return
    require(False, "an unknown way to start is not refused")


def jobs(tier):
    out = []
    big = tier == "thorough"
    for start in ("array", "edge", "same", "intarray", "Random", "SLHD", "LHD"):
        for fun in ("sum", "neg", "const", "step", "wild", "corner", "inf"):
            for d, ints in ((1, None), (1, [0]), (2, None), (2, [0]), (2, [0, 1]), (3, [2]), (3, [0, 2])):
                for pop, gens in ((4, 1), (3, 2), (6, 3)):
                    lhs = start in ("SLHD", "LHD")
                    if lhs and (fun not in ("neg", "corner") or gens > 1 or (ints and len(ints) > 1)):
                        continue
                    if not big and not lhs and (d, ints) in ((1, [0]), (3, [0, 2])) and fun in ("step", "const"):
                        continue
                    if start == "LHD" and d == 3:
                        continue
                    bound = 1 if lhs else 3 if gens == 1 and start in ("array", "Random") and fun in ("neg", "wild") else 2 if gens < 3 else 1
                    bound += 1 if big and not lhs and gens < 3 else 0
                    out.append((run, dict(name="%s-%s-%d-%s-%d-%d" % (start, fun, d, ints, pop, gens), start=start, fun=fun, dim=d, ints=ints, pop=pop, gens=gens, col=fun != "step", iform="list" if d < 3 else "arr"), bound))
    for d in (1, 2, 3):
        out.append((initial, dict(name="initial-%d" % d, dim=d), 0))
    out.append((unknown, dict(name="unknown"), 0))
    return out
