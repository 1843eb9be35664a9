"""Candidate search (C10, C04): oracle for the selection, and the distribution of the candidates."""
import itertools

import numpy as np

from . import rng
from .core import require
from .monitors import check_feasible
from .world import Prob

TOL = 1e-9


def rescale(v):
    v = np.asarray(v, dtype=float)
    lo, hi = v.min(), v.max()
    return np.ones(v.shape) if hi == lo else (v - lo) / (hi - lo)


def dist_to(cand, P):
    return np.sqrt(((cand[:, None, :] - P[None, :, :]) ** 2).sum(axis=2)).min(axis=1)


def check_selection(cand, pred, X, Xpend, weights, dtol, new, unsure=()):
    """Greedy selection: every new point must be a minimiser among the admissible candidates.

    unsure: further minimum distances that may be the intended one (candidates between them are not judged)."""
    cand, pred = np.atleast_2d(cand), np.ravel(pred).astype(float)
    dim = cand.shape[1]
    P = np.vstack([np.asarray(X, dtype=float).reshape(-1, dim), np.asarray(Xpend if Xpend is not None else [], dtype=float).reshape(-1, dim)])
    new = np.atleast_2d(new)
    require(new.shape == (len(weights), dim), "{} selected points of shape {} for {} weights", len(new), new.shape, len(weights))
    fv = rescale(pred)
    checked = 0
    used = np.zeros(len(cand), dtype=bool)
    for x, w in zip(new, weights):
        same = np.all(np.abs(cand - x) <= 0, axis=1)
        require(same.any(), "selected point {} is not one of the candidates", x.tolist())
        d = dist_to(cand, P)
        adm = (d >= dtol) & ~used
        if np.any(np.abs(d - dtol) < 1e-12) and dtol > 0 and not np.any(d >= dtol + 1e-12):
            P = np.vstack((P, x))
            continue
        if unsure and np.any((d >= min(unsure + (dtol,))) & (d < max(unsure + (dtol,)))):
            P = np.vstack((P, x))
            continue
        if adm.any():
            merit = w * fv + (1.0 - w) * (1.0 - rescale(d))
            best = merit[adm].min()
            mine = [k for k in np.where(same)[0] if adm[k] or abs(d[k] - dtol) < 1e-12]
            require(mine, "selected point {} is at distance {} < {} from an evaluated, pending or selected point", x.tolist(), d[same].min(), dtol)
            require(min(merit[k] for k in mine) <= best + TOL, "selected point {} has merit {} but {} is attained (weight {})", x.tolist(), min(merit[k] for k in mine), best, w)
            checked += 1
        P = np.vstack((P, x))
    return checked


class Table:
    """A surrogate that looks predictions up and records the candidates."""

    def __init__(self, fn):
        self.fn = fn
        self.seen = []

    def predict(self, xx):
        xx = np.atleast_2d(np.asarray(xx, dtype=float))
        self.seen.append(xx.copy())
        return np.asarray(self.fn(xx), dtype=float).reshape(-1, 1)


def merit_grid(ch, cfg):
    """weighted_distance_merit on all small configurations."""
    from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit as wdm

    dim = cfg["dim"]
    pos = cfg["pos"]
    nx = ch.pick(cfg["nx"], "points", free=True)
    num = ch.pick([1, 2, 3], "num", free=True)
    dtol = ch.pick(cfg["dtol"], "dtol", free=True)
    wsets = {1: [(0.0,), (0.3,), (0.5,), (1.0,)], 2: [(0.3, 0.95), (1.0, 0.0), (0.5, 0.5), (0.0, 1.0)],
             3: [(0.3, 0.5, 0.8), (1.0, 0.0, 0.5), (0.0, 0.0, 1.0), (0.95, 0.3, 0.95)]}[num]
    w = ch.pick(wsets, "weights", free=True)
    np_ = ch.pick([None, 0, 1, 2], "pending", free=True)
    m = cfg["m"]
    n = 0
    lay = list(itertools.product(range(len(pos)), repeat=m))[:: cfg.get("stride", 1)]
    for li, lo in enumerate(lay):
        if len(set(lo)) < cfg.get("distinct", 1):
            continue
        cand = np.array([pos[k] for k in lo], dtype=float).reshape(m, dim)
        for vals in cfg["vals"]:
            X = np.array(cfg["X"][:nx], dtype=float).reshape(-1, dim)
            Xp = None if np_ is None else np.array(cfg["Xp"][:np_], dtype=float).reshape(-1, dim)
            fX = np.arange(nx, dtype=float).reshape(-1, 1)
            tab = Table(lambda xx: np.array([vals[i % len(vals)] for i in range(len(xx))]))
            args = [X.copy(), fX.copy(), cand.copy()]
            new = wdm(num_pts=num, surrogate=tab, X=args[0], fX=args[1], cand=args[2], weights=list(w), Xpend=None if Xp is None else Xp.copy(), dtol=dtol)
            require(np.array_equal(args[0], X) and np.array_equal(args[1], fX), "selection modified the evaluated points")
            c = check_selection(cand, [vals[i % len(vals)] for i in range(m)], X, Xp, w, dtol, new)
            n += 1
            if c:
                ch.stats.count("selections", c)
    ch.stats.executions += n - 1
    ch.stats.case(cfg["name"], nx, num, dtol, w, np_)
    ch.stats.count("selection_cases", n)


def elements(calls):
    """Every truncated normal drawn, as (lower, upper, loc, scale)."""
    out = set()
    for a, b, loc, scale, shape in calls:
        if shape == 0 or np.prod(shape) == 0:
            continue
        A, B, L, S = np.broadcast_arrays(a, b, loc, scale)
        for x in zip(A.ravel(), B.ravel(), L.ravel(), S.ravel()):
            out.add((round(x[2] + x[0] * x[3], 8), round(x[2] + x[1] * x[3], 8), round(float(x[2]), 8), round(float(x[3]), 8)))
    return out


def rz(t):
    return tuple(0.0 if v == 0 else float(v) for v in t)


def subset_arg(sub, kind):
    if sub is None:
        return None
    return list(sub) if kind == "list" else np.array(sub)


def generators(ch, cfg):
    """candidate_uniform / candidate_srbf / candidate_dycors over a grid of situations."""
    from pySOT.auxiliary_problems import candidate_dycors, candidate_srbf, candidate_uniform

    kind = cfg["kind"]
    dim = cfg["dim"]
    ints = ch.pick(cfg["ints"], "ints", free=True)
    prob = Prob(dict(dim=dim, ints=ints, lb=cfg["lb"], ub=cfg["ub"]))
    sub = ch.pick(cfg["subsets"], "subset", free=True)
    num = ch.pick([1, 3], "num", free=True)
    where = ch.pick(["lo", "hi", "mid", "in"], "best", free=True)
    mode = ch.pick(["seed", "lo", "hi", "mix"], "rng", free=True)
    radius = ch.pick([0.2, 0.2 / 32], "radius", free=True) if kind != "uniform" else 0.2
    probp = ch.pick([1e-12, 0.5, 1.0], "prob", free=True) if kind == "dycors" else None
    usecenter = ch.pick([False, True], "center", free=True) if kind == "dycors" else False
    feas = cfg.get("only_feasible", False)
    u = {"lo": 0.0, "hi": 1.0, "mid": 0.5, "in": 0.37}[where]
    xb = prob.lb + (prob.ub - prob.lb) * np.array([u, 1 - u, u])[:dim]
    xb[list(ints)] = np.round(xb[list(ints)])
    rs = np.random.RandomState(3)
    X = prob.lb + (prob.ub - prob.lb) * rs.random_sample((4, dim))
    X[:, list(ints)] = np.round(X[:, list(ints)])
    X[2] = xb
    fX = np.array([[3.0], [2.0], [-1.0], [0.5]])
    Xp = prob.lb + (prob.ub - prob.lb) * rs.random_sample((1, dim))
    center = None
    if usecenter:
        center = X[1].copy()
    base = X[2] if center is None else center
    w = [0.3, 0.8, 1.0][:num]
    tab = Table(lambda xx: np.cos(7 * xx).sum(axis=1) + 0.1 * xx.sum(axis=1))
    rng.mode = mode
    rng.calls = calls = []
    X0, f0, p0, c0 = X.copy(), fX.copy(), Xp.copy(), base.copy()
    lb0, ub0 = prob.lb.copy(), prob.ub.copy()
    kw = dict(num_pts=num, opt_prob=prob, surrogate=tab, X=X, fX=fX, weights=list(w), Xpend=Xp, subset=subset_arg(sub, cfg.get("subset_type", "list")), num_cand=cfg.get("num_cand", 12))
    if "dtol" in cfg:
        kw["dtol"] = cfg["dtol"]
    if kind == "uniform":
        new = candidate_uniform(**kw)
    elif kind == "srbf":
        new = candidate_srbf(sampling_radius=radius, **kw)
    else:
        if center is not None:
            kw["xbest"] = center
        new = candidate_dycors(sampling_radius=radius, prob_perturb=probp, **kw)
    rng.mode, rng.calls = "seed", None
    new = np.asarray(new)
    require(new.shape == (num, dim), "selected points have shape {}", new.shape)
    for x in new:
        check_feasible(prob, x, "selected point")
    ch.stats.case(cfg["name"], ints, sub, num, where, mode, radius, probp, usecenter)
    if feas:
        return
    require(np.array_equal(X, X0) and np.array_equal(fX, f0) and np.array_equal(Xp, p0) and np.array_equal(base, c0), "the search modified its inputs")
    require(np.array_equal(prob.lb, lb0) and np.array_equal(prob.ub, ub0), "the search modified the problem")
    cand = np.vstack(tab.seen)
    coords = list(range(dim)) if sub is None else list(sub)
    for x in cand:
        check_feasible(prob, x, "candidate")
        for i in range(dim):
            if i not in coords:
                require(x[i] == base[i], "candidate {} differs from {} in coordinate {} outside the subset {}", x.tolist(), base.tolist(), i, coords)
    if len(tab.seen) == 1:
        require(len(cand) == kw["num_cand"], "{} candidates instead of {}", len(cand), kw["num_cand"])
        check_selection(cand, tab.fn(cand), X, Xp, w, cfg.get("dtol", 1e-3), new)
    if kind == "uniform":
        if mode == "seed":
            for i in coords:
                if i not in ints:
                    require(np.std(cand[:, i]) > 0.1 * (prob.ub[i] - prob.lb[i]), "uniform candidates do not spread in coordinate {}", i)
        return
    sig = radius * (prob.ub - prob.lb)
    sig[list(ints)] = np.maximum(sig[list(ints)], 1.0)
    want = {rz((round(prob.lb[i], 8), round(prob.ub[i], 8), round(float(base[i]), 8), round(float(sig[i]), 8))): i for i in coords}
    got = {rz(t) for t in elements(calls)}
    if got:
        bad = [t for t in got if not any(np.allclose(t, k, rtol=1e-6, atol=1e-7) for k in want)]
        require(not bad, "candidate perturbations {} (lower, upper, mean, deviation) differ from the expected {}", bad, sorted(want))
        if kind == "srbf" or (probp == 1.0):
            miss = [k for k in want if not any(np.allclose(t, k, rtol=1e-6, atol=1e-7) for t in got)]
            require(not miss, "no perturbations with (lower, upper, mean, deviation) {}", miss)
    reached = set()
    for x in cand:
        moved = [i for i in coords if x[i] != base[i]]
        cont = [i for i in coords if i not in ints]
        if kind == "srbf" or probp == 1.0:
            for i in cont:
                require(x[i] != base[i], "candidate {} is not perturbed in coordinate {}", x.tolist(), i)
        elif kind == "dycors" and len(cont) == len(coords):
            require(moved, "candidate {} is not perturbed at all", x.tolist())
            if probp == 1e-12 and mode == "seed":
                reached |= set(moved)
                require(len(moved) == 1, "candidate {} is perturbed in {} coordinates with vanishing probability", x.tolist(), len(moved))
    if kind == "dycors" and len(cand) >= 250 and mode == "seed" and not set(coords) & set(ints):
        require(probp != 1e-12 or reached == set(coords), "only coordinates {} of {} are ever perturbed", sorted(reached), coords)


def grid_jobs(tier, only_feasible=False):
    out = []
    lb, ub = [-1.0, -2.0, 0.0], [3.0, 1.0, 43.0]
    for kind in ("uniform", "srbf", "dycors"):
        for dim in (1, 2, 3):
            subs = {1: [None, (0,)], 2: [None, (1,), (0, 1), (1, 0)], 3: [None, (1,), (0, 2), (2, 0, 1), (1, 2)]}[dim]
            ints = {1: [[], [0]], 2: [[], [0], [1], [0, 1]], 3: [[], [1], [0, 2], [0, 1, 2], [2]]}[dim]
            for st in ("list", "array") if dim == 3 else ("array",):
                out.append((generators, dict(name="cand-%s-%d-%s" % (kind, dim, st), kind=kind, dim=dim, subsets=subs, ints=ints, lb=lb, ub=ub,
                                             subset_type=st, only_feasible=only_feasible, num_cand=12 if tier == "quick" else 40), 0))
            if not only_feasible:
                out.append((generators, dict(name="cand-%s-%d-dtol" % (kind, dim), kind=kind, dim=dim, subsets=subs[:2], ints=ints[:2], lb=lb, ub=ub,
                                             dtol=0.4, num_cand=25), 0))
            if not only_feasible and kind == "dycors" and dim > 1:
                out.append((generators, dict(name="cand-%s-%d-many" % (kind, dim), kind=kind, dim=dim, subsets=subs, ints=ints[:1], lb=lb, ub=ub, num_cand=300), 0))
    return out


def merit_jobs(tier):
    big = tier == "thorough"
    out = []
    g1 = [0.0, 0.2, 0.5, 0.5005, 1.0, 1.7]
    v4 = list(itertools.product([0.0, 1.0, 2.5], repeat=4))
    sel = (lambda q, t: t) if big else (lambda q, t: q)
    out.append((merit_grid, dict(name="merit-1d", dim=1, pos=[[g] for g in g1], m=4, nx=[1, 2, 3], dtol=[1e-3, 0.25, 0.6], X=[[0.1], [1.2], [0.5]], Xp=[[0.9], [1.7]],
                                 vals=v4[:: sel(9, 2)], distinct=2, stride=sel(61, 7)), 0))
    g2 = [[0.0, 0.0], [1.0, 0.0], [0.0, 2.0], [1.0, 1.0], [3.0, -1.0]]
    v3 = list(itertools.product([0.0, 1.0, 5.0], repeat=3))
    out.append((merit_grid, dict(name="merit-2d", dim=2, pos=g2, m=3, nx=[1, 2], dtol=[1e-3, 1.1], X=[[0.5, 0.4], [3.0, -1.0]], Xp=[[1.0, 1.05], [0.0, 0.1]],
                                 vals=v3[:: sel(3, 1)], distinct=2, stride=sel(5, 1)), 0))
    v6 = [(5, 1, 3, 3, 0, 2), (0, 0, 0, 0, 0, 0), (1, 2, 3, 4, 5, 6), (-3, -1, -2, 4, -5, -6)]
    out.append((merit_grid, dict(name="merit-1d-6", dim=1, pos=[[g] for g in g1[1:5]], m=6, nx=[1, 3], dtol=[1e-3, 0.15], X=[[0.1], [1.2], [0.5]], Xp=[[0.9], [1.7]],
                                 vals=v6, distinct=2, stride=sel(151, 11)), 0))
    return out


class Selection:
    """Monitor: what the SRBF and DYCORS strategies select in every generation, under every schedule."""

    w = None

    def __init__(self):
        self.cur = None  # generation being handed out
        self.nw = 0

    def before_propose(self):
        w = self.w
        w.surrogate.seen = []
        rng.calls = []
        self.pend = [e.x for e in w.fly]
        self.run = len(w.designs) - 1
        self.radius = getattr(w.strategy, "sampling_radius", None)

    def on_eval_proposal(self, x, origin, ndes):
        w = self.w
        x = np.asarray(x, dtype=float).copy()
        if w.surrogate.seen:
            if self.cur is not None:
                self.judge()
            n = 1 if w.cfg.get("async", True) else w.cfg["batch"]
            data = [(p, f) for p, f in self.known()] if self.run == 0 else []
            data += [(e.x, e.value) for e in w.done if e.run == self.run]
            ws = w.cfg.get("weights") or [0.3, 0.5, 0.8, 0.95]
            self.cur = dict(cand=np.vstack(w.surrogate.seen), data=data, pend=list(self.pend), n=n, got=[], weights=[ws[(self.nw + i) % len(ws)] for i in range(n)],
                            calls=rng.calls, radius=self.radius)
            self.nw += n
        if self.cur is not None and origin == "adapt" and not any(np.array_equal(x, g) for g in self.cur["got"]):
            self.cur["got"].append(x)
            if len(self.cur["got"]) == self.cur["n"]:
                self.judge()

    def known(self):
        from .monitors import Monitor

        return Monitor.known(self)

    def judge(self):
        g, self.cur = self.cur, None
        w = self.w
        if len(g["got"]) < g["n"]:
            return
        X = np.array([x for x, _ in g["data"]])
        f = np.array([v for _, v in g["data"]])
        k = int(np.argmin(f))
        base = X[k]
        prob = w.prob
        ints = list(w.cfg.get("ints", []))
        if np.sum(f == f[k]) == 1:
            sig = (g["radius"] if g["radius"] is not None else np.nan) * (prob.ub - prob.lb)
            sig[ints] = np.maximum(sig[ints], 1.0)
            want = [(prob.lb[i], prob.ub[i], base[i], sig[i]) for i in range(prob.dim)]
            for t in elements(g["calls"]):
                require(any(np.allclose(t, q, rtol=1e-5, atol=1e-6) for q in want), "candidate perturbation (lower, upper, mean, deviation) {} but the best point, radius and bounds give {}", t, want)
        pred = w.surrogate.table(g["cand"])
        orders = [g["got"][::-1]] + list(itertools.permutations(g["got"]))
        err = None
        for o in orders:
            try:
                c = check_selection(g["cand"], pred, X, np.array(g["pend"]).reshape(-1, prob.dim), g["weights"], 1e-3, np.array(o), unsure=(1e-3 * np.sqrt(prob.dim),))
                w.stats.count("strategy_selections", c)
                return
            except Exception as e:
                err = err or e
        raise err

    def at_end(self):
        pass


def run_sel(ch, cfg):
    from .world import World

    World(ch, cfg, [Selection()]).run()


def strategy_jobs(tier):
    out = []
    t = 1 if tier == "thorough" else 0
    for k in ("srbf", "dycors"):
        for c in [dict(W=1, n0=3, max_evals=10), dict(W=2, n0=3, max_evals=9), dict(W=3, dim=2, n0=4, max_evals=10, weights=[0.2, 0.9, 0.5]),
                  {"async": False, "batch": 3, "W": 3, "n0": 3, "max_evals": 11, "dim": 2}, {"async": False, "batch": 2, "W": 2, "n0": 3, "max_evals": 9, "weights": [0.1, 0.6, 1.0]},
                  dict(W=2, n0=3, max_evals=9, dim=2, ints=[1], ub=[3.0, 20.0], lb=[-1.0, 0.0]), dict(W=2, n0=3, max_evals=8, extras="kn", goodextra=True),
                  dict(W=2, n0=3, max_evals=26, value="const", num_cand=6), dict(W=2, n0=3, max_evals=22, value="const", num_cand=6, weights=[0.0, 1.0]),
                  dict(W=1, n0=3, max_evals=36, value="rise", num_cand=6), {"async": False, "batch": 2, "W": 2, "n0": 3, "max_evals": 40, "value": "rise", "num_cand": 6},
                  {"async": False, "batch": 3, "W": 3, "n0": 3, "max_evals": 12, "weights": [0.2, 0.9]}, {"async": False, "batch": 2, "W": 2, "n0": 3, "max_evals": 8, "weights": [0.5]},
                  dict(W=2, n0=3, max_evals=14, weights=[0.1, 0.9, 0.4, 1.0, 0.0, 0.7])]:
            c = dict(dict(strat=k, dim=1, num_cand=12, surrogate="rec", max_conv=0), **c)
            c["async"] = c.get("async", True)
            c["name"] = "select-%s-%s" % (k, "-".join("%s%s" % (a, c[a]) for a in ("async", "W", "dim", "max_evals")) + ("-w%d" % len(c["weights"]) if "weights" in c else ""))
            b = 2 if c["W"] <= 2 and c["max_evals"] <= 10 and c["dim"] == 1 and "extras" not in c else 1
            out.append((run_sel, c, b + t))
    return out
