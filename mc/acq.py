"""Acquisition functions (C11): closed forms, the searches' choices, and the give-up rules."""
import itertools
import math

import numpy as np

from . import rng, world
from .core import require
from .monitors import Monitor, check_feasible
from .world import Prob, World


def ei(mu, sig, best):
    z = (best - mu) / sig
    return sig * (z * 0.5 * math.erfc(-z / math.sqrt(2.0)) + math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi))


def lcb(mu, sig, kappa):
    return mu - kappa * sig


class Fixed:
    def __init__(self, mu, sig):
        self.mu, self.sig = np.array(mu, dtype=float).reshape(-1, 1), np.array(sig, dtype=float).reshape(-1, 1)

    def predict(self, xx):
        return self.mu[: len(xx)].copy()

    def predict_std(self, xx):
        return self.sig[: len(xx)].copy()


def formulas(ch, cfg):
    """ei_merit and lcb_merit against their closed forms for all small combinations."""
    from pySOT.auxiliary_problems import ei_merit, lcb_merit

    dim = ch.pick([1, 3], "dim", free=True)
    n = ch.pick([1, 2, 4], "n", free=True)
    dtol = ch.pick([0, 0.3, 1.0], "dtol", free=True)
    nx = ch.pick([1, 2, 3], "known", free=True)
    fx = ch.pick([(0.0, 0.0, 0.0), (1.0, -2.0, 5.0), (100.0, 101.0, 99.5), (-7.0, -7.5, -6.0)], "values", free=True)[:nx]
    kappa = ch.pick([None, 0.0, 3.5], "kappa", free=True)
    F, L = ch.pick([(1.0, 1.0), (1e-8, 1e-6), (1e9, 1e5)], "units", free=True)
    fx, dtol = tuple(F * v for v in fx), dtol * L
    base = L * np.array([[0.0, 0.0, 0.0], [0.29, 0.0, 0.0], [0.31, 0.1, 0.0], [2.0, -1.0, 1.0]])[:, :dim]
    XX = L * np.array([[0.0, 0.0, 0.0], [2.5, -1.0, 1.0], [-5.0, 3.0, 1.0]])[:nx, :dim]
    best = min(fx)
    cases = 0
    for mus in itertools.product([best - 3.0 * F, best, best + 0.5 * F, best + 40.0 * F], repeat=min(n, 2)):
        for sigs in itertools.product([1e-3 * F, F, 7.0 * F], repeat=min(n, 2)):
            mu = [mus[i % len(mus)] + 0.1 * F * i for i in range(n)]
            sig = [sigs[(i + 1) % len(sigs)] * (1 + i) for i in range(n)]
            X = base[:n].copy()
            sur = Fixed(mu, sig)
            fX = np.array(fx).reshape(-1, 1)
            Y, XX0, f0 = X.copy(), XX.copy(), fX.copy()
            a = ei_merit(X=X, surrogate=sur, fX=fX, XX=XX if dtol or n % 2 else None, dtol=dtol)
            kw = {} if kappa is None else dict(kappa=kappa)
            b = lcb_merit(X=X, surrogate=sur, fX=fX, XX=XX if dtol or n % 2 else None, dtol=dtol, **kw)
            require(np.size(a) == n and np.size(b) == n, "acquisition of {} points has shapes {} and {}", n, np.shape(a), np.shape(b))
            a, b = np.ravel(a), np.ravel(b)
            require(np.array_equal(X, Y) and np.array_equal(XX, XX0) and np.array_equal(fX, f0), "acquisition modified its inputs")
            for i in range(n):
                d = np.sqrt(((XX - X[i]) ** 2).sum(axis=1)).min()
                if dtol and d < dtol:
                    require(a[i] == 0.0, "expected improvement of a point at distance {} < {} is {} instead of 0", d, dtol, a[i])
                    require(b[i] == np.inf, "lower confidence bound of a point at distance {} < {} is {}", d, dtol, b[i])
                else:
                    e, l = ei(mu[i], sig[i], best), lcb(mu[i], sig[i], 2.0 if kappa is None else kappa)
                    require(abs(a[i] - e) <= 1e-9 * max(1e-3 * F, abs(e), sig[i]), "expected improvement for mean {}, deviation {}, best {} is {} instead of {}", mu[i], sig[i], best, a[i], e)
                    require(abs(b[i] - l) <= 1e-9 * max(F, abs(l)), "lower confidence bound for mean {}, deviation {} is {} instead of {}", mu[i], sig[i], b[i], l)
            cases += 1
    ch.stats.executions += cases - 1
    ch.stats.count("formula_cases", cases)
    ch.stats.case("formula", dim, n, dtol, nx, fx, kappa, F)


class Model:
    """A smooth mean and deviation that remember what was asked."""

    def __init__(self, prob, shift=0.0, F=1.0):
        self.p, self.shift, self.F = prob, shift, F
        self.searches = []

    def u(self, xx):
        return (np.atleast_2d(xx) - self.p.lb) / (self.p.ub - self.p.lb)

    def mu(self, xx):
        return self.F * (self.shift + np.cos(6 * self.u(xx)).sum(axis=1) + self.u(xx).sum(axis=1))

    def sig(self, xx):
        return self.F * (0.3 + np.sin(9 * self.u(xx)).sum(axis=1) ** 2)

    def predict(self, xx):
        if not self.searches:
            self.searches.append([])
        self.searches[-1].append(np.atleast_2d(np.asarray(xx, dtype=float)).copy())
        return self.mu(xx).reshape(-1, 1)

    def predict_std(self, xx):
        return self.sig(xx).reshape(-1, 1)


def best_of(kind, looked, mu, sig, P, dtol, fbest, kappa=2.0):
    """Acquisition (to be maximised) of the points looked at; -inf for excluded ones."""
    d = np.sqrt(((looked[:, None, :] - P[None, :, :]) ** 2).sum(axis=2)).min(axis=1)
    m, s = np.ravel(mu(looked)), np.ravel(sig(looked))
    v = np.array([ei(a, b, fbest) for a, b in zip(m, s)]) if kind == "ei" else -np.array([lcb(a, b, kappa) for a, b in zip(m, s)])
    return np.where((d < dtol) & (dtol > 0), -np.inf, v), d


def check_search(kind, searches, new, prob, X, Xpend, dtol, fbest, mu, sig, kappa=2.0, F=1.0):
    """Every chosen point attains the best admissible acquisition value its search looked at. Returns the best values."""
    P = np.vstack((X, np.asarray(Xpend if Xpend is not None else []).reshape(-1, prob.dim)))
    vals = []
    for i, s in enumerate(searches):
        looked = np.vstack(s)
        v, d = best_of(kind, looked, mu, sig, P, dtol, fbest, kappa)
        vals.append(v.max())
        if i >= len(new):
            break
        x = np.asarray(new[i])
        check_feasible(prob, x, "chosen point")
        j = np.where((looked == x).all(axis=1))[0]
        require(len(j), "the search returned {} without evaluating its acquisition", x.tolist())
        if np.isfinite(v.max()):
            require(np.isfinite(v[j[0]]), "chosen point {} is at distance {} < {} from an evaluated, pending or selected point", x.tolist(), d[j[0]], dtol)
            require(v[j[0]] >= v.max() - 1e-9 * max(F, abs(v.max())), "chosen point {} has acquisition {} but the search looked at a point with {}", x.tolist(), v[j[0]], v.max())
        P = np.vstack((P, x))
    return vals


def search(ch, cfg):
    """ei_ga and lcb_ga: choice, exclusion and the give-up boundary."""
    from pySOT.auxiliary_problems import ei_ga, lcb_ga

    world.shrink_ga()
    kind = cfg["kind"]
    dim, ints = ch.pick([(1, []), (2, []), (2, [0]), (3, [1]), (1, [0]), (2, [0, 1])], "problem", free=True)
    F, L = ch.pick([(1.0, 1.0), (1e-7, 1.0)] if ints else [(1.0, 1.0), (1e-7, 2.0 ** -14), (1e8, 2.0 ** 12)], "units", free=True)
    prob = Prob(dict(dim=dim, ints=ints, lb=[-1.0, 0.0, 2.0], ub=[9.0, 7.0, 2.5], xscale=L))
    num = ch.pick([1, 2, 3], "num", free=True)
    pend = ch.pick([None, 0, 1, 3], "pending", free=True)
    dtol = L * ch.pick([1e-3, 0.5, 2.0], "dtol", free=True)
    mode = ch.pick(["seed", "mix"], "rng", free=True)
    shift = ch.pick([0.0, 3.0], "shift", free=True)
    seed = ch.pick(cfg.get("seeds", [5]), "seed", free=True)
    rs = np.random.RandomState(11)

    def pts(n):
        X = prob.lb + (prob.ub - prob.lb) * rs.random_sample((n, dim))
        X[:, ints] = np.round(X[:, ints])
        return X

    X = pts(3)
    fX = F * np.array([[2.0], [0.5], [1.7]])
    Xp = None if pend is None else pts(pend)

    def go(tol, count=num):
        np.random.seed(seed)
        rng.mode = mode
        m = Model(prob, shift, F)
        world.ga_listeners[:] = [lambda: m.searches.append([])]
        a = dict(num_pts=count, opt_prob=prob, surrogate=m, X=X.copy(), fX=fX.copy(), Xpend=None if Xp is None else Xp.copy(), dtol=dtol)
        world.ga_results[:] = []
        if kind == "ei":
            new = ei_ga(ei_tol=tol, **a)
        else:
            new = lcb_ga(lcb_target=tol, **dict(a, **({} if cfg.get("kappa") is None else dict(kappa=cfg["kappa"]))))
        rng.mode = "seed"
        world.ga_listeners[:] = []
        require(np.array_equal(a["X"], X) and np.array_equal(a["fX"], fX) and (Xp is None or np.array_equal(a["Xpend"], Xp)), "the search modified its inputs")
        return new, m

    kappa = 2.0 if cfg.get("kappa") is None else cfg["kappa"]
    new, m = go(-1e18 if kind == "ei" else 1e18)
    ch.stats.case(cfg["name"], dim, ints, num, pend, dtol, mode, shift, seed, F)
    if new is None:
        if kind == "lcb":  # nothing admissible
            vals = check_search(kind, m.searches, [], prob, X, Xp, dtol, fX.min(), m.mu, m.sig, kappa, F)
            require(not np.isfinite(vals[-1]) or len(m.searches) > 1, "the search gave up although it looked at a point with acquisition {}", vals[-1])
            return
        require(False, "the search gave up although the threshold cannot be missed")
    require(np.shape(new) == (num, dim), "the search returned shape {}", np.shape(new))
    require(len(m.searches) == num, "{} searches for {} points", len(m.searches), num)
    vals = check_search(kind, m.searches, new, prob, X, Xp, dtol, fX.min(), m.mu, m.sig, kappa, F)
    if not all(np.isfinite(v) for v in vals) or (kind == "ei" and min(vals) < 1e-12 * F):
        return
    worst = min(vals)  # the threshold decides by the worst of the batch
    eps = 1e-7 * max(F, abs(worst))
    for d in (-eps, eps):  # just met, just missed
        tol = (worst + d) if kind == "ei" else -(worst + d)
        got, _ = go(tol)
        if d < 0:
            require(got is not None and np.array_equal(got, new), "the search gave up although its best value {} meets the threshold {}", worst, worst + d)
        else:
            require(got is None, "the search did not give up although its best value {} misses the threshold {}", worst, worst + d)
    ch.stats.executions += 2
    go(-1e18 if kind == "ei" else 1e18)
    res = [r for r in world.ga_results if isinstance(r, tuple) and len(r) == 2]
    if len(res) == num and abs(-max(float(r[1]) for r in res) - worst) <= 1e-9 * max(F, abs(worst)):
        f = max(float(r[1]) for r in res)  # the worst of the batch, to the last bit: exactly at the threshold is good enough
        got, _ = go(-f if kind == "ei" else f)
        require(got is not None, "the search gave up although its best value {} equals the threshold", worst)
        ch.stats.count("exact_thresholds")


class ScaledGP(world.RecGP):
    """Deviations in units of the values."""

    def predict_std(self, xx):
        return 0.2 * (self.fX.max() - self.fX.min()) * super().predict_std(xx)


world.SURROGATES["scaled"] = lambda p: ScaledGP(dim=p.dim, lb=p.lb, ub=p.ub)


class Acquire(Monitor):
    """The strategies' generations under every schedule."""

    cur = None

    def before_propose(self):
        w = self.w
        w.surrogate.searches = []
        self.pend = [e.x for e in w.fly]
        self.run = len(w.designs) - 1
        data = self.known() if self.run == 0 else []
        self.data = data + [(e.x, e.value) for e in w.done if e.run == self.run]
        self.all = [f for _, f in self.known()] + [e.value for e in w.done]
        self.mu, self.sig = None, None
        sur = w.surrogate
        if len(sur.X):
            listeners = list(world.ga_listeners)
            X, fX, lb, ub = np.array(sur.X), np.array(sur.fX), sur.lb, sur.ub
            g = (world.CornerGP if isinstance(sur, world.CornerGP) else ScaledGP if isinstance(sur, ScaledGP) else world.FakeGP)(dim=w.prob.dim, lb=lb, ub=ub)
            g.add_points(X, fX)
            self.gp = g
            world.ga_listeners[:] = listeners  # those of the run's own model

    def on_eval_proposal(self, x, origin, ndes):
        w = self.w
        if w.surrogate.searches:
            self.start(gave_up=origin != "adapt")
        if self.cur is not None and origin == "adapt":
            if not any(np.array_equal(x, g) for g in self.cur["got"]):
                self.cur["got"].append(np.array(x, dtype=float))
            if len(self.cur["got"]) == self.cur["n"]:
                self.judge()

    def on_none(self):
        if self.w.surrogate.searches:
            self.start(gave_up=True)

    on_terminate = on_none

    def start(self, gave_up):
        w = self.w
        n = 1 if w.cfg.get("async", True) else w.cfg["batch"]
        dtol = w.cfg.get("dtol")
        if dtol is None:
            dtol = 1e-3 * float(np.sqrt(((w.prob.ub - w.prob.lb) ** 2).sum()))
        kind = w.cfg["strat"]
        gp = self.gp
        tol = w.cfg.get("tol")
        if tol is None:
            tol = 1e-6 * (max(self.all) - min(self.all))
        fb = min(f for _, f in self.data)
        thr = tol if kind == "ei" else -(min(self.all) - tol)
        alt = tol if kind == "ei" else -(fb - tol)
        self.cur = dict(n=n, got=[], searches=w.surrogate.searches, X=np.array([x for x, _ in self.data]), pend=self.pend, fb=fb, dtol=dtol, thr=(thr, alt), gp=gp, kind=kind)
        w.surrogate.searches = []
        if gave_up:
            g, self.cur = self.cur, None
            # the points selected before the search that failed are unknown to us: judge single searches only
            if len(g["searches"]) == 1:
                v = check_search(kind, g["searches"], [], w.prob, g["X"], g["pend"], dtol, fb, gp.predict, gp.predict_std, w.cfg.get("kappa", 2.0), w.prob.fs)[0]
                require(not (np.isfinite(v) and v > max(g["thr"]) + 1e-9 * max(w.prob.fs, abs(v))), "gave up although the best acquisition value {} meets the threshold {}", v, g["thr"][0])
                w.stats.count("gave_up")

    def judge(self):
        w = self.w
        g, self.cur = self.cur, None
        vals = check_search(g["kind"], g["searches"], g["got"][::-1], w.prob, g["X"], g["pend"], g["dtol"], g["fb"], g["gp"].predict, g["gp"].predict_std, w.cfg.get("kappa", 2.0), w.prob.fs)
        for v in vals:
            require(v >= min(g["thr"]) - 1e-9 * max(w.prob.fs, abs(v)) or not np.isfinite(v), "did not give up although the best acquisition value {} misses the threshold {}", v, g["thr"][0])
        w.stats.count("strategy_searches", len(vals))


def run_strategy(ch, cfg):
    World(ch, cfg, [Acquire()]).run()


def strategy_jobs(tier):
    out = []
    t = 1 if tier == "thorough" else 0
    for k in ("ei", "lcb"):
        for i, c in enumerate([
                dict(W=1, n0=3, max_evals=7), dict(W=2, n0=3, max_evals=8), dict(W=3, n0=5, max_evals=9, dim=2), dict(W=2, n0=3, max_evals=8, tol="mid"),
                dict(W=2, n0=4, max_evals=8, dim=2, ints=[0]), dict(W=2, n0=3, max_evals=8, dtol=0.3), dict(W=2, n0=3, max_evals=7, extras="kn"), dict(W=2, n0=3, max_evals=7, extras="kn", goodextra=True),
                dict(W=2, n0=3, max_evals=9, value="neg", restarts=False, tol="mid"), dict(W=2, n0=3, max_evals=8, kappa=0.5),
                {"async": False, "batch": 2, "W": 2, "n0": 3, "max_evals": 9}, {"async": False, "batch": 3, "W": 3, "n0": 3, "max_evals": 9, "tol": "mid"},
                {"async": False, "batch": 1, "W": 1, "n0": 3, "max_evals": 9, "tol": "mid", "dtol": 0.5},
                dict(W=2, n0=3, max_evals=9, surrogate="scaled", fscale=1e-9, xscale=1e-5), dict(W=2, n0=4, max_evals=9, dim=2, surrogate="scaled", fscale=1e8, xscale=1e4, value="neg"),
                dict(W=2, n0=3, max_evals=9, surrogate="scaled", fscale=1e-5, dtol=0.3), {"async": False, "batch": 2, "W": 2, "n0": 4, "max_evals": 10, "dim": 2, "surrogate": "scaled", "fscale": 1e-6, "xscale": 1e-3},
                {"async": False, "batch": 2, "W": 2, "n0": 4, "max_evals": 10, "surrogate": "scaled", "fscale": 1e-4, "value": "shallow"},
                dict(W=1, n0=3, max_evals=13, dtol=0.9, value="rise"), dict(W=2, n0=3, max_evals=14, dtol=0.9, value="rise", kill=False), {"async": False, "batch": 2, "W": 2, "n0": 3, "max_evals": 14, "dtol": 0.7, "value": "rise"},
                dict(W=1, n0=3, max_evals=6, dim=2, lb=[0.0, 0.0], ub=[10.0, 10.0], extras="kk", corner=1.2e-3, surrogate="corner", rng="lo", kill=False),
                dict(W=1, n0=3, max_evals=6, dim=2, lb=[0.0, 0.0], ub=[10.0, 10.0], extras="kk", corner=1.2e-3, surrogate="corner", rng="hi", kill=False),
                dict(W=1, n0=3, max_evals=6, dim=2, lb=[0.0, 0.0], ub=[10.0, 10.0], extras="kk", corner=1.6e-3, surrogate="corner", rng="lo", kill=False),
                dict(W=1, n0=3, max_evals=6, dim=2, lb=[0.0, 0.0], ub=[10.0, 10.0], extras="kk", corner=1.6e-3, surrogate="corner", rng="hi", kill=False)]):
            if "kappa" in c and k == "ei":
                continue
            c = dict(dict(strat=k, dim=1, surrogate="recgp", max_conv=0, kill=True), **c)
            if c.get("tol") == "mid":
                c["tol"] = 0.35 if k == "ei" else 0.5
            c["async"] = c.get("async", True)
            c["name"] = "acq-%s-%d" % (k, i)
            out.append((run_strategy, c, 1 + t))
    return out


def jobs(tier):
    out = [(formulas, dict(name="formulas"), 0)]
    seeds = [5] if tier == "quick" else list(range(12))
    for k in ("ei", "lcb"):
        out.append((search, dict(name="search-" + k, kind=k, seeds=seeds), 0))
    out.append((search, dict(name="search-lcb-kappa", kind="lcb", kappa=0.3, seeds=seeds), 0))
    return out + strategy_jobs(tier)
