"""C30, C31: relations between runs.  Every execution carries out two runs of the real code and compares them.

C30: in synchronous mode neither the order in which the evaluations of a batch finish, nor the number of workers, nor
rejected proposals change which points are evaluated.
C31: measuring variables and objective values in other units maps every run to the corresponding one.
"""
import numpy as np

from . import env, rng, world
from .core import SEED, Chooser, Stats, require
from .world import FakeGP, RecSurrogate, World


class CanonSurrogate(RecSurrogate):
    def predict(self, xx):
        return shepard(self, xx)


class CanonGP(FakeGP):
    def predict(self, xx):
        return shepard(self, xx)

    def predict_std(self, xx):
        r = self.ub - self.lb
        U, V = np.atleast_2d(xx) / r, self.X / r
        d = 0.2 * np.sqrt(((U[:, None, :] - V[None, :, :]) ** 2).sum(axis=2)).min(axis=1)
        return d.reshape(-1, 1) * (self.fX.max() - self.fX.min())


def shepard(self, xx):
    """Inverse distance weighting, summed in an order that does not depend on the order of the data."""
    xx = np.atleast_2d(np.asarray(xx, dtype=float))
    o = np.lexsort(np.hstack((self.X, self.fX)).T)
    X, fX = self.X[o], self.fX[o]
    r = self.ub - self.lb
    D = np.zeros((len(xx), len(X)))
    for j in range(X.shape[1]):
        D += ((xx[:, [j]] - X[:, j]) / r[j]) ** 2
    W = 1.0 / (D ** 2 + 1e-4)
    num, den = np.zeros(len(xx)), np.zeros(len(xx))
    for i in range(len(X)):
        num += W[:, i] * fX[i, 0]
        den += W[:, i]
    return (num / den).reshape(-1, 1)


def real_gp(p):
    from pySOT.surrogate import GPRegressor

    return GPRegressor(dim=p.dim, lb=p.lb, ub=p.ub)


world.SURROGATES["canon"] = lambda p: CanonSurrogate(dim=p.dim, lb=p.lb, ub=p.ub)
world.SURROGATES["canongp"] = lambda p: CanonGP(dim=p.dim, lb=p.lb, ub=p.ub)
world.SURROGATES["realgp"] = real_gp


class Failing(World):
    """The evaluations of certain points fail (design points the first time), in every schedule."""

    def __init__(self, ch, cfg, monitors=()):
        self.bad = {}  # points that fail: how often they did
        super().__init__(ch, cfg, monitors)
        self.seen = []

    def doomed(self, ev):
        k = next((i for i, x in enumerate(self.seen) if np.array_equal(x, ev.x)), None)
        if k is None:
            k = len(self.seen)
            self.seen.append(ev.x)
        return k

    def propose(self, accept):
        n = len(self.evs)
        p = super().propose(accept)
        for ev in self.evs[n:]:
            self.doomed(ev)
        return p

    def apply(self, op):
        if op[0] == "C":
            ev = self.fly[op[1]]
            k = self.doomed(ev)
            if k in self.cfg.get("failing", ()) and k not in self.bad:
                self.bad[k] = 1
                return self.fail(ev, "kill" if k % 2 else "cancel")
        super().apply(op)


def reference(cls, cfg):
    """One worker, everything in order."""
    w = cls(Chooser(), dict(cfg, W=1, rej=False))
    return w.run()


def points(w):
    return np.array([e.x for e in w.evs if e.status == "done"]).reshape(-1, w.prob.dim)


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def ordered(X):
    return X[np.lexsort(X.T[::-1])]


REF = {}


def order(ch, cfg):
    key = cfg["name"], SEED
    if key not in REF:
        w = reference(Failing, cfg)
        REF[key] = points(w), np.array([x for x, _ in w.proposals]), len(w.designs), min(e.value for e in w.done)
        env.reseed(SEED)
    pts, props, nd, best = REF[key]
    w = Failing(ch, cfg)
    w.run()
    got = points(w)
    allp = np.array([x for x, _ in w.proposals])
    desc = "".join("%d" % e.i for e in w.finished)
    if cfg["strat"] == "random":
        n = min(len(props), len(allp))
        require(n and same(props[:n], allp[:n]), "random points depend on the order of events {}", desc)
        return
    if not w.rejected and not cfg.get("failing"):
        n = min(len(props), len(allp))
        k = next((i for i in range(n) if not same(props[i], allp[i])), n)
        require(k == n, "point {} is {} when evaluations finish in the order {} on {} workers, {} when they are carried out one by one", k, allp[k] if k < n else None, desc, cfg["W"], props[k] if k < n else None)
    require(len(got) == len(pts), "{} evaluations when they finish in the order {}, {} one by one", len(got), desc, len(pts))
    require(same(ordered(got), ordered(pts)), "evaluated points {} when evaluations finish in the order {} on {} workers ({} rejected), {} when they are carried out one by one", got.tolist(), desc, cfg["W"], len(w.rejected), pts.tolist())
    require(len(w.designs) == nd, "{} designs instead of {}", len(w.designs), nd)
    require(min(e.value for e in w.done) == best, "best value {} instead of {}", min(e.value for e in w.done), best)


class Follow:
    """Makes the same choices again."""

    def __init__(self, trace):
        self.trace, self.i, self.stats = trace, 0, Stats()

    def choose(self, n, label="", free=False):
        require(self.i < len(self.trace), "in other units the run goes on longer")
        m, c, _ = self.trace[self.i]
        require(m == n, "in other units there are {} possible events at choice {} instead of {}", n, self.i, m)
        self.i += 1
        return c


BASE = 1024.0  # the smallest distance between points that the candidate searches allow by default is absolute: 1e-3


def units(ch, cfg):
    xs, fs, shift = cfg["xscale"], cfg["fscale"], cfg["xshift"]
    base = 1.0 if cfg.get("ints") else 2.0 ** -18 if cfg["strat"] in ("ei", "lcb") else BASE
    w = World(ch, dict(cfg, xscale=base, xshift=0.0, fscale=1.0))
    w.run()
    env.reseed(SEED)
    cfg = dict(cfg, xscale=base * xs)
    for k in ("tol", "dtol"):
        if cfg.get(k) is not None:
            cfg[k] *= fs if k == "tol" else xs
    v = World(Follow(ch.trace), cfg)
    v.run()
    a, b = [x for x, _ in w.proposals], [x for x, _ in v.proposals]
    size = np.max(w.prob.ub - w.prob.lb)
    for i in range(min(len(a), len(b))):
        require(np.allclose((b[i] - shift) / xs, a[i], rtol=1e-7, atol=1e-9 * size), "when variables are measured in units of {} from {} and values in units of {}, proposal {} is {} instead of {}",
                1 / xs, -shift, 1 / fs, i, b[i], xs * a[i] + shift)
    require(len(a) == len(b), "{} proposals in other units, {} before", len(b), len(a))
    require(len(w.designs) == len(v.designs), "{} designs in other units, {} before", len(v.designs), len(w.designs))
    s = w.strategy
    if hasattr(s, "sampling_radius"):
        require(s.sampling_radius == v.strategy.sampling_radius, "sampling radius {} in other units, {} before", v.strategy.sampling_radius, s.sampling_radius)


def order_jobs(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    base = {"async": False, "kill": False, "rej": False}

    def add(name, bound, **kw):
        c = dict(base, **kw)
        c.setdefault("surrogate", {"ei": "canongp", "lcb": "canongp"}.get(c["strat"], "canon"))
        c["name"] = "order-" + name
        out.append((order, c, bound + t))

    for k in ("srbf", "dycors", "sop", "ei", "lcb"):
        slow = k in ("ei", "lcb")
        more = dict(ncenters=4) if k == "sop" else {}
        add(k + "-b2", 3 if not slow else 2, strat=k, dim=2, W=2, n0=4, batch=2, max_evals=12, num_cand=9, **more)
        add(k + "-b3", 2, strat=k, dim=1, W=3, n0=4, batch=3, max_evals=14, num_cand=9, **more)
        add(k + "-b3-w2", 2, strat=k, dim=2, W=2, n0=4, batch=3, max_evals=14, num_cand=9, rej=True, **more)
        add(k + "-b2-w3-ints", 2, strat=k, dim=3, W=3, n0=5, batch=2, max_evals=12, num_cand=9, lb=[-5.0, -2.0, 0.0], ub=[5.0, 1.0, 40.0], ints=[0, 2], rej=True, extras="kn", **more)
        add(k + "-b4", 1, strat=k, dim=2, W=4, n0=4, batch=4, max_evals=17, num_cand=20, extras="ki", failing=[1, 3], **more)
        add(k + "-long", 1, strat=k, dim=1, W=2, n0=4, batch=2, max_evals=44 if not slow else 20, num_cand=9, value="shallow", **dict(more, **(dict(tol=0.02) if slow else {})))
        add(k + "-neg", 2, strat=k, dim=2, W=3, n0=4, batch=3, max_evals=16, num_cand=9, value="neg", **more)
        if k in ("ei", "lcb", "sop"):
            add(k + "-fail", 2, strat=k, dim=2, W=3, n0=4, batch=3, max_evals=16, num_cand=9, failing=[0, 5, 9, 11], **more)
        else:
            add(k + "-rbf", 2, strat=k, dim=2, W=3, n0=4, batch=3, max_evals=16, num_cand=20, surrogate="rbf")
            add(k + "-rbf-long", 1, strat=k, dim=1, W=3, n0=4, batch=3, max_evals=50, num_cand=9, surrogate="rbf", value="shallow")
    add("random", 3, strat="random", dim=2, W=3, max_evals=7, rej=True)
    return out


def units_jobs(tier):
    t = 1 if tier == "thorough" else 0
    out = []

    def add(name, bound, **kw):
        c = dict(dict(fscale=1.0, xscale=1.0, xshift=0.0), **kw)
        if c["strat"] in ("ei", "lcb"):
            c.setdefault("surrogate", "canongp")
        c["name"] = "units-" + name
        out.append((units, c, bound + t))

    A, S = {"async": True, "W": 2}, {"async": False, "W": 2, "batch": 2}
    for k in ("srbf", "dycors", "sop", "ei", "lcb"):
        slow = k in ("ei", "lcb", "sop")
        b = 1 if slow else 2
        for mode, m in (("async", A), ("sync", S)):
            n = "%s-%s-" % (k, mode)
            c = dict(strat=k, dim=2, n0=5, max_evals=11, num_cand=20, **m)
            add(n + "x", 1, xscale=2.0 ** -4, **c)
            add(n + "x2", 1, xscale=2.0 ** 16, **dict(c, dim=3, extras="kn"))
            add(n + "f", b, fscale=4.0 ** -20, **dict(c, dim=3, extras="kn", value="neg"))
            add(n + "f2", 1, fscale=4.0 ** 20, **dict(c, dim=1, n0=4))
            add(n + "xf-rec", 1, xscale=2.0 ** 10, fscale=4.0 ** 11, **dict(c, max_evals=16, W=3, batch=None if m is A else 3, surrogate="canongp" if k in ("ei", "lcb") else "canon"))
            add(n + "shift", b, xshift=12288.0 if k not in ("ei", "lcb") else 3 * 2.0 ** -18, **c)
            add(n + "shift-ints", 1, xshift=-7.0, fscale=16.0, **dict(c, dim=3, n0=6, lb=[-5.0, -2.0, 0.0], ub=[5.0, 1.0, 40.0], ints=[0, 2]))
            if k in ("ei", "lcb"):
                add(n + "tol", 1, xscale=0.25, fscale=4.0 ** 9, **dict(c, tol=0.02, value="neg", max_evals=14))
                add(n + "dtol", 1, xscale=4.0, xshift=2.0 ** -18, **dict(c, dtol=0.9 * 2.0 ** -18, max_evals=12))
            elif k != "sop":
                add(n + "long", 1, xscale=4.0, fscale=4.0 ** 10, xshift=-5000.0, **dict(c, value="shallow", max_evals=40, n0=4, dim=1, num_cand=9))
    for k in ("ei", "lcb"):
        add(k + "-gp", 0, strat=k, dim=2, n0=6, max_evals=9, surrogate="realgp", xscale=2.0 ** 9, **A)
    add("random", 2, strat="random", dim=2, W=2, max_evals=6, xscale=2.0 ** 7)
    return out
