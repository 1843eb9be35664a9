"""C14, C15, C16: surrogate models against models built from scratch by independent means."""
import sys

import numpy as np

from .core import Prune, Violation, require

EPS = np.finfo(float).eps


def phi(name, r):
    if name == "Cubic":
        return r * r * r
    if name == "Linear":
        return r
    with np.errstate(all="ignore"):
        return np.where(r > 0, r * r * np.log(np.where(r > 0, r, 1.0)), 0.0)


def dphi_over_r(name, r):
    """phi'(r)/r"""
    if name == "Cubic":
        return 3.0 * r
    if name == "Linear":
        return 1.0 / r
    return 1.0 + 2.0 * np.log(r)


class Oracle:
    """The regularised RBF model, by one dense solve."""

    def __init__(self, cfg, X, f):
        self.k = cfg["kernel"]
        self.lb, self.ub = dom(cfg)
        self.V = (X - self.lb) / (self.ub - self.lb)
        n = len(X)
        D = np.sqrt(((self.V[:, None] - self.V[None]) ** 2).sum(axis=2))
        self.lin = cfg["tail"] == "Linear"
        P = self.tail(self.V)
        m = P.shape[1]
        self.rank = np.linalg.matrix_rank(P) if n else 0
        self.m = m
        self.ok = self.rank == m
        if not self.ok:
            return
        A = np.zeros((n + m, n + m))
        A[:n, :n] = phi(self.k, D) + cfg["eta"] * np.eye(n)
        A[:n, n:] = P
        A[n:, :n] = P.T
        rhs = np.concatenate((np.ravel(f), np.zeros(m)))
        self.cond = np.linalg.cond(A)
        if not np.isfinite(self.cond) or self.cond > 1e13:
            self.ok = False
            return
        sol = np.linalg.solve(A, rhs)
        self.l, self.p = sol[:n], sol[n:]
        self.tol = 1e-8 + 1e3 * EPS * self.cond
        self.scale = max(1.0, np.max(np.abs(rhs)))

    def tail(self, V):
        o = np.ones((len(V), 1))
        return np.hstack((o, V)) if self.lin else o

    def predict(self, xx):
        U = (xx - self.lb) / (self.ub - self.lb)
        D = np.sqrt(((U[:, None] - self.V[None]) ** 2).sum(axis=2))
        return phi(self.k, D) @ self.l + self.tail(U) @ self.p

    def deriv(self, xx):
        out = np.zeros(xx.shape)
        for i, x in enumerate(xx):
            u = (x - self.lb) / (self.ub - self.lb)
            g = self.p[1:].copy() if self.lin else np.zeros(len(u))
            for v, l in zip(self.V, self.l):
                d = u - v
                r = np.sqrt(np.sum(d * d))
                if r > 0:
                    g = g + l * dphi_over_r(self.k, r) * d
            out[i] = g / (self.ub - self.lb)
        return out


def dom(cfg):
    d = cfg["dim"]
    if cfg["dom"] == "unit":
        return np.zeros(d), np.ones(d)
    if cfg["dom"] == "far":
        return np.array([100.0, -1e3, 0.5])[:d], np.array([100.5, 2e3, 0.75])[:d]
    return np.array([-1.0, 10.0, -0.5])[:d], np.array([3.0, 17.5, 250.0])[:d]


def square(x):
    return np.asarray(x) ** 2 - 3.0


def cap(f):
    """Independent median capping."""
    v = sorted(np.ravel(f))
    n = len(v)
    m = v[n // 2] if n % 2 else 0.5 * (v[n // 2 - 1] + v[n // 2])
    return np.minimum(np.asarray(f, dtype=float), m)


def transform(name, lib=True):
    if name == "median":
        if not lib:
            return cap
        from pySOT.surrogate.output_transformations import median_capping

        return median_capping
    if name == "square":
        return square
    return None if lib else (lambda f: np.asarray(f, dtype=float))


def make_rbf(cfg):
    from pySOT import surrogate as sg

    d = cfg["dim"]
    lb, ub = dom(cfg)
    k = {"Cubic": sg.CubicKernel, "Linear": sg.LinearKernel, "TPS": sg.TPSKernel}[cfg["kernel"]]()
    t = {"Constant": sg.ConstantTail, "Linear": sg.LinearTail}[cfg["tail"]](d)
    kw = {}
    if cfg["eta"] != 1e-6:
        kw["eta"] = cfg["eta"]
    return sg.RBFInterpolant(dim=d, lb=lb, ub=ub, output_transformation=transform(cfg.get("transf")), kernel=k, tail=t, **kw)


def points(cfg):
    """Unit-box points of the named set, mapped to the domain."""
    d, n = cfg["dim"], cfg["n"]
    rs = np.random.RandomState(5 + d)
    i = np.arange(n)
    if cfg["pts"] in ("generic", "near", "dup", "dup2", "off"):
        g = np.array([0.6180339887, 0.7548776662, 0.8191725134])[:d]
        U = (0.37 + np.outer(i + 1, g)) % 1.0
        if cfg["pts"] == "dup":
            U[n // 2] = U[0]
            U[n - 1] = U[1]
        if cfg["pts"] == "dup2":
            U[1] = U[0]
            U[n - 2] = U[0]
        if cfg["pts"] == "near":
            U[n // 2] = U[0] + 1e-9
            U[n - 1] = U[1] - 1e-6
    elif cfg["pts"] == "grid":
        k = int(np.ceil(n ** (1.0 / d)))
        U = np.array([[(j // k ** a) % k for a in range(d)] for j in range(n)]) / max(1.0, k - 1.0)
        U = U[rs.permutation(n)]
    elif cfg["pts"] == "line":  # the first points do not determine the tail
        t = np.linspace(0.1, 0.9, n)
        U = np.tile(t[:, None], (1, d))
        U[n - 2:, 0] = [0.15, 0.85]
        if d > 1:
            U[n - 2:, -1] = [0.7, 0.05]
    lb, ub = dom(cfg)
    return lb + (ub - lb) * U


def values(cfg, X):
    lb, ub = dom(cfg)
    U = (X - lb) / (ub - lb)
    v = cfg.get("values", "smooth")
    if v == "one":
        return np.ones(len(X))
    if v == "lin":
        return 3.0 - 2.0 * U[:, 0] + (0.5 * U[:, 1] if U.shape[1] > 1 else 0.0)
    f = 5.0 * np.sum((U - 0.3) ** 2, axis=1) + np.cos(7 * U[:, 0]) + 2.0
    if v == "dupdiff":
        f = f + 0.1 * np.arange(len(X))
    return f


def queries(cfg, X):
    lb, ub = dom(cfg)
    d = cfg["dim"]
    U = np.array([[0.0, 0.0, 0.0], [1.0, 1.0, 1.0], [0.5, 0.5, 0.5], [0.21, 0.83, 0.44], [0.9, 0.05, 0.6], [1.0, 0.0, 0.3], [1.3, -0.2, 0.4], [-0.1, 0.6, 1.2]])[:, :d]  # the last two are outside of the domain
    return np.vstack((lb + (ub - lb) * U, X))


def compare(got, want, tol, msg, *args):
    err = np.max(np.abs(got - want)) if got.size else 0.0
    require(got.shape == want.shape and np.isfinite(err) and err <= tol, msg + ": {} instead of {}", *args, np.ravel(got).tolist(), np.ravel(want).tolist())


def add_all(s, X, f, style):
    """Different legal ways to hand over one or more points."""
    if style == "point" and len(X) == 1:
        s.add_points(X[0].copy(), float(f[0]))
    elif style == "col":
        s.add_points(X.copy(), f.reshape(-1, 1).copy())
    else:
        s.add_points(X.copy(), f.copy())


def incremental(ch, cfg):
    """All ways to split the sequence of points into additions, with or without a use of the model in between."""
    X = points(cfg)
    f = values(cfg, X)
    s = make_rbf(cfg)
    n = len(X)
    start, hist = 0, []
    Q = queries(cfg, X)
    for i in range(1, n + 1):
        c = ch.choose(4 if cfg.get("deriv") else 3, "gap", free=True) if i < n else 2
        if c == 0:
            continue
        add_all(s, X[start:i], f[start:i], ("point", "col", "vec")[len(hist) % 3])
        start = i
        hist.append("%d%s" % (i, "" if c == 1 else "?"))
        if c == 1:
            continue
        o = Oracle(cfg, X[:i], transform(cfg.get("transf"), False)(f[:i]))
        if not o.ok:
            if cfg.get("broken"):  # the model is undefined: whatever happens must not spoil it for later
                try:
                    s.predict(Q[:1])
                except Exception:
                    pass
            continue
        if o.tol > 1e-2:
            ch.stats.count("ill-conditioned")
            continue
        if c == 3:
            compare(s.predict_deriv(Q[:8]), o.deriv(Q[:8]), 30 * o.tol * o.scale * max(1.0, np.max(np.abs(o.deriv(Q[:8])))), "derivative after adding {}", hist)
        got = s.predict(Q)
        compare(got, o.predict(Q).reshape(-1, 1), o.tol * o.scale, "predictions after adding {}", hist)
        if cfg["eta"] <= 1e-12 and len(set(map(tuple, X[:i]))) == i:
            compare(got[8:8 + i].ravel(), transform(cfg.get("transf"), False)(f[:i]), o.tol * o.scale, "no interpolation at the data points after adding {}", hist)
        if cfg.get("values") == "one" or (cfg.get("values") == "lin" and cfg["tail"] == "Linear"):
            if cfg.get("transf") is None:
                compare(got.ravel(), values(cfg, Q), o.tol * o.scale, "polynomial not reproduced after adding {}", hist)
        ch.stats.transitions += 1
        ch.stats.state(cfg["name"], i, tuple(hist))
    ch.stats.case(cfg["name"], tuple(hist))


PAIRS = [("Cubic", "Linear"), ("TPS", "Linear"), ("Linear", "Constant"), ("Linear", "Linear")]


def inc_jobs(tier):
    out = []
    big = tier == "thorough"
    for kn, tl in PAIRS:
        for dim in (1, 2, 3):
            for pts in ("generic", "dup", "dup2", "near", "grid", "line"):
                for eta in (1e-6, 0.0, 1e-13, 1e-2):
                    if eta < 1e-9 and pts in ("dup", "dup2", "near"):
                        continue
                    for transf in (None, "median", "square"):
                        for vals in ("smooth", "one", "lin", "dupdiff"):
                            for dm in ("unit", "box", "far"):
                                key = (transf is None) + 2 * (vals == "smooth") + 4 * (dm == "box")
                                if not big:
                                    # one factor at a time around the defaults
                                    odd = (eta != 1e-6) + (transf is not None) + (vals != "smooth") + (dm != "box") + (dim != 2)
                                    if odd > (2 if vals in ("one", "lin") and transf is None and dm == "box" else 1):
                                        continue
                                elif dm == "far" and (vals != "smooth" or transf):
                                    continue
                                n = (6 if big else 5) + (1 if pts == "line" or dim == 3 else 0)
                                if big and dim > 1 and key == 7:
                                    n += 1
                                name = "-".join(map(str, (kn, tl, dim, pts, eta, transf, vals, dm)))
                                out.append((incremental, dict(name=name, kernel=kn, tail=tl, dim=dim, pts=pts, eta=eta, transf=transf, values=vals, dom=dm, n=n, broken=pts == "line", deriv=key == 7 and dim == 2), 0))
    return out


def gradient(ch, cfg):
    """predict_deriv against the gradient of predict (finite differences) and of the model (closed form)."""
    X = points(cfg)
    f = values(cfg, X)
    s = make_rbf(cfg)
    n = len(X)
    lb, ub = dom(cfg)
    start = 0
    d = cfg["dim"]
    g = np.array(np.meshgrid(*[cfg["grid"]] * d)).reshape(d, -1).T
    grid = lb + (ub - lb) * g
    near = []
    for x in X:
        for h in (1e-3, 1e-6, 1e-9):
            for j in range(d):
                e = np.zeros(d)
                e[j] = h * (ub[j] - lb[j])
                near += [x + e, x - e]
    near = np.clip(np.array(near), lb, ub)
    grid = np.vstack((grid, lb + (ub - lb) * np.array([[1.3, -0.2, 0.4], [-0.15, 0.6, 1.2]])[:, :d]))  # the model is defined outside of the domain, too
    for i in range(1, n + 1):
        c = ch.choose(2, "gap", free=True) if i < n else 1
        if c == 0:
            continue
        add_all(s, X[start:i], f[start:i], "vec")
        start = i
        o = Oracle(cfg, X[:i], transform(cfg.get("transf"), False)(f[:i]))
        if not o.ok or o.tol > 1e-4:
            continue
        if cfg.get("reset"):
            s.reset()
            add_all(s, X[:i], f[:i], "col")
        Q = np.vstack((grid, X[:i], near)) if i == n or cfg.get("all") else np.vstack((grid, X[:i]))
        keep = Q.copy()
        D = s.predict_deriv(Q)
        require(np.array_equal(Q, keep), "predict_deriv modifies its argument")
        require(D.shape == Q.shape, "predict_deriv returns {} for {} points", D.shape, Q.shape)
        require(np.all(np.isfinite(D)), "derivative {} is not finite", D.tolist())
        W = o.deriv(Q)
        scale = max(1.0, np.max(np.abs(W * (ub - lb)), initial=0.0))
        # relative distance to the data points: the kernel derivatives of low order are singular there
        U = (Q - lb) / (ub - lb)
        r = np.sqrt(((U[:, None] - o.V[None]) ** 2).sum(axis=2)).min(axis=1)
        for q in range(len(Q)):
            if cfg["kernel"] == "Linear" and r[q] < 1e-5:
                continue  # not differentiable at the data points
            err = np.max(np.abs(D[q] - W[q]) * (ub - lb))
            require(err <= scale * (100 * o.tol + 1e-9 / max(r[q], 1e-3)), "derivative {} at {} instead of {}", D[q].tolist(), Q[q].tolist(), W[q].tolist())
        # the same against the model's own predictions
        h = 1e-5
        for q in range(len(Q)):
            if r[q] < 50 * h and not (cfg["kernel"] == "Cubic"):
                continue
            for j in range(d):
                e = np.zeros(d)
                e[j] = h * (ub[j] - lb[j])
                fd = (s.predict(Q[q] + e) - s.predict(Q[q] - e)).item() / (2 * h)
                require(abs(fd - D[q, j] * (ub[j] - lb[j])) <= scale * 2e-5 + 1e-9 * o.scale * min(o.cond, 1e6) * EPS / h * 1e5, "derivative {} of coordinate {} at {} differs from the difference quotient {}", D[q, j], j, Q[q].tolist(), fd / (ub[j] - lb[j]))
            if q < 8:
                one = s.predict_deriv(Q[q])
                require(one.shape == (1, d) and np.allclose(one[0], D[q], rtol=1e-12, atol=1e-12 * scale), "derivative of a single point {} differs: {} instead of {}", Q[q].tolist(), one.tolist(), D[q].tolist())
        ch.stats.transitions += len(Q)
        ch.stats.state(cfg["name"], i, ch.trace and tuple(t[1] for t in ch.trace))
        ch.stats.count("points", len(Q))
    ch.stats.case(cfg["name"], tuple(t[1] for t in ch.trace))


def grad_jobs(tier):
    out = []
    big = tier == "thorough"
    for kn, tl in PAIRS:
        for dim in (1, 2, 3):
            for pts in ("generic", "grid", "line", "dup"):
                for dm in ("unit", "box", "far"):
                    for eta in (1e-6, 0.0, 1e-2):
                        for transf, vals, reset in ((None, "smooth", False), ("median", "smooth", False), ("square", "dupdiff", False), (None, "lin", False), (None, "smooth", True)):
                            if pts == "dup" and eta == 0.0:
                                continue
                            odd = (dm != "box") + (eta != 1e-6) + (transf is not None or vals != "smooth" or reset) + (pts != "generic")
                            if not big and odd > 1:
                                continue
                            n = dim + (3 if not big else 4) + (pts == "line")
                            grid = ([0.0, 0.31, 0.77, 1.0] if dim < 3 else [0.0, 0.4, 1.0]) if not big else [0.0, 0.13, 0.31, 0.5, 0.77, 1.0]
                            name = "-".join(map(str, (kn, tl, dim, pts, dm, eta, transf, vals, reset)))
                            out.append((gradient, dict(name=name, kernel=kn, tail=tl, dim=dim, pts=pts, eta=eta, transf=transf, values=vals, dom=dm, n=n, reset=reset, grid=grid), 0))
    return out


# C15 --------------------------------------------------------------------------------------------------------------


class Spied:
    """An output transformation that records what it is applied to."""

    def __init__(self, name):
        self.name = name
        self.calls = []

    def __call__(self, f):
        f = np.asarray(f)
        self.calls.append(f.copy())
        g = transform(self.name, False)(f)
        if self.name == "inplace":
            f *= -1.0  # a transformation that works in place must not damage the data
            return f
        return g


def make(cfg, tr, lb=None, ub=None):
    from pySOT import surrogate as sg

    d = cfg["dim"]
    if lb is None:
        lb, ub = (a.copy() for a in dom(cfg))
    kw = dict(dim=d, lb=lb, ub=ub, output_transformation=tr)
    k = cfg["model"]
    if k == "mars":
        stub_earth()
        from pySOT.surrogate import MARSInterpolant

        return MARSInterpolant(**kw)
    if k.startswith("rbf") and k != "rbf-default":
        kn, tl = {"rbf": ("Cubic", "Linear"), "rbf-default": ("Cubic", "Linear"), "rbf-tps": ("TPS", "Linear"), "rbf-lin": ("Linear", "Constant")}[k]
        return sg.RBFInterpolant(kernel=getattr(sg, kn + "Kernel")(), tail=getattr(sg, tl + "Tail")(d), **kw)
    if k == "rbf-default":
        return sg.RBFInterpolant(**kw)
    if k.startswith("poly"):
        return sg.PolyRegressor(degree=int(k[-1]), **kw)
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, ConstantKernel, WhiteKernel

    if k == "gp-opt":
        return sg.GPRegressor(n_restarts_optimizer=0, **kw)
    gp = GaussianProcessRegressor(kernel=ConstantKernel(1.5) * RBF(length_scale=0.4 * np.ones(d)) + WhiteKernel(1e-3), optimizer=None)
    return sg.GPRegressor(gp=gp, **kw)


def smoother(X, y, xx):
    """What the stand-in for py-earth computes: depends on all data and is symmetric in them."""
    D = ((np.asarray(xx)[:, None] - X[None]) ** 2).sum(axis=2)
    W = 1.0 / (0.02 + D)
    return W.dot(y) / W.sum(axis=1) + 0.01 * y.sum() + 0.1 * len(y)


def stub_earth():
    """Stand-in for the optional package py-earth (same calling conventions)."""
    import types

    class Earth:
        def __init__(self, *a, **k):
            self.data = None

        def fit(self, X, y):
            X, y = np.array(X, dtype=float), np.array(y, dtype=float)
            require(X.ndim == 2 and len(X) == len(y) and len(X) > 0 and y.size == len(y), "model fitted to {} points and {} values", X.shape, y.shape)
            self.data = X, y.ravel()
            return self

        def predict(self, xx):
            require(self.data is not None, "prediction of a model that was not fitted")
            xx = np.array(xx, dtype=float)
            require(xx.ndim == 2 and xx.shape[1] == self.data[0].shape[1], "prediction of points of shape {}", xx.shape)
            return smoother(*self.data, xx)

        def predict_deriv(self, xx, variables=None):
            raise Violation("not used")

    mod = types.ModuleType("pyearth")
    mod.Earth = Earth
    sys.modules["pyearth"] = mod


def outputs(s, Q, std):
    out = [s.predict(Q)]
    if std:
        out.append(s.predict_std(Q))
    return out


def lifecycle(ch, cfg):
    """Every sequence of additions (in several shapes), uses and resets, compared with a fresh model after each use."""
    lb, ub = dom(cfg)
    d = cfg["dim"]
    tr = Spied(cfg.get("transf"))
    s = make(cfg, tr)
    base = dict(cfg, n=9, pts="generic")
    POOL = points(base)
    VALS = values(dict(cfg, values="dupdiff"), POOL)
    std = cfg["model"].startswith("gp")
    m = d + 1 if cfg["model"].startswith("rbf") else 1
    X, f = np.empty((0, d)), np.empty((0,))
    Q = lb + (ub - lb) * np.array([[0.11, 0.92, 0.5], [0.5, 0.5, 0.2], [0.97, 0.04, 0.9], [1.2, -0.1, 0.7]])[:, :d]  # the last one is outside of the domain
    nxt = 0
    hist = []
    lb2, ub2 = lb * 3.0 - 7.0, ub * 3.0 - 7.0
    groups = [1, d + 1, 2]
    for step in range(cfg["depth"]):
        uses = ["use", "deriv"] if cfg["model"].startswith("rbf") else ["use"]
        ops = [o for o in uses if len(X) >= m and not (hist and hist[-1] == o)]
        if step < cfg["depth"] - 1:  # ends with a use: a shorter sequence says the same
            ops += ["add0", "add1", "add2"] + (["reset"] if hist and hist[-1] != "reset" else [])
        if not ops:
            raise Prune()
        op = ops[ch.choose(len(ops), "op", free=True)]
        hist.append(op)
        if op.startswith("add"):
            k = groups[int(op[3])]
            idx = [(nxt + i) % len(POOL) for i in range(k)]
            nxt += k
            xx, ff = POOL[idx].copy(), VALS[idx].copy()
            X, f = np.vstack((X, xx)), np.concatenate((f, ff))
            if op == "add0":
                ax, af = xx[0], [float(ff[0]), np.float64(ff[0]), np.array(ff[0]), ff.copy()][(len(X) + step) % 4]
            elif op == "add1":
                ax, af = xx, ff
            else:
                ax, af = xx, ff.reshape(-1, 1)
            kx, kf = np.array(ax, copy=True), np.array(af, copy=True)
            s.add_points(ax, af)
            require(np.array_equal(kx, ax) and np.array_equal(kf, af), "add_points modifies its arguments")
            ax[...] = 1e9  # the caller may reuse its arrays
            if isinstance(af, np.ndarray) and af.ndim:
                af[...] = -1e9
        elif op == "reset":
            s.reset()
            X, f = np.empty((0, d)), np.empty((0,))
        else:
            tr.calls.clear()
            kq = Q.copy()
            was = s.updated
            if op == "deriv":
                D = s.predict_deriv(Q)
                require(np.array_equal(kq, Q), "predict_deriv modifies its argument")
            got = outputs(s, Q, std)
            require(np.array_equal(kq, Q), "predicting modifies the points")
            for c in tr.calls:
                require(np.array_equal(np.ravel(c), f), "output transformation applied to {} instead of all values {}", np.ravel(c).tolist(), f.tolist())
            if cfg["model"] == "mars":
                e = smoother((X - lb) / (ub - lb), np.ravel(transform(cfg.get("transf"), False)(f.copy())) * (-1.0 if cfg.get("transf") == "inplace" else 1.0), (Q - lb) / (ub - lb))
                require(np.allclose(got[0].ravel(), e, rtol=1e-9, atol=1e-9), "predictions after {} are {} instead of {} (fit of the current, transformed data)", hist, got[0].ravel().tolist(), e.tolist())
            fresh = make(cfg, Spied(cfg.get("transf")))
            fresh.add_points(X.copy(), f.copy())
            want = outputs(fresh, Q, std)
            tol = cfg.get("tol", 1e-7)
            for g, w, what in zip(got, want, ("predictions", "deviations")):
                require(g.shape == (len(Q), 1), "{} of {} points have shape {}", what, len(Q), g.shape)
                require(np.all(np.isfinite(g)), "{} {} are not finite", what, g.tolist())
                require(np.max(np.abs(g - w)) <= tol * max(1.0, np.max(np.abs(w))), "{} after {} are {} instead of {} (new model with the same data)", what, hist, g.ravel().tolist(), w.ravel().tolist())
            if op == "deriv":
                require(np.max(np.abs((D - fresh.predict_deriv(Q)) * (ub - lb))) <= 100 * tol * max(1.0, np.max(np.abs(D * (ub - lb)))), "derivatives after {} differ from those of a new model with the same data", hist)
            for i in range(len(Q)):
                for sub in ([i], [i, (i + 1) % len(Q)]):
                    for g, o in zip(got, outputs(s, Q[sub], std)):
                        require(o.shape == (len(sub), 1) and abs(o[0, 0] - g[i, 0]) <= 1e-9 * max(1.0, abs(g[i, 0])), "prediction of a point depends on the other points of the call")
                for g, o in zip(got, outputs(s, Q[i], std)):
                    require(o.shape == (1, 1) and abs(o[0, 0] - g[i, 0]) <= 1e-9 * max(1.0, abs(g[i, 0])), "prediction of a single point has shape {} / differs", o.shape)
            tf = np.ravel(transform(cfg.get("transf"), False)(f.copy())) * (-1.0 if cfg.get("transf") == "inplace" else 1.0)
            for a, b, data in ((1.0, 0.0, tf), (2.5, 40.0, 2.5 * tf + 40.0)):  # only the transformed values matter; units do not
                if (a, b) == (1.0, 0.0) and not cfg.get("transf") or std and np.std(tf) < 1e-3 or cfg["model"] == "mars":
                    continue
                plain = make(cfg, None)
                plain.add_points(X.copy(), data)
                for g, o, what in zip(got, outputs(plain, Q, std), ("predictions", "deviations")):
                    e = a * g + (b if what == "predictions" else 0.0)
                    require(np.max(np.abs(e - o)) <= 10 * tol * max(1.0, np.max(np.abs(o))), "{} {}; a model of {} * (transformed values) + {} gives {}", what, g.ravel().tolist(), a, b, o.ravel().tolist())
            if cfg["model"] != "gp-opt":
                scaled = make(cfg, Spied(cfg.get("transf")), lb2, ub2)
                scaled.add_points(3.0 * X - 7.0, f.copy())
                for g, o in zip(got, outputs(scaled, 3.0 * Q - 7.0, std)):
                    require(np.max(np.abs(g - o)) <= 1e-5 * max(1.0, np.max(np.abs(g))), "predictions change when the domain is rescaled")
        require(s.num_pts == len(X), "{} points counted instead of {} after {}", s.num_pts, len(X), hist)
        require(np.array_equal(s.X, X) and s.X.shape == X.shape, "points {} after {} instead of {}", s.X.tolist(), hist, X.tolist())
        require(s.fX.shape == (len(f), 1) and np.array_equal(np.ravel(s.fX), f), "values {} after {} instead of {}", np.ravel(s.fX).tolist(), hist, f.tolist())
        ch.stats.state(cfg["name"], tuple(hist))
    ch.stats.case(cfg["name"], tuple(hist))


def capping(ch, cfg):
    """Median capping of every vector over a small alphabet."""
    from pySOT.surrogate.output_transformations import identity, median_capping

    alphabet = [-2.0, 0.0, 1.0, 1.5, 100.0]
    n = cfg["n"]
    v = np.array([ch.pick(alphabet, "v", free=True) for _ in range(n)])
    for a in (v, v.reshape(-1, 1)):
        b = a.copy()
        got = median_capping(b)
        require(np.array_equal(a, b), "median capping modifies its argument")
        require(got.shape == a.shape and np.array_equal(got, cap(a)), "median capping of {} gives {}", v.tolist(), np.ravel(got).tolist())
        require(np.array_equal(identity(b), a), "identity changes {}", v.tolist())
    ch.stats.case("cap", tuple(v))


def life_jobs(tier):
    out = []
    big = tier == "thorough"
    for model, dim, depth in [("rbf", 1, 6), ("rbf", 2, 5), ("rbf-default", 2, 5), ("rbf-tps", 2, 5), ("rbf-lin", 2, 5), ("poly2", 1, 5), ("poly3", 2, 4), ("poly1", 2, 4), ("gp", 1, 5), ("gp", 2, 4), ("gp-opt", 1, 4)]:
        for transf in (None, "median", "square", "inplace"):
            for dm in ("box", "far", "unit"):
                if not big and ((dm != "box" and transf) or (model == "gp-opt" and (dm != "box" or transf))):
                    continue
                dep = depth + (1 if big and not model.startswith("gp") else 0) - (1 if not big and transf else 0)
                out.append((lifecycle, dict(name="%s-%d-%s-%s" % (model, dim, transf, dm), model=model, dim=dim, depth=dep, transf=transf, dom=dm, tol=1e-4 if model == "gp-opt" else 1e-6), 0))
    for n in range(1, 7 if big else 6):
        out.append((capping, dict(name="capping", n=n), 0))
    return out


def mars_jobs(tier):
    out = []
    for dim in (1, 2, 3):
        for transf in (None, "median", "square", "inplace"):
            for dm in ("box", "far", "unit"):
                out.append((lifecycle, dict(name="mars-%d-%s-%s" % (dim, transf, dm), model="mars", dim=dim, depth=7 if tier == "thorough" else 5, transf=transf, dom=dm, tol=1e-6), 0))
    return out
