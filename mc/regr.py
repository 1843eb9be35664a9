"""C27: the regression surrogates against closed forms (ridge regression on monomials, Gaussian process posterior)."""
import itertools
import warnings

import numpy as np
from scipy.optimize import minimize

from .core import require
from .surr import Spied, dom, transform

LATT = {1: [0.0, 0.21, 0.5, 0.86, 1.0], 2: [0.0, 0.4, 1.0], 3: [0.1, 0.8]}


def monomials(U, deg):
    d = U.shape[1]
    cols = [np.prod(U[:, list(c)], axis=1) for k in range(1, deg + 1) for c in itertools.combinations_with_replacement(range(d), k)]
    return np.stack(cols, axis=1) if cols else np.empty((len(U), 0))


def ridge(U, f, Q, deg):
    F, G = monomials(U, deg), monomials(Q, deg)
    m, mu = F.mean(axis=0), f.mean()
    C = F - m
    c = np.linalg.solve(C.T @ C + np.eye(C.shape[1]), C.T @ (f - mu)) if C.shape[1] else np.zeros(0)
    return mu + (G - m) @ c


def sqdist(A, B, ls):
    return (((A[:, None] - B[None]) / ls) ** 2).sum(axis=2)


def gp_parts(kind, d):
    """A scikit-learn kernel, and (covariance, noise variance, extra diagonal) in closed form."""
    from sklearn.gaussian_process.kernels import RBF, ConstantKernel, Matern, WhiteKernel

    ls = np.array([0.4, 0.9, 0.25])[:d]
    if kind == "se":
        return ConstantKernel(1.5) * RBF(length_scale=ls) + WhiteKernel(1e-3), lambda A, B: 1.5 * np.exp(-0.5 * sqdist(A, B, ls)), 1e-3
    if kind == "matern":
        def k(A, B):
            r = np.sqrt(3.0 * sqdist(A, B, ls))
            return 0.7 * (1 + r) * np.exp(-r)
        return ConstantKernel(0.7) * Matern(length_scale=ls, nu=1.5) + WhiteKernel(0.05), k, 0.05
    return RBF(length_scale=ls), lambda A, B: np.exp(-0.5 * sqdist(A, B, ls)), 0.0


def posterior(cov, noise, alpha, U, y, Q):
    K = cov(U, U) + (noise + alpha) * np.eye(len(U))
    k = cov(Q, U)
    s = np.linalg.solve(K, k.T)
    var = np.diag(cov(Q, Q)) + noise - np.einsum("ij,ji->i", k, s)
    return k @ np.linalg.solve(K, y), np.sqrt(np.maximum(var, 0.0)), np.linalg.cond(K)


def loglik(theta, kern, U, y, alpha):
    K = kern.clone_with_theta(theta)(U) + alpha * np.eye(len(U))
    s, ld = np.linalg.slogdet(K)
    return -0.5 * y @ np.linalg.solve(K, y) - 0.5 * ld - 0.5 * len(U) * np.log(2 * np.pi)


def fit(ch, cfg):
    """All choices of n lattice points (with repetition) and all values over an alphabet, added in two groups."""
    from pySOT import surrogate as sg
    from sklearn.gaussian_process import GaussianProcessRegressor

    warnings.simplefilter("ignore")
    d, n, model = cfg["dim"], cfg["n"], cfg["model"]
    lb, ub = dom(cfg)
    latt = np.array(list(itertools.product(LATT[d], repeat=d)))
    tr = cfg.get("transf")
    idx = []
    for i in range(n):  # nondecreasing: order does not matter, repetitions do
        lo = idx[-1] if idx else 0
        idx.append(lo + ch.choose(len(latt) - lo, "point", free=True))
    U = latt[idx]
    lists = list(itertools.product([-1.0, 0.5, 7.0], repeat=n))[:: cfg.get("vstride", 1)]
    Q = np.vstack((latt[:: cfg.get("qstride", 1)], [[0.33, 0.71, 0.92][:d]], [[1.25, -0.3, 0.6][:d]], U))
    for vals in lists:
        raw = np.array(vals) * cfg.get("unit", 1.0)
        f = np.ravel(transform(tr, False)(raw.copy()))
        kw = dict(dim=d, lb=lb.copy(), ub=ub.copy(), output_transformation=transform(tr))
        if model.startswith("poly"):
            s = sg.PolyRegressor(**dict(kw, **({} if model == "poly" else dict(degree=int(model[4:])))))
            want = ridge(U, f, Q, 2 if model == "poly" else int(model[4:]))
            wstd, cond = None, 1.0
        else:
            kern, cov, noise = gp_parts(model, d)
            s = sg.GPRegressor(gp=GaussianProcessRegressor(kernel=kern, optimizer=None, alpha=1e-6), **kw)
            mu, sd = f.mean(), max(np.std(f), 1e-6)
            m, w, cond = posterior(cov, noise, 1e-6, U, (f - mu) / sd, Q)
            want, wstd = mu + sd * m, sd * w
        X = lb + (ub - lb) * U
        k = (len(idx) + int(raw[0] > 0)) % (n + 1)
        for a, b in ((0, k), (k, n)):
            if b > a:
                s.add_points(X[a:b].copy(), raw[a:b].copy())
                if a == 0 and k < n:
                    s.predict(X[:1])
        P = lb + (ub - lb) * Q
        got = s.predict(P)
        scale = max(1.0, np.max(np.abs(f)))
        tol = (1e-9 + 1e-14 * cond) * scale
        require(got.shape == (len(Q), 1), "predictions of shape {}", got.shape)
        e = np.abs(np.ravel(got) - want)
        require(np.max(e) <= tol, "{} of values {} at {} (unit box) predicts {} at {} instead of {}", model, raw.tolist(), U.tolist(), np.ravel(got)[e.argmax()], Q[e.argmax()].tolist(), want[e.argmax()])
        if wstd is not None:
            gs = np.ravel(s.predict_std(P))
            e = np.abs(gs ** 2 - wstd ** 2)
            require(np.all(gs >= 0) and np.max(e) <= tol * scale, "{} of values {} at {} (unit box) has deviation {} at {} instead of {}", model, raw.tolist(), U.tolist(), gs[e.argmax()], Q[e.argmax()].tolist(), wstd[e.argmax()])
    ch.stats.executions += len(lists) - 1
    ch.stats.case(cfg["name"], tuple(idx))
    ch.stats.count("fits", len(lists))


def default_gp(ch, cfg):
    """The default Gaussian process: posterior under its own optimised hyperparameters, which are no worse than where the search started."""
    from pySOT import surrogate as sg

    warnings.simplefilter("ignore")
    d, n = cfg["dim"], cfg["n"]
    lb, ub = dom(cfg)
    idx = [ch.choose(3, "shift", free=True) for _ in range(3)]
    rs = np.random.RandomState(3)
    U = (np.outer(np.arange(n) + 1, [0.6180339887, 0.7548776662, 0.8191725134][:d]) + 0.11 * idx[0]) % 1.0
    f = np.cos((3 + 2 * idx[1]) * U[:, 0]) + U.sum(axis=1) * (1 + 10 * idx[2]) + 3.0
    f *= cfg.get("unit", 1.0)
    s = sg.GPRegressor(dim=d, lb=lb, ub=ub, n_restarts_optimizer=cfg["restarts"])
    k = ch.pick([n, n - 1, n // 2], "first", free=True)  # fitted to some of the data before
    for a, b in ((0, k), (k, n)):
        if b > a:
            s.add_points(lb + (ub - lb) * U[a:b], f[a:b].copy())
            s.predict(lb + (ub - lb) * U[:1])
    Q = rs.random_sample((6, d))
    Q[5] = 1.2 * Q[5] - 0.1 + 0.3 * (np.arange(d) == 0)  # maybe outside of the domain
    P = lb + (ub - lb) * Q
    got, std = s.predict(P), s.predict_std(P)
    require(got.shape == (6, 1) and std.shape == (6, 1) and np.all(np.isfinite(got)) and np.all(std >= 0), "predictions of shape {}, deviations of shape {}", got.shape, std.shape)
    kern = getattr(getattr(s, "model", None), "kernel_", None)
    if kern is None:
        ch.stats.count("fitted kernel not accessible")
        return
    mu, sd = f.mean(), max(np.std(f), 1e-6)
    y = (f - mu) / sd
    K = kern(U) + 1e-10 * np.eye(n)
    k = kern(Q, U)
    want = mu + sd * (k @ np.linalg.solve(K, y))
    var = kern.diag(Q) - np.einsum("ij,ji->i", k, np.linalg.solve(K, k.T))
    tol = (1e-8 + 1e-14 * np.linalg.cond(K)) * max(1.0, np.max(np.abs(f)))
    require(np.max(np.abs(np.ravel(got) - want)) <= tol, "predictions {} but the fitted process gives {}", np.ravel(got).tolist(), want.tolist())
    require(np.max(np.abs(np.ravel(std) ** 2 - sd ** 2 * np.maximum(var, 0))) <= tol * max(1.0, sd), "deviations {} but the fitted process gives {}", np.ravel(std).tolist(), (sd * np.sqrt(np.maximum(var, 0))).tolist())
    start = s.model.kernel
    require(loglik(kern.theta, kern, U, y, 1e-10) >= loglik(start.theta, start, U, y, 1e-10) - 1e-6, "the fitted hyperparameters are less likely than the initial ones")
    best = minimize(lambda th: -loglik(th, kern, U, y, 1e-10), kern.theta, method="L-BFGS-B", bounds=kern.bounds, options=dict(maxiter=15))
    require(-best.fun <= loglik(kern.theta, kern, U, y, 1e-10) + 0.1, "the hyperparameters {} are not fitted to the data: {} are more likely", np.exp(kern.theta).tolist(), np.exp(best.x).tolist())
    # the data of a smooth function are nearly interpolated
    e = np.ravel(s.predict(lb + (ub - lb) * U)) - f
    require(np.max(np.abs(e)) <= 0.35 * sd, "the fitted process misses the data {} by {}", f.tolist(), e.tolist())
    ch.stats.case(cfg["name"], tuple(idx), k)
    ch.stats.count("fits")


def jobs(tier):
    out = []
    big = tier == "thorough"
    for model in ("poly", "poly1", "poly2", "poly3", "poly4", "poly5", "se", "matern", "bare"):
        for d, n in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 2)) + (((1, 5), (2, 4), (3, 3)) if big else ()):
            for dm in ("unit", "box", "far"):
                for tr in (None, "median", "square"):
                    odd = (dm != "box") + (tr is not None)
                    if model in ("poly4", "poly5") and (d > 1 or odd) and not big:
                        continue
                    if odd > (2 if big else 1) or (model == "bare" and n > 3):
                        continue
                    vs = {1: 1, 2: 1, 3: 2, 4: 7, 5: 23}[n] if not big else {4: 2, 5: 5}.get(n, 1)
                    unit = 1e4 if dm == "far" else 1.0
                    out.append((fit, dict(name="-".join(map(str, (model, d, n, dm, tr))), model=model, dim=d, n=n, dom=dm, transf=tr, vstride=vs * (2 if model in ("se", "matern") and not big else 1), unit=unit, qstride=1 if d == 1 else 2), 0))
    for d in (1, 2, 3):
        for n in (4, 8):
            for dm in ("unit", "box", "far"):
                out.append((default_gp, dict(name="default-%d-%d-%s" % (d, n, dm), dim=d, n=n, dom=dm, restarts=0 if n == 4 else 2, unit=100.0 if dm == "far" else 1.0), 0))
    return out
