"""C21: domain scaling, rescaling and rounding against exact rational arithmetic."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from .core import require

LBS = [-3.0, 0.0, 2.0, -1e6]
WIDTHS = [1.0, 4.0, 1e-3, 2.5e6]
RELS = [0.0, 1.0, 0.5, 1e-9, 0.3, 1 - 1e-9, -0.25, 1.25]


def close(a, b, tol):
    return abs(a - b) <= tol


def unit_box(ch, cfg):
    """Affine maps of one or several points to the unit box and back."""
    from pySOT.utils import from_unit_box, to_unit_box

    dim = cfg["dim"]
    doms = list(itertools.product(LBS, WIDTHS))
    d = [ch.pick(doms if i == 0 else cfg["doms"], "domain", free=True) for i in range(dim)]
    lb = np.array([a for a, _ in d])
    ub = np.array([a + w for a, w in d])
    form = ch.pick(["flat", "row"], "form", free=True)
    L, U = (lb, ub) if form == "flat" else (lb.reshape(1, -1), ub.reshape(1, -1))
    rels = np.array(list(itertools.product(RELS[: cfg["nrel"]], repeat=dim)))
    pts = lb + rels * (ub - lb)
    keep = pts.copy(), rels.copy(), L.copy(), U.copy()
    T = to_unit_box(pts, L, U)
    B = from_unit_box(rels, L, U)
    require(np.shape(T) == pts.shape and np.shape(B) == rels.shape, "mapping changes the shape: {} and {} instead of {}", np.shape(T), np.shape(B), pts.shape)
    for i in range(dim):
        l, u = Fr(float(lb[i])), Fr(float(ub[i]))
        eps = 1e-15 * (abs(lb[i]) + abs(ub[i]))
        for k in range(len(pts)):
            w = float((Fr(float(pts[k, i])) - l) / (u - l))
            require(close(T[k, i], w, 1e-14 * (1 + abs(w)) + 4 * eps / float(u - l)), "coordinate {} of {} in [{}, {}] maps to {} instead of {}", i, pts[k, i], lb[i], ub[i], T[k, i], w)
            w = float(l + (u - l) * Fr(float(rels[k, i])))
            require(close(B[k, i], w, 4 * eps), "unit coordinate {} maps back to {} instead of {}", rels[k, i], B[k, i], w)
            if pts[k, i] == lb[i]:
                require(T[k, i] == 0, "lower bound maps to {}", T[k, i])
            if pts[k, i] == ub[i]:
                require(T[k, i] == 1, "upper bound maps to {}", T[k, i])
    back = from_unit_box(T, L, U)
    require(np.allclose(back, pts, rtol=1e-12, atol=1e-9 * np.max(ub - lb) * 1e-3), "to_unit_box and from_unit_box do not invert each other")
    fwd = to_unit_box(B, L, U)
    tol = 1e-12 + 1e-15 * np.max((np.abs(lb) + np.abs(ub)) / (ub - lb))
    require(np.all(np.abs(fwd - rels) <= 4 * tol), "from_unit_box and to_unit_box do not invert each other")
    require(all(np.array_equal(a, b) for a, b in zip(keep, (pts, rels, L, U))), "mapping modifies its arguments")
    # one at a time, as matrix and as vector
    for k in range(len(pts)):
        require(np.array_equal(to_unit_box(pts[k : k + 1], L, U), T[k : k + 1]), "mapping {} alone gives another result", pts[k])
        require(np.array_equal(from_unit_box(rels[k : k + 1], L, U), B[k : k + 1]), "mapping {} back alone gives another result", rels[k])
        if form == "flat":
            require(np.array_equal(to_unit_box(pts[k], lb, ub), T[k]) and np.array_equal(from_unit_box(rels[k], lb, ub), B[k]), "mapping the vector {} gives another result", pts[k])
        ch.stats.transitions += 1
    ch.stats.case(cfg["name"], d, form)


VALS = [-1e8, -2.0, 0.0, 1.0, 1.0 + 1e-9, 3.5, 7e12]
FINE = [-1e-300, 0.0, 1e-300, 1e-14, 1.0, 1.0 + 2.0 ** -52, 1.0 + 1e-13]  # almost equal and tiny values


def rescale(ch, cfg):
    from pySOT.utils import unit_rescale

    n = cfg["n"]
    VALS = cfg["vals"]
    head = [ch.pick(VALS, "value", free=True) for _ in range(min(n, 2))]
    cnt = 0
    for tail in itertools.product(VALS, repeat=n - len(head)):
        v = np.array(head + list(tail))
        lo, hi = Fr(float(v.min())), Fr(float(v.max()))
        want = [1.0] * n if lo == hi else [float((Fr(float(a)) - lo) / (hi - lo)) for a in v]
        for shape in ((n,), (n, 1), (1, n)):
            x = v.reshape(shape)
            k = x.copy()
            got = unit_rescale(x)
            require(np.shape(got) == shape, "rescaling changes the shape {} to {}", shape, np.shape(got))
            g = np.ravel(got)
            require(np.all(np.isfinite(g)) and np.allclose(g, want, rtol=1e-12, atol=0), "{} is rescaled to {} instead of {}", v.tolist(), g.tolist(), want)
            if lo != hi:
                require(g[int(np.argmin(v))] == 0 and g[int(np.argmax(v))] == 1, "extremes of {} are mapped to {}", v.tolist(), g.tolist())
            o = np.argsort(v, kind="stable")
            require(np.all(np.diff(g[o]) >= 0), "rescaling {} changes the order: {}", v.tolist(), g.tolist())
            require(np.array_equal(x, k), "rescaling modifies its argument")
            cnt += 1
    ch.stats.executions += cnt - 1
    ch.stats.transitions += cnt
    ch.stats.case(cfg["name"], tuple(head))


def rounding(ch, cfg):
    from pySOT.utils import round_vars

    dim = cfg["dim"]
    lb = np.array([ch.pick([-2.0, 0.0, 3.0], "lb", free=True) for _ in range(dim)])
    ub = lb + np.array([ch.pick([1.0, 3.0], "width", free=True) for _ in range(dim)])
    subsets = [s for r in range(dim + 1) for s in itertools.combinations(range(dim), r)]
    sub = ch.pick(subsets, "integers", free=True)
    order = list(sub)[:: -1 if ch.choose(2, "reversed", free=True) else 1]
    ints = np.array(order, dtype=int) if ch.choose(2, "form", free=True) == 0 else order
    vals = []
    for i in range(dim):
        l, u = lb[i], ub[i]
        vals.append([l, u, l + 0.5, l + 0.49, l + 0.51, u - 0.3, l - 0.3, u + 0.4, l - 0.6, u + 0.7, u + 5.2, l - 1e4, l + 1e-13, -0.0, l + 0.5 + 1e-9, l + 0.5 - 1e-9, u - 0.5 - 1e-9, u - 1 + 1e-12][: cfg["nval"]])
    P = np.array(list(itertools.product(*vals)))
    X = P.copy()
    kl, ku = lb.copy(), ub.copy()
    R = np.array(round_vars(X, ints, lb, ub))
    require(R.shape == P.shape, "rounding changes the shape")
    for i in range(dim):
        if i not in sub:
            require(np.array_equal(R[:, i], P[:, i]), "rounding changes the continuous variable {}", i)
            continue
        grid = np.arange(lb[i], ub[i] + 0.5)
        for k in range(len(P)):
            r = R[k, i]
            best = np.min(np.abs(grid - P[k, i]))
            require(r in grid and abs(r - P[k, i]) <= best + 1e-12, "{} is rounded to {} in [{}, {}]", P[k, i], r, lb[i], ub[i])
    require(np.array_equal(np.array(round_vars(R.copy(), ints, lb, ub)), R), "rounding twice gives another result")
    for k in range(len(P)):
        one = np.array(round_vars(P[k : k + 1].copy(), ints, lb, ub))
        require(np.array_equal(one, R[k : k + 1]), "rounding {} alone gives {} instead of {}", P[k], one, R[k])
        ch.stats.transitions += 1
    require(np.array_equal(kl, lb) and np.array_equal(ku, ub), "rounding modifies the bounds")
    ch.stats.case(cfg["name"], lb.tolist(), ub.tolist(), sub, order, isinstance(ints, list))


def jobs(tier):
    big = tier == "thorough"
    out = []
    few = [(-3.0, 1.0), (0.0, 2.5e6), (2.0, 1e-3)]
    for dim in (1, 2, 3):
        out.append((unit_box, dict(name="unit-%d" % dim, dim=dim, doms=few if not big else list(itertools.product(LBS, WIDTHS))[:: 1 if dim < 3 else 3], nrel={1: 8, 2: 8, 3: 4}[dim]), 0))
    for n in range(1, 7 if big else 6):
        out.append((rescale, dict(name="rescale-%d" % n, n=n, vals=VALS), 0))
        if n < 5:
            out.append((rescale, dict(name="rescale-fine-%d" % n, n=n, vals=FINE), 0))
    for dim in (1, 2, 3):
        out.append((rounding, dict(name="round-%d" % dim, dim=dim, nval={1: 18, 2: 18, 3: 6 if big else 4}[dim]), 0))
    return out
