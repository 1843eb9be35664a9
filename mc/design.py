"""C17: experimental designs under every outcome of their random decisions."""
import itertools
import math

import numpy as np

from . import env, rng
from .core import require


class Source:
    """Plays the random number generators: every decision is a free choice point.  Can record or replay its outcomes."""

    def __init__(self, ch, floats=(0.25, 0.75), jitter=((0.5,),)):
        self.ch, self.floats, self.jitter = ch, floats, jitter
        self.log, self.play = [], None

    def choose(self, n, label):
        if self.play is not None:
            if self.pos < len(self.play) and self.play[self.pos][0] == n:
                self.pos += 1
                return self.play[self.pos - 1][1]
            self.ok = False
            return 0
        c = self.ch.choose(n, label, free=True)
        self.log.append((n, c))
        return c

    def replay(self):
        self.play, self.pos, self.ok = self.log, 0, True

    def uniform(self, shape):
        size = int(np.prod(shape)) if shape else 1
        if size > 12:
            return None
        v = np.array([self.floats[self.choose(len(self.floats), "u")] for _ in range(size)])
        return v.reshape(shape) if shape else float(v[0])

    def order(self, n):
        perms = math.factorial(n)
        k = self.choose(perms, "perm") if n <= 5 else 0
        items, out = list(range(n)), []
        for i in range(n, 0, -1):
            f = math.factorial(i - 1)
            out.append(items.pop(k // f))
            k %= f
        return np.array(out, dtype=int)

    def script(self, kind, info):
        if kind == "truncnorm":
            return None
        args, kw = info
        if kind == "rand":
            return self.uniform(tuple(args))
        if kind in ("random", "random_sample"):
            size = args[0] if args else kw.get("size")
            return self.uniform(() if size is None else tuple(np.atleast_1d(size)))
        if kind == "shuffle":
            x = args[0]
            x[:] = np.array(x)[self.order(len(x))]
            return rng.DONE
        if kind == "permutation":
            x = np.arange(args[0]) if np.ndim(args[0]) == 0 else np.array(args[0])
            return x[self.order(len(x))]
        if kind == "randint":
            lo, hi = (0, args[0]) if len(args) == 1 and "high" not in kw else (args[0], args[1] if len(args) > 1 else kw["high"])
            size = args[2] if len(args) > 2 else kw.get("size")
            shape = () if size is None else tuple(np.atleast_1d(size))
            n = int(np.prod(shape)) if shape else 1
            if n > 12:
                return None
            v = np.array([lo + self.choose(int(hi - lo), "int") for _ in range(n)])
            return v.reshape(shape) if shape else int(v[0])
        return None


class State:
    """Stands for np.random.RandomState."""

    src = None

    def __init__(self, seed=None):
        self._real = rng.real("RandomState")(11)

    def rand(self, *shape):
        j = self.src.jitter[self.src.choose(len(self.src.jitter), "jitter")]
        if not shape:
            return j[0]
        return np.resize(np.array(j, dtype=float), shape)

    def random_sample(self, size=None):
        return self.rand(*(() if size is None else np.atleast_1d(size)))

    random = random_sample

    def permutation(self, x):
        return self.src.script("permutation", ((x,), {}))

    def shuffle(self, x):
        self.src.script("shuffle", ((x,), {}))

    def __getattr__(self, a):
        return getattr(self._real, a)


def install(src):
    rng.script = src.script
    State.src = src
    keep = np.random.RandomState
    np.random.RandomState = State

    def undo():
        np.random.RandomState = keep
        rng.script = None

    env.on_cleanup(undo)


def make(cfg, iterations):
    from pySOT import experimental_design as ed

    if cfg["kind"] == "slhd":
        return ed.SymmetricLatinHypercube(dim=cfg["dim"], num_pts=cfg["n"], iterations=iterations)
    if cfg["kind"] == "lhd":
        return ed.LatinHypercube(dim=cfg["dim"], num_pts=cfg["n"], iterations=iterations)
    return ed.TwoFactorial(cfg["dim"])


def bounds(cfg):
    d = cfg["dim"]
    return {None: (None, None), "box": (np.array([-3.0, 2.0, -1.0, 0.0])[:d], np.array([5.0, 3.0, 60.0, 10.0])[:d]), "narrow": (np.array([2.0, -1.0, 0.0, 1.0])[:d], np.array([3.0, 1.0, 1.0, 3.0])[:d]),
            "int": (np.array([-3, 2, -1, 0])[:d], np.array([5, 3, 60, 10])[:d])}[cfg["box"]]


def mindist(X):
    D = np.sqrt(((X[:, None].astype(float) - X[None]) ** 2).sum(axis=2))
    D[np.arange(len(X)), np.arange(len(X))] = np.inf
    return D.min()


def check_structure(cfg, X, lb, ub, ints):
    n, d = cfg["n"], cfg["dim"]
    require(isinstance(X, np.ndarray) and X.shape == (n, d), "design has shape {} instead of {}", np.shape(X), (n, d))
    require(np.all(np.isfinite(X)), "design is not finite")
    unit = lb is None or ub is None
    lo, hi = (np.zeros(d), np.ones(d)) if unit else (lb, ub)
    ints = [] if unit else list(ints)
    require(np.all(X >= lo) and np.all(X <= hi), "design {} leaves the domain", X.tolist())
    for j in ints:
        require(np.array_equal(X[:, j], np.round(X[:, j])), "variable {} of the design is not integer: {}", j, X[:, j].tolist())
    for j in range(d):
        tol = (0.5 if j in ints else 0.0) + 1e-9 * (hi[j] - lo[j])
        col = np.sort(X[:, j])
        i = np.arange(n)
        if cfg["kind"] == "slhd":
            want = lo[j] + (hi[j] - lo[j]) * i / (n - 1)
            require(np.all(np.abs(col - want) <= tol), "coordinate {} of the design has levels {} instead of {}", j, col.tolist(), want.tolist())
        elif cfg["kind"] == "lhd":
            a, b = lo[j] + (hi[j] - lo[j]) * i / n, lo[j] + (hi[j] - lo[j]) * (i + 1) / n
            require(np.all(col >= a - tol) and np.all(col <= b + tol), "coordinate {} of the design does not have one point per slice: {}", j, col.tolist())
    if cfg["kind"] == "slhd":
        for p in X:
            m = lo + hi - p
            t = np.array([1.0 + 1e-9 if j in ints else 1e-9 * (hi[j] - lo[j]) for j in range(d)])
            require(np.any(np.all(np.abs(X - m) <= t, axis=1)), "mirror image of {} is not in the design {}", p.tolist(), X.tolist())
    if cfg["kind"] == "2fact":
        got = sorted(map(tuple, X.tolist()))
        want = sorted(itertools.product(*[(float(lo[j]), float(hi[j])) for j in range(d)]))
        require(got == want, "two-level factorial design is {} instead of {}", got, want)


def attempt(des, kw):
    try:
        return des.generate_points(**kw)
    except ValueError:
        return None


def run(ch, cfg):
    lb, ub = bounds(cfg)
    ints = cfg.get("ints")
    kw = {}
    if lb is not None:
        kw = dict(lb=lb.copy(), ub=ub.copy())
    if ints is not None:
        kw["int_var"] = np.array(ints, dtype=int) if cfg.get("iform") != "list" else list(ints)
    if cfg.get("iform") == "empty":
        kw["int_var"] = np.array([])
    if cfg.get("half"):
        kw.pop(cfg["half"])
    keep = {k: np.array(v, copy=True) for k, v in kw.items()}
    src = Source(ch, cfg.get("floats", (0.25, 0.75)), cfg.get("jitter", ((0.5,),)))
    install(src)
    lo, hi = kw.get("lb"), kw.get("ub")
    its = cfg.get("iterations", 1)
    cands = []
    if its > 1:  # what the alternatives are
        for _ in range(its):
            cands.append(attempt(make(cfg, 1), kw))
        src.replay()
    des = make(cfg, its)
    require(des.dim == cfg["dim"] and des.num_pts == cfg["n"], "design announces {} points in {} dimensions", des.num_pts, des.dim)
    X = attempt(des, kw)
    for k in kw:
        require(np.array_equal(keep[k], kw[k]), "the caller's {} is modified", k)
    if X is not None:
        check_structure(cfg, X, lo, hi, ints or [])
        if cfg["kind"] != "2fact":
            require(np.linalg.matrix_rank(X) == cfg["dim"], "design {} does not have full column rank", X.tolist())
            require(mindist(X) > 0, "design {} has duplicate points", X.tolist())
    if its > 1 and src.ok:
        good = [c for c in cands if c is not None]
        require((X is None) == (not good), "{} although {} of {} alternatives are admissible", "no design returned" if X is None else "design returned", len(good), its)
        if good:
            best = max(mindist(c) for c in good)
            require(any(np.array_equal(X, c) for c in good), "returned design {} is none of the admissible alternatives {}", X.tolist(), [c.tolist() for c in good])
            require(mindist(X) >= best * (1 - 1e-12), "returned design has minimum distance {} but an alternative has {}", mindist(X), best)
            ch.stats.count("alternatives", len(good))
    elif its == 1 and X is None:
        ch.stats.count("refused")
        # the same outcome without the admissibility filter cannot be seen; a valid one must not be refused
        require(cfg.get("may_refuse"), "a design with {} points in {} dimensions is refused", cfg["n"], cfg["dim"])
    if X is not None and cfg["kind"] == "2fact":
        Y = des.generate_points(**kw)
        Y[0, 0] += 1
        require(np.array_equal(des.generate_points(**kw), X), "designs share memory")
    ch.stats.state(cfg["name"], None if X is None else X.tolist())
    ch.stats.case(cfg["name"], tuple(t[1] for t in ch.trace))


def refuse_large(ch, cfg):
    from pySOT.experimental_design import TwoFactorial

    d = cfg["dim"]
    try:
        t = TwoFactorial(d)
    except ValueError:
        require(d >= 15, "a two-level factorial design in {} dimensions is refused", d)
    else:
        require(d < 15, "a two-level factorial design in {} dimensions is not refused", d)
        X = t.generate_points()
        require(X.shape == (2 ** d, d) and len(np.unique(X, axis=0)) == 2 ** d and set(np.unique(X)) == {0, 1}, "two-level factorial design in {} dimensions is wrong", d)
    ch.stats.case("large", d)


def natural(ch, cfg):
    """Real random numbers (seeded), as used in practice: every size and dimension up to the bound."""
    n, d = cfg["n"], cfg["dim"]
    des = make(cfg, cfg.get("iterations", 30))
    lb, ub = bounds(cfg)
    ints = cfg.get("ints")
    kw = {} if lb is None else dict(lb=lb, ub=ub)
    if ints:
        kw["int_var"] = np.array(ints)
    keep = np.random.RandomState
    cnt = [0]

    def seeded(seed=None):
        cnt[0] += 1
        return keep(cnt[0] if seed is None else seed)

    np.random.RandomState = seeded
    env.on_cleanup(lambda: setattr(np.random, "RandomState", keep))
    X = attempt(des, kw)
    if X is None:
        require(cfg.get("may_refuse") or n < d + 2 or ints, "no design of {} points in {} dimensions found", n, d)
        return
    check_structure(cfg, X, lb, ub, ints or [])
    require(np.linalg.matrix_rank(X) == d, "design does not have full column rank")
    require(mindist(X) > 0, "design has duplicate points")
    ch.stats.case(cfg["name"])
    ch.stats.state(cfg["name"])


def jobs(tier):
    big = tier == "thorough"
    out = []

    def add(**c):
        c.setdefault("box", None)
        c["name"] = "-".join("%s=%s" % (k, c[k]) for k in sorted(c) if k != "name")
        out.append((run, c, 0))

    E = (0.0, float(np.nextafter(0.5, 0)), 0.5, float(rng.ONE))
    J = ((0.0,), (0.5,), (float(rng.ONE),), (0.0, float(rng.ONE), 0.5))
    for box, ints, iform, half in ((None, None, None, None), ("box", None, None, None), ("box", [0], "list", None), ("box", [0, 1], None, None), ("narrow", [1], None, None), ("int", [0], None, None),
                                   ("box", None, "empty", None), ("box", None, None, "lb"), ("box", None, None, "ub"), ("narrow", [0, 1], None, None), ("int", None, None, None)):
        e = dict(box=box)
        if ints is not None:
            e["ints"] = ints
        if iform:
            e["iform"] = iform
        if half:
            e["half"] = half
        lots = big or (box in (None, "box") and not ints and not half and not iform)
        for n in (2, 3, 4, 5, 6, 7, 8, 9) if lots else (4, 5, 6, 7):
            add(kind="slhd", dim=2, n=n, may_refuse=True, **e)
        for n in (4, 5, 6, 7) if lots else (4, 5):
            if n < 6 or big or box is None:
                add(kind="slhd", dim=3, n=n, may_refuse=True, **e)
        if lots:
            add(kind="slhd", dim=4, n=5, may_refuse=True, **e)
            add(kind="slhd", dim=2, n=6, floats=E, may_refuse=True, **e)
        for n in (4, 5, 6) + ((7,) if big else ()):
            add(kind="slhd", dim=2, n=n, iterations=2, **e)
        add(kind="slhd", dim=2, n=4, iterations=3, **e)
        if big:
            add(kind="slhd", dim=3, n=4, iterations=2, **e)
            add(kind="slhd", dim=2, n=4, iterations=4, **e)
        for n in (2, 3, 4):
            add(kind="lhd", dim=2, n=n, jitter=J, may_refuse=True, **e)
        add(kind="lhd", dim=2, n=3, jitter=J[1:3], iterations=2, **e)
        if lots:
            add(kind="lhd", dim=3, n=3, jitter=J, may_refuse=True, **e)
            add(kind="lhd", dim=2, n=5 if big else 4, jitter=J, may_refuse=True, **e)
            add(kind="lhd", dim=2, n=3, jitter=J[3:], iterations=3 if big else 2, **e)
        for d in (2, 3, 4):
            add(kind="2fact", dim=d, n=2 ** d, **e)
    for box in (None, "box", "int"):
        for ints in (None, [0]):
            for n in range(2, 8):
                c = dict(kind="slhd", dim=1, n=n, box=box, may_refuse=bool(ints))
                l = dict(kind="lhd", dim=1, n=min(n, 5), box=box, jitter=J, may_refuse=True)
                if ints:
                    c["ints"] = l["ints"] = ints
                add(**c)
                if n < 6:
                    add(**l)
            c = dict(kind="2fact", dim=1, n=2, box=box)
            if ints:
                c["ints"] = ints
            add(**c)
    for d in list(range(1, 15)) + [15, 16, 20]:
        out.append((refuse_large, dict(name="large-%d" % d, dim=d), 0))
    for kind in ("slhd", "lhd"):
        for d in (1, 2, 3, 4):
            for n in range(d + 1, 3 * d + (12 if big else 6)):
                for box, ints in ((None, None), ("box", None), ("box", [0]), ("box", [0, d - 1])):
                    out.append((natural, dict(name="natural-%s-%d-%d-%s-%s" % (kind, d, n, box, ints), kind=kind, dim=d, n=n, box=box, ints=ints), 0))
    return out
