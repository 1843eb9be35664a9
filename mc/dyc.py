"""C26: how many coordinates dynamic coordinate search perturbs, and how many candidates are generated."""
import math

import numpy as np

from . import rng
from .core import require
from .monitors import Monitor
from .world import World

G = (math.sqrt(5) - 1) / 2


def uniforms(shape):
    """Well spread numbers in (0, 1), the same multiset of rows after u -> 1 - u."""
    m, d = shape
    h = (m + 1) // 2
    k = np.arange(h * d).reshape(h, d)
    U = ((k * G + 0.1234567) % 1.0) * (1 - 2e-9) + 1e-9
    return np.vstack((U, 1 - U[::-1]))[:m]


class Share(Monitor):
    def before_propose(self):
        w = self.w
        w.surrogate.seen = []
        self.hits = []
        self.nx = len(self.known()) + len(w.done)
        self.n = self.nx + len(w.fly)
        run = len(w.designs) - 1
        data = self.known() if run == 0 else []
        self.data = np.array([x for x, _ in data] + [e.x for e in w.done if e.run == run]).reshape(-1, w.prob.dim)
        rng.script = self.script

    def script(self, kind, info):
        if kind == "truncnorm" and self.w.cfg.get("ints"):  # as far away as possible, so that rounding does not hide it
            a, b, loc, scale = (info[k] for k in ("a", "b", "loc", "scale"))
            return np.broadcast_to(loc + np.where(b > -a, b, a) * (1 - 1e-9) * scale, info["shape"]).copy()
        if kind not in ("rand", "random", "random_sample", "uniform"):
            return None
        args, kw = info
        if kind == "uniform":
            lo, hi = (list(args[:2]) + [0.0, 1.0][len(args[:2]):]) if len(args) < 3 else args[:2]
            shape = args[2] if len(args) > 2 else kw.get("size")
            if kw.get("low", lo) != 0.0 or kw.get("high", hi) != 1.0:
                return None
        else:
            shape = args if kind == "rand" else args[0] if args else kw.get("size")
        shape = tuple(np.atleast_1d(shape)) if shape is not None else ()
        w = self.w
        if len(shape) != 2 or shape[1] != w.prob.dim or shape[0] < 10 or shape[0] % 2:
            return None
        self.hits.append(shape[0])
        return uniforms(shape)

    def done(self):
        rng.script = None
        w = self.w
        seen = [s for s in w.surrogate.seen if len(s) > 1]
        if not seen:
            return
        cfg, d = w.cfg, w.prob.dim
        N, n0 = cfg["max_evals"], cfg["n0"]
        want = cfg.get("num_cand", 5)
        want = 100 * d if want is None else want
        for c in seen:
            require(c.shape == (want, d), "{} candidates in {} dimensions instead of {}", c.shape[0], c.shape[1], want)
        phi = 1.0
        if cfg["strat"] != "srbf":
            phi = max(1.0 / d, min(20.0 / d, 1.0) * (1.0 - math.log(self.n - n0 + 1) / math.log(N - n0)))
        if cfg["strat"] != "srbf" and (len(self.hits) != len(seen) or d == 1):
            w.stats.count("generations without the expected draws")
            return
        U = uniforms((want, d))
        if np.min(np.abs(U - phi)) < 1e-9 or np.min(np.abs(1 - U - phi)) < 1e-9:
            return
        m = (U < phi).sum(axis=1)
        exp = int(np.maximum(m, 1).sum()) if cfg["strat"] != "srbf" else want * d
        for c in seen:
            got = [int((c != x).sum()) for x in self.data]
            require(exp in got, "of {} candidates with {} coordinates, {} coordinates are perturbed instead of {} (share {:.4f}: {} evaluations, {} in flight, design of {}, budget {})",
                    want, d, min(got), exp, phi, self.nx, self.n - self.nx, n0, N)
        w.stats.count("generations", len(seen))

    def on_eval_proposal(self, *a):
        self.done()

    on_none = on_terminate = done


def run(ch, cfg):
    World(ch, cfg, [Share()]).run()


def jobs(tier):
    out = []
    t = 1 if tier == "thorough" else 0
    wide = dict(lb=[-1.0] * 62, ub=[2.0] * 62)
    A, S = {"async": True}, {"async": False}
    for k in ("dycors", "sop", "srbf"):
        for i, c in enumerate([
                dict(dim=2, W=2, n0=5, max_evals=12, **A), dict(dim=3, W=1, n0=5, max_evals=14, **A), dict(dim=2, W=3, n0=6, max_evals=13, extras="kkn", **A),
                dict(dim=2, W=2, n0=4, batch=2, max_evals=11, **S), dict(dim=3, W=3, n0=5, batch=3, max_evals=14, extras="kn", **S),
                dict(dim=25, W=2, n0=29, max_evals=36, num_cand=40, **dict(wide, **A)), dict(dim=45, W=2, n0=49, max_evals=55, num_cand=20, **dict(wide, **A)),
                dict(dim=2, W=2, n0=4, max_evals=44, value="const", **A), dict(dim=2, W=2, n0=4, batch=2, max_evals=30, value="rise", **S),
                dict(dim=2, W=1, n0=4, max_evals=9, num_cand=None, **A), dict(dim=3, W=2, n0=4, batch=2, max_evals=10, num_cand=None, **S),
                dict(dim=30, W=1, n0=32, max_evals=37, num_cand=40, ints=[0, 1, 2, 5, 8, 13, 21, 22, 23, 24, 25], **dict(wide, **A)), dict(dim=62, W=1, n0=64, max_evals=66, num_cand=None, **dict(wide, **A))]):
            if k == "srbf" and i not in (0, 3, 9, 10, 12) or k == "sop" and i == 7 and not t:
                continue
            c = dict(dict(strat=k, num_cand=60, surrogate="rec", max_conv=0, ncenters=4), **c)
            c["name"] = "share-%s-%d" % (k, i)
            out.append((run, c, (0 if i > 10 else 2 if i in (0, 3) and k == "dycors" else 1) + t))
    for j, c in enumerate([dict(dim=2, W=2, n0=8, max_evals=12, num_cand=None, ncenters=8, **A), dict(dim=3, W=4, n0=5, max_evals=14, num_cand=None, ncenters=8, batch=8, **S), dict(dim=2, W=1, n0=4, max_evals=9, num_cand=None, ncenters=1, **A)]):
        out.append((run, dict(c, strat="sop", surrogate="rec", max_conv=0, name="share-sop-c%d" % j), t))
    return out
