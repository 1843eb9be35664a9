"""C19 (sorting and radius rule by brute force) and C20 (SOP against an explicit model of its center selection)."""
import itertools

import numpy as np

from . import rng
from .cand import elements, rz
from .core import require
from .monitors import Monitor
from .world import World

R0 = 0.2


def brute_ranks(F, nmax):
    """F: objectives x points.  Successive removal of the points that nothing left beats strictly in every objective."""
    n = F.shape[1]
    left, ranks, r = list(range(n)), [float("inf")] * n, 1
    beats = np.all(F[:, :, None] < F[:, None, :], axis=0)  # [j, i]: j beats i
    while left and n - len(left) < nmax:
        hit = beats[left].any(axis=0)
        front = [i for i in left if not hit[i]]
        for i in front:
            ranks[i] = r
        left = [i for i in left if i not in front]
        r += 1
    return ranks


class Rec:
    def __init__(self, x, f):
        self.x, self.f, self.nfail, self.ntabu, self.sigma = x, f, 0, 0, R0


class Cen:
    def __init__(self, idx):
        self.idx, self.new, self.done = idx, None, None


class Model:
    """Which centers the next points are searched around, and with which radius."""

    def __init__(self, cfg, prob, known=()):
        self.lb, self.ub, self.dim = prob.lb, prob.ub, prob.dim
        self.nc, self.sync, self.n0, self.budget = cfg["ncenters"], not cfg["async"], cfg["n0"], cfg["max_evals"]
        self.ev, self.cen = [Rec(x, f) for x, f in known], []
        self.nknown = len(known)

    def unit(self):
        return np.array([(e.x - self.lb) / (self.ub - self.lb) for e in self.ev])

    def ranks(self):
        U = self.unit()
        D = np.sqrt(((U[:, None] - U[None]) ** 2).sum(axis=2))
        dist = [min([d for d in row if d > 0], default=0.0) for row in D]
        return brute_ranks(np.array([[e.f for e in self.ev], [-d for d in dist]]), 100)

    def generate(self, k):
        """The next k (center, radius) pairs; None: wait."""
        ranks, U = self.ranks(), self.unit()
        self.cen = [c for c in self.cen if c.done is None]
        busy = {c.idx for c in self.cen}
        tabu = [2 if i in busy else e.ntabu for i, e in enumerate(self.ev)]
        order = sorted(range(len(self.ev)), key=lambda i: (tabu[i], ranks[i], self.ev[i].f, i))
        best = min(range(len(self.ev)), key=lambda i: self.ev[i].f)
        if best not in busy:
            order.remove(best)
            order.insert(0, best)
        want = self.nc - len(self.cen)
        if want > 0:
            shrink = 1.0 - (len(self.ev) - self.nknown - self.n0) / (self.budget - self.n0)
            chosen = [order[0]]
            for i in order[1:]:
                if len(chosen) == want:
                    break
                if all(np.sqrt(np.sum((U[i] - U[j]) ** 2)) >= R0 * 0.5 ** self.ev[j].nfail * shrink / np.sqrt(self.dim) for j in chosen):
                    chosen.append(i)
            m = len(chosen)
            while len(chosen) < want:
                chosen.append(chosen[len(chosen) % m])
            self.cen += [Cen(i) for i in chosen]
        free = [c for c in self.cen if c.new is None]
        if len(free) < k:
            return None
        self.next = free[:k]
        return [(self.ev[c.idx].x, self.ev[c.idx].sigma) for c in self.next]

    def assign(self, pts):
        for c, x in zip(self.next, pts):
            c.new = np.array(x)

    def drop(self, x):
        for c in self.cen:
            if c.done is None and c.new is not None and np.array_equal(c.new, x):
                c.new = None
                return

    def complete(self, x, f, adapt, end):
        self.ev.append(Rec(np.array(x), f))
        if not adapt:
            return
        mine = None
        for c in self.cen:
            if c.done is None and c.new is not None and np.array_equal(c.new, x):
                c.done = len(self.ev) - 1
                mine = c
                break
        if not self.sync:
            require(mine is not None, "internal: no center for {}", x)
            self.adjust([mine])
        elif end:
            self.adjust([c for c in self.cen if c.done is not None])

    def adjust(self, cs):
        ranks = self.ranks()
        for c in cs:
            if ranks[c.done] != 1:
                e = self.ev[c.idx]
                e.nfail, e.sigma = e.nfail + 1, e.sigma / 2
        for e in self.ev:
            if e.ntabu >= 5:
                e.nfail, e.ntabu, e.sigma = 0, 0, R0
            elif e.ntabu:
                e.ntabu += 1
        for c in cs:
            e = self.ev[c.idx]
            if e.nfail > 3:
                e.nfail, e.ntabu, e.sigma = 0, 1, R0


class Watch(Monitor):

    def __init__(self, cfg):
        self.cfg = cfg
        self.sync = not cfg["async"]
        self.nvalues = 0

    def on_start(self):
        self.model = Model(self.cfg, self.w.prob, self.known())
        self.batch = []  # generated points not yet handed out (sync): only their number is known
        self.left = 0
        self.out = []
        self.adapt_failed_last = False

    def before_propose(self):
        rng.calls = []
        del self.w.surrogate.seen[:]

    def expect(self, calls):
        """A generation has just taken place (or should have)."""
        k = self.cfg["batch"] if self.sync else 1
        want = self.model.generate(k)
        if want is None:
            return None
        lb, ub = self.model.lb, self.model.ub
        if calls:
            got = {rz(t) for t in elements(calls)}
            ints = self.cfg.get("ints", ())
            exp = [rz((lb[i], ub[i], x[i], max(s * (ub[i] - lb[i]), 1.0 if i in ints else 0.0))) for x, s in want for i in range(self.model.dim)]
            for t in got:
                require(any(np.allclose(t, e, rtol=1e-6, atol=1e-7) for e in exp), "points searched with (lower, upper, center, deviation) {} but the expected centers are {}", t,
                        [(x.tolist(), s) for x, s in want])
            for e in exp:
                if self.model.dim == 1:
                    require(any(np.allclose(t, e, rtol=1e-6, atol=1e-7) for t in got), "no point is searched around the expected center {} (searched: {})", e, sorted(got))
            self.w.stats.count("generations")
        else:
            self.w.stats.count("unobserved generations")
        return want

    def on_eval_proposal(self, x, origin, ndes):
        calls, rng.calls = rng.calls, None
        if origin != "adapt":
            require(not calls, "adaptive search while initial points are waiting")
            return
        if self.sync:
            for i, p in enumerate(self.out):
                if np.array_equal(p, x):
                    self.out.pop(i)
                    self.given.append(np.array(x))
                    return
            if self.left:
                self.left -= 1
                self.take(x)
                return
            want = self.expect(calls)
            require(want is not None, "a batch is generated although its centers are all taken")
            self.left = self.cfg["batch"] - 1
            self.given = []
            seen = [np.array(c) for c in self.w.surrogate.seen]
            # which center a point belongs to: its candidates contain it (they are searched center by center)
            self.todo = list(zip(self.model.next, seen if len(seen) == self.cfg["batch"] else [None] * self.cfg["batch"]))
            self.take(x)
        else:
            want = self.expect(calls)
            require(want is not None, "a point is generated although all centers are being processed")
            self.model.assign([x])

    def on_none(self):
        calls, rng.calls = rng.calls, None
        require(not calls, "candidates are searched but nothing is proposed")
        w = self.w
        if self.cfg["async"] and len(w.done) + len(w.fly) < self.cfg["max_evals"] and w.max_committed < self.cfg["max_evals"] and not w.waiting:
            require(self.model.generate(1) is None, "nothing is proposed although a center is free")

    def on_reject(self, x, origin):
        if origin != "adapt":
            return
        if self.sync:
            self.out.append(np.array(x))
        else:
            self.model.drop(x)

    def take(self, x):
        for i, (c, cand) in enumerate(self.todo):
            if cand is not None and np.any(np.all(cand == x, axis=1)):
                break
        else:
            i = len(self.todo) - 1
        self.todo.pop(i)[0].new = np.array(x)

    def batch_over(self):
        return not self.w.fly and not self.left and not self.out and not self.w.waiting

    def on_complete(self, ev):
        adapt = ev.origin == "adapt"
        self.model.complete(ev.x, ev.value, adapt, adapt and self.sync and self.batch_over())
        if adapt:
            self.nvalues += 1

    def on_fail(self, ev):
        if ev.origin != "adapt":
            return
        self.model.drop(ev.x)
        if self.sync and self.batch_over():
            self.model.adjust([c for c in self.model.cen if c.done is not None])

    def after_step(self, op=None):
        s, w = self.w.strategy, self.w
        if isinstance(getattr(s, "centers", None), list):
            require(len(s.centers) <= self.cfg["ncenters"], "{} centers exist although {} are configured", len(s.centers), self.cfg["ncenters"])
        m = self.model
        w.stats.state("sop", tuple((e.nfail, e.ntabu) for e in m.ev), tuple((c.idx, c.new is None, c.done) for c in m.cen))


class SOPWorld(World):
    def __init__(self, ch, cfg):
        self.mon = Watch(cfg)
        super().__init__(ch, cfg, [self.mon])
        rng.script = None

    def value_of(self, ev):
        fs = [e.value for e in self.done] + [f for _, f in self.mon.known()]
        i = ev.i
        if ev.origin != "adapt":
            return self.cfg.get("v0", [5.0, 7.0, 6.0, 8.0, 5.5, 9.0, 6.5, 7.5])[i % 8] + 0.01 * i
        pol = self.cfg["policy"]
        alpha = self.cfg.get("alphabet", "NBM")
        k = pol[self.mon.nvalues % len(pol)]
        if self.mon.nvalues < self.cfg.get("depth", 0):
            k = self.ch.pick(alpha, "value", free=True)
        else:
            o = [k] + [a for a in alpha if a != k]
            k = o[self.ch.choose(len(o), "value")]
        # N: worse than everything, B: the new best, M: in the middle
        return {"N": max(fs) + 0.5 + 0.001 * i, "B": min(fs) - 0.3 - 0.001 * i, "M": float(np.median(fs)) + 0.013 + 0.0001 * i}[k]


def run(ch, cfg):
    SOPWorld(ch, cfg).run()


def jobs(tier):
    out = []
    t = 1 if tier == "thorough" else 0

    def add(name, bound, **kw):
        d = dict(name="sop-" + name, strat="sop", dim=1, W=1, n0=4, ncenters=3, num_cand=3, surrogate="rec", max_conv=0, kill=False, rej=False, max_evals=16, policy="N", alphabet="NBM")
        d.update(kw)
        d["async"] = "batch" not in kw
        if "ints" not in d:
            d["lb"], d["ub"] = [-1.0, 2.0][: d["dim"]], [3.0, 3.5][: d["dim"]]
        out.append((run, d, bound))

    d = 5 + 2 * t
    add("tree", 0, depth=d, max_evals=4 + d, ncenters=2)
    add("tree-1", 0, depth=d, max_evals=5 + d, ncenters=1)
    add("tree-sync", 0, depth=d, max_evals=6 + d, ncenters=3, batch=2, W=2)
    for nc in (1, 2, 3, 4):
        for pol in ("N", "NNNNB", "M", "NM", "NNB") if t else (("N", "NM") if nc % 2 else ("M", "NNB")):
            add("serial-%d-%s" % (nc, pol), 1 + t, ncenters=nc, policy=pol, max_evals=(34 if nc < 3 else 40) if t else 24 + 2 * nc)
    add("serial-deep", 2 + t, ncenters=1, policy="N", alphabet="NB", max_evals=16 + 8 * t)
    add("serial-deep-2", 2 + t, ncenters=2, policy="N", alphabet="NM", max_evals=15 + 5 * t)
    add("serial-d2", 1 + t, ncenters=3, dim=2, n0=6, policy="NNM", max_evals=34)
    for W, nc in ((2, 2), (2, 3), (3, 3), (3, 4), (3, 2)):
        for pol in ("N", "NNB") if t else ("N",):
            add("async-%d-%d-%s" % (W, nc, pol), 1 + t, W=W, ncenters=nc, n0=3 + W, policy=pol, alphabet="NB", kill=True, rej=True, max_evals=3 + W + (18 if W == 2 else 14))
    add("async-deep", 2 + t, W=2, ncenters=2, n0=4, policy="N", alphabet="NB", kill=True, rej=True, max_evals=8 + t)
    add("async-d2", 1 + t, W=2, dim=2, ncenters=3, n0=7, policy="NM", kill=True, max_evals=25)
    for b, nc, W in ((1, 1, 1), (1, 3, 1), (2, 2, 2), (2, 3, 2), (3, 3, 2), (2, 4, 3), (4, 4, 4)):
        for pol in ("N", "NNNB") if t else ("N",) if nc % 2 else ("NNNB",):
            add("sync-%d-%d-%s" % (b, nc, pol), 1 + t, W=W, batch=b, ncenters=nc, n0=5, policy=pol, alphabet="NB", kill=True, rej=True, max_evals=5 + 16 if b < 4 else 29)
    for e, good in (("k", True), ("kkn", True), ("kk", False)):
        add("extras-%s-%d" % (e, good), 1 + t, extras=e, goodextra=good, ncenters=2, policy="NM", max_evals=14)
        add("extras-async-%s-%d" % (e, good), 1 + t, extras=e, goodextra=good, ncenters=3, W=2, n0=5, policy="N", alphabet="NB", kill=True, rej=True, max_evals=12)
        add("extras-sync-%s-%d" % (e, good), 1 + t, extras=e, goodextra=good, ncenters=3, W=2, batch=2, n0=4, policy="N", alphabet="NB", kill=True, max_evals=13)
    few = dict(ints=[0], lb=[-4.0], ub=[6.0], alphabet="NB", kill=True)  # different centers may lead to the same point
    add("same-point", 1 + t, W=3, ncenters=3, n0=6, policy="N", max_evals=17, **few)
    add("same-point-3", 2 + t, W=3, ncenters=3, n0=5, policy="N", max_evals=11, **dict(few, lb=[0.0], ub=[2.0]))
    add("same-point-0", 1 + t, W=2, ncenters=2, n0=4, policy="N", max_evals=40, **dict(few, lb=[0.0], ub=[3.0], alphabet="NB"))
    add("same-point-4", 1 + t, W=4, ncenters=4, n0=6, policy="NB", max_evals=16, **dict(few, lb=[0.0], ub=[3.0]))
    add("many-centers", t, W=12, batch=12, ncenters=12, n0=16, policy="NNM", alphabet="NB", max_evals=64)
    add("many-centers-d2", 0, dim=2, W=5, ncenters=14, n0=16, policy="N", alphabet="NB", max_evals=64)
    add("sync-deep", 2 + t, W=2, batch=2, ncenters=2, n0=3, policy="N", alphabet="NB", kill=True, rej=True, max_evals=8 + t)
    add("sync-long", 1 + t, W=2, batch=2, ncenters=2, n0=3, policy="N", alphabet="NBM", max_evals=31)
    return out


# C19 --------------------------------------------------------------------------------------------------------------


def sorting(ch, cfg):
    from pySOT.utils import domination, nd_sorting

    A, n, m = cfg["alphabet"], cfg["n"], cfg["m"]
    vecs = list(itertools.product(A, repeat=m))
    first = [ch.choose(len(vecs), "vec", free=True) for _ in range(min(n, 2))]
    cnt = 0
    for rest in itertools.product(range(len(vecs)), repeat=n - len(first)):
        idx = first + list(rest)
        F = np.array([vecs[i] for i in idx], dtype=float).T
        for nmax in cfg["nmax"]:
            keep = F.copy()
            got = [float(r) for r in nd_sorting(F, nmax)]
            want = [float(r) for r in brute_ranks(F, nmax)]
            require(got == want, "ranks of {} (cut-off {}) are {} instead of {}", F.T.tolist(), nmax, got, want)
            require(np.array_equal(F, keep), "sorting modifies its argument")
            cnt += 1
        if n == 2:
            a, b = F[:, 0], F[:, 1]
            require(bool(domination(a, b)) == bool(np.all(a < b)), "domination of {} over {} is wrong", a.tolist(), b.tolist())
    ch.stats.executions += cnt - 1
    ch.stats.transitions += cnt
    ch.stats.case(cfg["name"], tuple(first))
    ch.stats.count("sets sorted", cnt)


def radius_rule(ch, cfg):
    from pySOT.utils import check_radius_rule

    dim = cfg["dim"]
    sigma = ch.pick([0.2, 0.05], "sigma", free=True)
    f = ch.pick([1.0, 0.5, 0.013, 0.0], "factor", free=True)
    nc = ch.choose(cfg.get("nc", 6), "nc", free=True)
    fails = [ch.choose(4 if i < 2 else 2, "fail", free=True) for i in range(nc)]
    spots = [np.zeros(dim), np.full(dim, 0.3), np.resize([0.7, 0.1], dim), np.full(dim, 0.93), np.resize([-0.6, 0.4], dim)]
    X_c = np.zeros((nc + 1, dim + 5))
    for i in range(nc):
        X_c[i, :dim] = spots[i]
        X_c[i, dim + 4] = fails[i]
        X_c[i, dim] = 1e3 * i
        X_c[i, dim + 2] = i
    X_c[nc, :dim] = 0.11  # a row beyond the number of centers does not count
    pts = [np.full(dim, 0.5), np.full(dim, 0.11)]
    for i in range(nc):
        r = sigma * 0.5 ** fails[i] * f / np.sqrt(dim)
        for rel in (0.0, 0.5, 1 - 1e-9, 1 + 1e-9, 1.5):
            for sgn in (1, -1):
                e = np.zeros(dim)
                e[0] = sgn * r * rel
                pts.append(spots[i] + e)
                pts.append(spots[i] + sgn * r * rel / np.sqrt(dim) * np.ones(dim))
    for x in pts:
        keep, kc = x.copy(), X_c.copy()
        got = check_radius_rule(x, X_c, sigma, dim, nc, d_thresh=f)
        D = [np.sqrt(np.sum((x - X_c[i, :dim]) ** 2)) for i in range(nc)]
        T = [sigma * 0.5 ** fails[i] * f / np.sqrt(dim) for i in range(nc)]
        if any(abs(d - t) < 1e-12 for d, t in zip(D, T)) and f > 0:
            continue
        want = not any(d < t for d, t in zip(D, T))
        require(bool(got) == want, "point {} is {} with centers {} (failures {}, radius {}, factor {})", x.tolist(), "accepted" if got else "rejected", X_c[:nc, :dim].tolist(), fails, sigma, f)
        require(np.array_equal(keep, x) and np.array_equal(kc, X_c), "the radius rule modifies its arguments")
        if f == 1.0:
            require(bool(check_radius_rule(x, X_c, sigma, dim, nc)) == want, "default distance factor is not one")
        ch.stats.transitions += 1
    ch.stats.case(cfg["name"], sigma, f, nc, tuple(fails))


def sort_jobs(tier):
    out = []
    big = tier == "thorough"
    for m, n, A, nmax in [(2, 1, 5, (0, 1, 5)), (2, 2, 4, (1, 2, 100)), (2, 3, 3, (1, 2, 3, 100)), (2, 4, 3, (1, 2, 3, 4, 100)), (2, 5, 2, (1, 3, 100)), (2, 6, 2, (2, 100)), (1, 5, 3, (1, 3, 100)), (3, 3, 2, (1, 2, 100)), (3, 4, 2, (2, 100))] + (
            [(2, 5, 3, (2, 100)), (3, 5, 2, (100,)), (2, 4, 4, (100,))] if big else []):
        out.append((sorting, dict(name="sort-%d-%d-%d" % (m, n, A), m=m, n=n, alphabet=[-1.0, 0.0, 2.5, 2.75, 9.0][:A], nmax=nmax), 0))
    # all permutations of distinct chains and fans, larger sets
    for dim in (1, 2, 3):
        out.append((radius_rule, dict(name="radius-%d" % dim, dim=dim), 0))
    for base in ("chain", "fan", "mix"):
        out.append((orders, dict(name="orders-" + base, base=base, n=7 if big else 6), 0))
    return out


def orders(ch, cfg):
    """The ranking does not depend on the order of the points."""
    from pySOT.utils import nd_sorting

    n = cfg["n"]
    P = {"chain": [(i, i * 2.0) for i in range(n)], "fan": [(i, -1.0 * i) for i in range(n)], "mix": [(i, (i * 3) % 5 - (i % 2)) for i in range(n)]}[cfg["base"]]
    P = [(float(a), float(b)) for a, b in P]
    first = ch.choose(n, "first", free=True)
    rest = [i for i in range(n) if i != first]
    cnt = 0
    for perm in itertools.permutations(rest):
        o = [first] + list(perm)
        F = np.array([P[i] for i in o]).T
        for nmax in (1, 3, 100):
            got = [float(r) for r in nd_sorting(F, nmax)]
            want = brute_ranks(F, nmax)
            require(got == [float(r) for r in want], "ranks of {} (cut-off {}) are {} instead of {}", F.T.tolist(), nmax, got, want)
            cnt += 1
    ch.stats.executions += cnt - 1
    ch.stats.transitions += cnt
    ch.stats.case(cfg["name"], first)
