"""C09: an explicit model of the sampling radius rule, run in lockstep with the real SRBF and DYCORS strategies."""
import math

from .core import Prune, require
from .world import World


class Model:
    """The published rule, on rounds only."""

    def __init__(self, dim, batch):
        self.tol = max(dim, 4) if batch is None else -(-max(dim, 4) // batch)
        self.reset(0)

    def reset(self, seq):
        self.radius, self.succ, self.fail, self.since, self.best, self.converged = 0.2, 0, 0, 0, None, False
        self.change = seq  # evaluations proposed before this are ignored
        self.restart_seq = seq

    def round(self, value, seq):
        good = self.best is None or value < self.best - 1e-3 * abs(self.best)
        if good:
            self.best = value
            self.succ, self.fail, self.since = self.succ + 1, 0, 0
        else:
            self.succ, self.fail, self.since = 0, self.fail + 1, self.since + 1
        if self.fail >= self.tol:
            self.radius, self.fail, self.succ, self.change = self.radius / 2, 0, 0, seq
        if self.succ >= 3:
            self.radius, self.fail, self.succ, self.change = min(2 * self.radius, 0.2), 0, 0, seq
        if self.since >= 4 * self.tol or self.radius <= 0.2 / 64 * (1 + 1e-9):
            self.converged = True

    def key(self):
        return (round(math.log2(self.radius / 0.2)), self.succ, self.fail, self.since, self.best is None, self.converged)


def new_value(best, kind, start):
    """N: no improvement, T: improves by less than 0.1 percent, S: by slightly more, B: by a lot, Q: equal, H: huge loss,
    U/O: improves by just under/over 0.1 percent."""
    if best is None:
        best = start
    a = abs(best)
    return {"N": best + 0.37 * max(1.0, a), "T": best - 0.5e-3 * a if a else best, "S": best - 1.5e-3 * a if a else best - 1e-6,
            "B": best - 1.0, "Q": best, "H": best + 1e9, "U": best - 0.9997e-3 * a, "O": best - 1.0003e-3 * a if a else best - 1e-9}[kind]


class RadiusWorld(World):
    def __init__(self, ch, cfg):
        self.mon = Radius(cfg)
        super().__init__(ch, cfg, [self.mon])

    def value_of(self, ev):
        m = self.mon
        if ev.origin != "adapt":
            return self.cfg.get("v0", 10.0) + 0.01 * ev.i
        pol = self.cfg["policy"]
        k = pol[m.nrounds % len(pol)]
        alpha = self.cfg["alphabet"]
        if m.nrounds < self.cfg.get("depth", 0):
            k = self.ch.pick(alpha, "value", free=True)
        else:
            opts = [k] + [a for a in alpha if a != k]
            k = opts[self.ch.choose(len(opts), "value")]
        return new_value(m.model.best, k, self.cfg.get("v0", 10.0))


class Radius:
    w = None

    def __init__(self, cfg):
        self.cfg = cfg
        self.batch = None if cfg.get("async", True) else cfg["batch"]
        self.model = Model(cfg["dim"], self.batch)
        self.nrounds = 0
        self.accepted = 0
        self.queue = []

    def on_design(self, X):
        if len(self.w.designs) > 1:
            require(self.model.converged, "restart although the rule has not converged (state {})", self.model.key())
            self.model.reset(self.w.seq)
            self.queue = []
            self.accepted = 0

    def on_eval_proposal(self, x, origin, ndes):
        if origin == "adapt" and self.batch and self.accepted >= self.batch:
            self.accepted = 0  # a new batch

    def on_accept(self, ev):
        if ev.origin == "adapt":
            if self.batch and self.accepted == self.batch:
                self.accepted = 0
            self.accepted += 1
        if self.model.converged and self.cfg.get("restarts", True):
            require(len(self.w.designs) > 1 and ev.run > 0 and self.model.change == self.model.restart_seq, "evaluation proposed after convergence without a restart")

    def on_fail(self, ev):
        if self.batch and ev.origin == "adapt" and not self.w.fly and self.accepted == self.batch:
            raise Prune()  # a batch that ends with a failure: left unspecified

    def on_complete(self, ev):
        m = self.model
        if ev.origin != "adapt" or ev.run != len(self.w.designs) - 1:
            return
        if ev.seq <= m.change:
            return
        self.queue.append(ev.value)
        if self.batch and (self.w.fly or self.accepted < self.batch):
            return
        m.round(min(self.queue), self.w.seq)
        self.nrounds += 1
        self.queue = []

    def after_step(self, op=None):
        m, s = self.model, self.w.strategy
        require(abs(s.sampling_radius - m.radius) <= 1e-12, "sampling radius {} but the rule gives {} (rounds: successes {}, failures {}, tolerance {})", s.sampling_radius, m.radius, m.succ, m.fail, m.tol)
        if hasattr(s, "converged"):
            require(bool(s.converged) == m.converged, "converged is {} but the rule gives {} (failures since success {}, tolerance {}, radius {})", s.converged, m.converged, m.since, m.tol, m.radius)
        self.w.stats.state("model", m.key(), self.batch, m.tol)

    def on_terminate(self):
        if not self.cfg.get("restarts", True) and len(self.w.done) < self.cfg["max_evals"] and not self.w.failed:
            require(self.model.converged, "run ended early although the rule has not converged")


def run(ch, cfg):
    RadiusWorld(ch, cfg).run()


def jobs(tier):
    out = []
    t = 1 if tier == "thorough" else 0
    A = {"async": True}
    S = {"async": False}

    def add(name, bound, **kw):
        d = dict(name="radius-" + name, strat="srbf", dim=1, W=1, n0=3, num_cand=2, surrogate="rec", max_conv=0, kill=False, rej=False,
                 alphabet="NTSB", policy="N", max_evals=40, async_=True)
        d.update(kw)
        d["async"] = d.pop("async_")
        d["lb"], d["ub"] = [-1.0] * d["dim"], [3.0] * d["dim"]
        out.append((run, d, bound))

    add("tree", 0, depth=7 + t, alphabet="NTS", max_evals=11 + t, v0=10.0)
    add("tree-neg", 0, depth=6 + t, alphabet="NTS", max_evals=10 + t, v0=-10.0)
    add("edge", 0, depth=7 + t, alphabet="UOQ", max_evals=11 + t, v0=10.0)
    add("edge-neg", 0, depth=6 + t, alphabet="UOQ", max_evals=10 + t, v0=-10.0)
    add("edge-sync", 0, depth=4 + t, async_=False, batch=2, W=2, alphabet="UOQ", max_evals=11 + 2 * t, v0=-10.0)
    for st in ("srbf", "dycors"):
        b2 = 2 + t if st == "srbf" else 1 + t
        add("fail-" + st, b2, strat=st, policy="N", alphabet="NTS", max_evals=28)
        add("zero-" + st, 1 + t, strat=st, v0=0.0, policy="NQ", alphabet="NQST", max_evals=45)
        add("succ-" + st, b2, strat=st, policy="S", alphabet="SN", max_evals=24)
        add("mixed-" + st, b2, strat=st, policy="NNNNSSS", alphabet="NSH", max_evals=30)
        add("fast-" + st, 1 + t, strat=st, policy="SNNNN", alphabet="SNT", max_evals=60)
        add("down-up-" + st, 1 + t, strat=st, policy="NNNNNNNNNSSSSSSSSS", alphabet="NB", max_evals=44)
        add("norestart-" + st, 1 + t, strat=st, policy="N", alphabet="NSB", max_evals=60, restarts=False)
    for W in (2, 3):
        for pol in ("N", "S", "NNNNSSS"):
            add("async-%d-%s" % (W, pol), 1 + t, W=W, policy=pol, alphabet="NSB", max_evals=26, n0=4, kill=True, rej=True)
    add("async-2-b2", 2 + t, W=2, policy="SNNNN", alphabet="NS", max_evals=17, n0=3, kill=True)
    for b, W in ((1, 1), (2, 2), (2, 1), (3, 3), (4, 4), (5, 2)):
        for pol in ("N", "SNN", "SSSNN"):
            add("sync-%d-%d-%s" % (b, W, pol), 1 + t, async_=False, batch=b, W=W, policy=pol, alphabet="NST", max_evals=3 + b * (14 if b < 3 else 9), kill=True, rej=True)
    for dim in (1, 2, 3, 4, 5, 6, 7):
        add("dim-%d" % dim, 1 if dim < 6 else 0, dim=dim, n0=3, max_evals=3 + max(dim, 4) * 5 + 6, policy="N", alphabet="NS")
        for b in (1, 2, 3, 4, 5, 7):
            add("dim-%d-batch-%d" % (dim, b), 0 + t, dim=dim, async_=False, batch=b, W=1, n0=3, max_evals=3 + b * (-(-max(dim, 4) // b) * 5 + 5), policy="N", alphabet="NS")
            add("dim-%d-batch-%d-s" % (dim, b), 0 + t, dim=dim, async_=False, batch=b, W=b, n0=3, max_evals=3 + b * (-(-max(dim, 4) // b) * 3 + 5), policy="NNNS", alphabet="NS")
    return out
