"""Monitors: compare a strategy with the driver's ground truth between controller events."""
import numpy as np

from .core import Violation, require


class Monitor:
    w = None

    def known(self):
        """User-supplied points with known values."""
        w = self.w
        if w.extra_points is None or w.extra_vals is None:
            return []
        return [(np.array(x, dtype=float), float(np.ravel(v)[0])) for x, v in zip(w.extra_points, w.extra_vals) if np.all(np.isfinite(v))]

    def no_restart_converged(self):
        w = self.w
        if w.cfg.get("restarts", True):
            return False
        if w.cfg["strat"] == "tiny":
            return bool(w.converged_seq)
        return bool(getattr(w.strategy, "converged", True))


def rows(pairs):
    return sorted((tuple(float(v) for v in np.ravel(x)), float(f)) for x, f in pairs)


def pts(xs):
    return sorted(tuple(float(v) for v in np.ravel(x)) for x in xs)


class Budget(Monitor):
    first_full = None

    def after_step(self, op=None):
        w = self.w
        n = len(w.done) + len(w.fly)
        require(n <= w.cfg["max_evals"], "budget exceeded: {} completed + {} in flight > {}", len(w.done), len(w.fly), w.cfg["max_evals"])
        if n == w.cfg["max_evals"] and self.first_full is None:
            self.first_full = w.seq

    def on_terminate(self):
        w = self.w
        self.after_step()
        require(not w.fly, "termination requested with {} evaluations in flight", len(w.fly))
        if self.no_restart_converged():
            return
        short = w.cfg["max_evals"] - len(w.done)
        late = [e for e in w.failed if self.first_full is not None and e.done_seq > self.first_full]
        require(short <= len(late), "terminated after {} of {} evaluations ({} failed after the whole budget was committed)", len(w.done), w.cfg["max_evals"], len(late))


class Ledger(Monitor):
    def after_step(self, op=None):
        w, s = self.w, self.w.strategy
        k = self.known()
        if hasattr(s, "X"):
            X = np.array([x for x, _ in k] + [e.x for e in w.done]).reshape(-1, w.prob.dim)
            require(s.X.shape == X.shape, "history holds {} points instead of {} known + {} completed", s.X.shape, len(k), len(w.done))
            require(np.array_equal(s.X, X), "history of points {} differs from {}", s.X.tolist(), X.tolist())
        if hasattr(s, "fX"):
            fX = np.array([f for _, f in k] + [e.value for e in w.done]).reshape(-1, 1)
            require(s.fX.shape == fX.shape, "history holds values of shape {} instead of {}", s.fX.shape, fX.shape)
            require(np.array_equal(s.fX, fX), "history of values {} differs from {}", s.fX.ravel().tolist(), fX.ravel().tolist())
        for name, val in [("num_evals", len(w.done)), ("pending_evals", len(w.fly)), ("accepted_count", len(w.evs)), ("rejected_count", len(w.rejected))]:
            if hasattr(s, name):
                require(getattr(s, name) == val, "{} is {} but should be {}", name, getattr(s, name), val)
        if hasattr(s, "Xpend"):
            require(pts(s.Xpend) == pts(e.x for e in w.fly), "pending points {} differ from those in flight {}", pts(s.Xpend), pts(e.x for e in w.fly))
        if hasattr(s, "fevals"):
            got, want = [id(r) for r in s.fevals], [id(e.rec) for e in w.finished]
            require(sorted(got) == sorted(want), "list of finished evaluations has {} entries instead of {} (or the wrong ones)", len(got), len(want))
        for e in w.evs:  # nobody tampers with the records
            require(np.array_equal(np.ravel(e.rec.params[0]), e.x), "point of a record changed from {} to {}", e.x, e.rec.params[0])
            if e.status == "done":
                require(e.rec.value == e.value, "value of a record changed")


class Progress(Monitor):
    def on_none(self):
        require(self.w.fly, "nothing in flight and nothing proposed (serial controllers fail, threaded ones hang)")


class Feasible(Monitor):
    def on_eval_proposal(self, x, origin, ndes):
        check_feasible(self.w.prob, x)


def check_feasible(prob, x, what="proposed point"):
    a = np.asarray(x)
    require(a.shape == (prob.dim,), "{} has shape {}", what, a.shape)
    require(np.all(np.isfinite(a)), "{} {} is not finite", what, a)
    require(np.all(a >= prob.lb) and np.all(a <= prob.ub), "{} {} violates the bounds [{}, {}]", what, a.tolist(), prob.lb.tolist(), prob.ub.tolist())
    for i in np.asarray(prob.int_var, dtype=int):
        require(a[i] == np.round(a[i]), "{} {} has non-integer variable {}", what, a.tolist(), i)


class InitialDesign(Monitor):
    def on_design(self, X):
        w = self.w
        lb, ub, iv = w.design_args[-1]
        require(lb is not None and ub is not None and np.array_equal(lb, w.prob.lb) and np.array_equal(ub, w.prob.ub), "design generated for other bounds than the problem's")
        require(np.array_equal(np.ravel([] if iv is None else iv), np.ravel(w.prob.int_var)), "design generated for other integer variables than the problem's")

    def on_eval_proposal(self, x, origin, ndes):
        w = self.w
        run = len(w.designs) - 1
        need = [p for p, r in w.waiting]
        if origin == "adapt":
            require(not need, "{} proposed while initial points {} are waiting", np.asarray(x).tolist(), pts(need))
            if not w.cfg.get("async", True):
                busy = [e for e in w.fly if e.origin != "adapt" and e.run == run]
                require(not busy, "synchronous adaptive sampling begins with {} initial points in flight", len(busy))
            if w.cfg.get("rng", "seed") == "seed" and not w.cfg.get("ints"):
                for p, f in self.known():
                    require(not np.array_equal(p, x), "extra point {} with known value is evaluated", pts([p]))
                for e in w.done:
                    require(e.origin == "adapt" or not np.array_equal(e.x, x), "initial point {} is evaluated twice", pts([x]))
        elif len(w.designs) > ndes:
            pass
        elif ndes == len(w.designs):
            require(origin[1] <= run, "internal")

    def on_terminate(self):
        w = self.w
        run = len(w.designs) - 1
        need = [p for p, r in w.waiting]
        require(not need or w.max_committed >= w.cfg["max_evals"] or self.no_restart_converged(), "terminated with initial points {} unevaluated and budget left", pts(need))


class Training(Monitor):
    def after_step(self, op=None):
        w, s = self.w, self.w.strategy
        if w.cfg["strat"] == "random":
            return
        run = len(w.designs) - 1
        want = [(e.x, e.value) for e in w.done if e.run == run]
        if run == 0:
            want = self.known() + want
        sur = s.surrogate
        require(len(sur.X) == len(sur.fX), "surrogate holds {} points but {} values", len(sur.X), len(sur.fX))
        got = rows(zip(sur.X, np.ravel(sur.fX)))
        require(got == rows(want), "surrogate data {} differ from the current run's evaluations {}", got, rows(want))
        require(sur.num_pts == len(want), "surrogate counts {} points instead of {}", sur.num_pts, len(want))
        if hasattr(s, "_X") and hasattr(s, "_fX"):
            got = rows(zip(s._X, np.ravel(s._fX)))
            require(got == rows(want), "data of the current run {} differ from its evaluations {}", got, rows(want))


class Restart(Monitor):
    """Exact for strategies whose convergence the harness decides (tiny) or knows (ei/lcb with huge tolerance)."""

    last_conv_run = -1

    def converged(self, run):
        w = self.w
        return any(r == run for _, r in w.converged_seq)

    def on_design(self, X):
        w = self.w
        k = len(w.designs) - 1  # index of the new run
        if k == 0:
            return
        require(w.cfg.get("restarts", True), "a new experimental design is generated although restarts are disabled")
        if w.cfg["strat"] == "tiny":
            require(self.converged(k - 1), "restart without convergence")
        if not w.cfg.get("async", True):
            require(not w.fly, "synchronous restart with {} evaluations in flight", len(w.fly))
        self.fresh = True

    fresh = False

    def on_eval_proposal(self, x, origin, ndes):
        w = self.w
        conv = self.converged(ndes - 1) if w.cfg["strat"] == "tiny" else False
        if conv:
            require(w.cfg.get("restarts", True), "evaluation proposed after convergence although restarts are disabled")
            require(len(w.designs) == ndes + 1, "run continues after convergence ({} new designs)", len(w.designs) - ndes)
        else:
            require(len(w.designs) <= ndes + 1, "more than one restart at once")

    def on_none(self):
        w = self.w
        if w.cfg["strat"] == "tiny" and w.cfg.get("async", True) and self.converged(len(w.designs) - 1) and w.cfg.get("restarts", True):
            require(w.max_committed >= w.cfg["max_evals"], "no restart after convergence")

    def after_step(self, op=None):
        w, s = self.w, self.w.strategy
        if not self.fresh:
            return
        self.fresh = False
        require(s.surrogate.num_pts == 0 and len(s.surrogate.X) == 0 and len(s.surrogate.fX) == 0, "surrogate holds {} points right after a restart", len(s.surrogate.X))
        require(not getattr(s, "converged", False), "still marked as converged after a restart")
        for name, val in [("sampling_radius", 0.2), ("status", 0), ("failcount", 0), ("_fbest", np.inf)]:
            if hasattr(s, name):
                require(getattr(s, name) == val, "{} is {} after a restart", name, getattr(s, name))
        if w.cfg["strat"] in ("srbf", "dycors"):
            require(not getattr(s, "record_queue", []), "unprocessed evaluations of the previous run survive a restart")
        k = len(self.known())
        require(len(s.X) == k + len(w.done) and len(s.fX) == k + len(w.done), "global history has {} entries after a restart instead of {}", len(s.X), k + len(w.done))
        require(s.num_evals == len(w.done), "number of evaluations {} after a restart instead of {}", s.num_evals, len(w.done))
        require(s.max_evals == w.cfg["max_evals"], "budget changed by a restart")

    def on_terminate(self):
        w = self.w
        if w.cfg["strat"] == "tiny" and not w.cfg.get("restarts", True) and self.converged(0):
            require(len(w.designs) == 1, "new design after convergence although restarts are disabled")


class Batches(Monitor):
    def __init__(self):
        self.handed = 0  # points of the current batch handed out
        self.out = []  # rejected points of the current batch
        self.open = False
        self.ngen = 0

    def on_design(self, X):
        self.open = False
        self.handed, self.out = 0, []

    def on_generate(self, n):
        w = self.w
        if w.cfg.get("async", True):
            require(n == 1, "asynchronous generation of {} points", n)
        else:
            require(n == w.cfg["batch"], "generation of {} points for batch size {}", n, w.cfg["batch"])
            require(not w.fly, "new batch generated with {} evaluations in flight", len(w.fly))
            require(not self.open or (self.handed == w.cfg["batch"] and not self.out), "new batch generated before the previous one was handed out")

    def on_eval_proposal(self, x, origin, ndes):
        w = self.w
        if w.cfg.get("async", True) or origin != "adapt":
            return
        key = tuple(np.ravel(x))
        if w.cfg.get("rng", "seed") == "seed" and not w.cfg.get("ints") and not w.cfg.get("dup"):
            for e in w.failed:
                require(e.origin != "adapt" or tuple(e.x) != key, "failed point {} of a batch is proposed again", key)
        if self.open and key in self.out:
            self.out.remove(key)
            self.handed -= 0
            return
        if self.open and self.handed < w.cfg["batch"]:
            self.handed += 1
            return
        require(not (self.open and self.out), "rejected points {} of a batch are not proposed again", self.out)
        require(not w.fly, "new batch begins with {} evaluations in flight", len(w.fly))
        self.open, self.handed, self.out = True, 1, []

    def on_reject(self, x, origin):
        w = self.w
        if not w.cfg.get("async", True) and origin == "adapt":
            self.out.append(tuple(np.ravel(x)))

    def on_none(self):
        w = self.w
        if w.max_committed >= w.cfg["max_evals"] or self.no_restart_converged():
            return
        if w.cfg["strat"] == "random":
            return
        run = len(w.designs) - 1
        conv = any(r == run for _, r in w.converged_seq)
        if w.cfg.get("async", True):
            if w.cfg["strat"] == "sop":
                n = len([e for e in w.fly if e.origin == "adapt"])
                if n >= w.cfg.get("ncenters", 4):
                    return
            require(False, "asynchronous worker idles with {} of {} evaluations committed", len(w.done) + len(w.fly), w.cfg["max_evals"])
        if conv or getattr(w.strategy, "converged", False):
            return
        need = [p for p, r in w.waiting if r == run]
        require(not need, "nothing proposed although initial points {} are waiting", pts(need))
        require(not self.open or (self.handed == w.cfg["batch"] and not self.out), "nothing proposed although only {} of {} points of the batch are handed out", self.handed - len(self.out), w.cfg["batch"])


ALL = dict(budget=Budget, ledger=Ledger, progress=Progress, feasible=Feasible, initial=InitialDesign, training=Training, restart=Restart, batches=Batches)
