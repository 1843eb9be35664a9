"""Drives the real strategies through every schedule of a controller with W workers.

The driver plays POAP's controller: it asks the strategy for proposals, accepts or rejects them, and completes, kills
or cancels the evaluations in flight in whatever order the Chooser picks.  It keeps its own ground truth of what
happened; monitors compare the strategy with it between controller events.
"""
import numpy as np
from pySOT.experimental_design import ExperimentalDesign, SymmetricLatinHypercube
from pySOT.optimization_problems import OptimizationProblem
from pySOT.strategy.surrogate_strategy import SurrogateBaseStrategy
from pySOT.surrogate import CubicKernel, GPRegressor, LinearTail, RBFInterpolant, Surrogate
from pySOT.utils import GeneticAlgorithm

from . import env
from .core import Prune, Violation, require

CUR = None  # the World being driven (harness strategies and surrogates look their choices up here)


class Ev:
    """One accepted evaluation."""

    def __init__(self, i, x, rec, run, origin, seq):
        self.i, self.x, self.rec, self.run, self.origin, self.seq = i, np.array(x, dtype=float), rec, run, origin, seq
        self.status = "fly"
        self.value = None
        self.done_seq = None


class Prob(OptimizationProblem):
    def __init__(self, cfg):
        d = cfg.get("dim", 1)
        self.dim = d
        self.xs, self.fs = cfg.get("xscale", 1.0), cfg.get("fscale", 1.0)  # units
        self.shift = cfg.get("xshift", 0.0)
        self.lb = self.xs * np.array((cfg.get("lb") or [-1.0, -2.0, 0.0])[:d], dtype=float) + self.shift
        self.ub = self.xs * np.array((cfg.get("ub") or [3.0, 1.0, 4.0])[:d], dtype=float) + self.shift
        ints = list(cfg.get("ints", []))
        self.int_var = np.array(ints, dtype=int) if ints else np.array([])
        self.cont_var = np.array([i for i in range(d) if i not in ints], dtype=int)
        self.info = ""
        self.kind = cfg.get("value", "sphere")

    def eval(self, x):
        self.__check_input__(x)
        return self.value(x)

    def value(self, x):
        return self.fs * objective((np.asarray(x, dtype=float) - self.shift) / self.xs, self.kind)


def objective(x, kind):
    if kind == "const":
        return 1.0
    if kind == "rise":  # every evaluation is worse than all before it
        return float(len(CUR.done))
    if kind == "neg":
        return float(-np.sum(np.abs(x)) - 1.0)
    if kind == "huge":
        return 1e8 * objective(x, "")
    if kind == "shallow":  # never a sufficient improvement
        return 1.0 + 1e-5 * objective(x, "")
    return float(np.sum((x - 0.3) ** 2) + 0.1 * np.sum(np.cos(5 * x)))


class Design(ExperimentalDesign):
    """Known, distinct points; different in every run."""

    def __init__(self, cfg, prob):
        self.dim = prob.dim
        self.num_pts = cfg.get("n0", 3)
        self.lb, self.ub, self.ints = prob.lb.copy(), prob.ub.copy(), list(cfg.get("ints", []))

    def generate_points(self, lb=None, ub=None, int_var=None):
        w = CUR
        k = len(w.designs)
        rs = np.random.RandomState(100 + k)
        n = self.num_pts
        base = (np.arange(n) + 0.5) / n
        U = np.empty((n, self.dim))
        for j in range(self.dim):
            U[:, j] = np.roll(base, (j * (k + 1)) % n) if j % 2 == 0 else base[::-1]
            U[:, j] = U[:, j] ** (1 + 0.3 * j)
        U += 0.3 / n * (rs.random_sample(U.shape) - 0.5) + 0.01 / n * k
        w.design_args.append((lb, ub, int_var))
        X = self.lb + (self.ub - self.lb) * np.clip(U, 0, 1)
        for i in self.ints:
            X[:, i] = np.round(X[:, i])
        w.on_design(X)
        return X.copy()


class RealDesign(ExperimentalDesign):
    """One of the library's designs; tells the driver what it generated."""

    def __init__(self, cfg, prob):
        from pySOT import experimental_design as ed

        kind, n, d = cfg["design"], cfg["n0"], prob.dim
        self.real = {"slhd": lambda: ed.SymmetricLatinHypercube(dim=d, num_pts=n, iterations=5), "lhd": lambda: ed.LatinHypercube(dim=d, num_pts=n, criterion="c", iterations=5),
                     "2fact": lambda: ed.TwoFactorial(d)}[kind]()
        self.dim, self.num_pts = d, self.real.num_pts

    def generate_points(self, lb=None, ub=None, int_var=None):
        w = CUR
        w.design_args.append((lb, ub, int_var))
        X = self.real.generate_points(lb=lb, ub=ub, int_var=int_var)
        w.on_design(X)
        return X


def extras(cfg, prob):
    """Extra points: one letter each: k known, n unknown (nan), i unknown (inf); '-' in front: no values given."""
    e = cfg.get("extras", "")
    if not e:
        return None, None
    novals = e.startswith("-")
    e = e.lstrip("-")
    rs = np.random.RandomState(7)
    X = prob.lb + (prob.ub - prob.lb) * (0.05 + 0.9 * rs.random_sample((len(e), prob.dim)))
    for i in cfg.get("ints", []):
        X[:, i] = np.round(X[:, i])
    if cfg.get("close"):  # nearly the same points
        X = X[:1] + cfg["close"] * prob.xs * np.arange(len(e)).reshape(-1, 1)
    if cfg.get("corner"):  # near the first and the last corner
        off = cfg["corner"] * (prob.ub[0] - prob.lb[0]) * np.eye(prob.dim)[0]
        X = np.vstack((prob.lb + off, prob.ub - off))[: len(e)]
    if novals:
        return X, None
    v = np.array([[prob.value(x) - (5.0 * prob.fs if cfg.get("goodextra") else 0.0)] for x in X])
    for i, c in enumerate(e):
        if c == "n":
            v[i] = np.nan
        elif c == "i":
            v[i] = np.inf
    return X, v


class Spy(Surrogate):
    def predict(self, xx):
        return np.zeros((np.atleast_2d(xx).shape[0], 1))

    def predict_deriv(self, xx):
        return np.zeros(np.atleast_2d(xx).shape)


class RecSurrogate(Spy):
    """Cheap fixed predictions; remembers what was asked for."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.seen = []

    def table(self, xx):
        return np.cos(5 * xx).sum(axis=1) + 0.3 * xx.sum(axis=1)

    def predict(self, xx):
        xx = np.atleast_2d(np.asarray(xx, dtype=float))
        self.seen.append(xx.copy())
        return self.table(xx).reshape(-1, 1)


class FakeGP(GPRegressor):
    """A GPRegressor with cheap closed-form predictions (the acquisition strategies insist on the type)."""

    def _fit(self):
        self.updated = True

    def _w(self, xx):
        xx = np.atleast_2d(xx)
        U = (xx - self.lb) / (self.ub - self.lb)
        V = (self.X - self.lb) / (self.ub - self.lb)
        return np.sqrt(((U[:, None, :] - V[None, :, :]) ** 2).sum(axis=2))

    def predict(self, xx):
        D = self._w(xx)
        W = 1.0 / (D ** 2 + 1e-3)
        W /= W.sum(axis=1, keepdims=True)
        return np.dot(W, self.fX)

    def predict_std(self, xx):
        return self._w(xx).min(axis=1, keepdims=True) + 1e-3


def spy_surrogate(prob):
    return Spy(dim=prob.dim, lb=prob.lb, ub=prob.ub)


class RecGP(FakeGP):
    """Remembers the points whose acquisition was asked for, one list per search."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.searches = []
        ga_listeners[:] = [lambda: self.searches.append([])]

    def predict(self, xx):
        if not self.searches:
            self.searches.append([])
        self.searches[-1].append(np.atleast_2d(np.asarray(xx, dtype=float)).copy())
        return super().predict(xx)


class CornerGP(RecGP):
    """Believes in two corners of the domain."""

    def predict(self, xx):
        xx = np.atleast_2d(np.asarray(xx, dtype=float))
        u = (xx - self.lb) / (self.ub - self.lb)
        return super().predict(xx) - 50.0 * np.exp(-(np.minimum(u, 1 - u).max(axis=1, keepdims=True) / 0.1) ** 2)


def corner_gp(prob):
    return CornerGP(dim=prob.dim, lb=prob.lb, ub=prob.ub)


def rec_gp(prob):
    return RecGP(dim=prob.dim, lb=prob.lb, ub=prob.ub)


def rec_surrogate(prob):
    return RecSurrogate(dim=prob.dim, lb=prob.lb, ub=prob.ub)


def fake_gp(prob):
    return FakeGP(dim=prob.dim, lb=prob.lb, ub=prob.ub)


def rbf(prob, kernel=None, tail=None):
    return RBFInterpolant(dim=prob.dim, lb=prob.lb, ub=prob.ub, kernel=kernel or CubicKernel(), tail=tail or LinearTail(prob.dim), eta=1e-4)


class TinyStrategy(SurrogateBaseStrategy):
    """A minimal user-defined strategy on top of the base class; the Chooser decides about convergence."""

    def generate_evals(self, num_pts):
        w = CUR
        w.on_generate(num_pts)
        if w.conv_ok("gen") and w.ch.choose(2, "converge-gen"):
            w.mark_converged(self)
            return
        for _ in range(num_pts):
            self.batch_queue.append(w.fresh_point())

    def on_adapt_completed(self, record):
        super().on_adapt_completed(record)
        w = CUR
        if not self.asynchronous and (self.batch_queue or w.fly):
            return  # a batch is finished before anything is concluded from it
        if w.conv_ok("done") and not self.converged and w.ch.choose(2, "converge-done"):
            w.mark_converged(self)


_patched = False
ga_results = []  # what they returned
ga_listeners = []  # called when a genetic algorithm starts


def shrink_ga():
    """Keep the genetic algorithm's structure but make it small."""
    global _patched
    if _patched:
        return
    _patched = True
    o1, o2 = GeneticAlgorithm.__init__, SymmetricLatinHypercube.__init__

    def i1(self, *a, **k):
        o1(self, *a, **k)
        if getattr(self, "nindividuals", 0) > 8:
            self.nindividuals = 8
        if getattr(self, "ngenerations", 0) > 2:
            self.ngenerations = 2

    def i2(self, *a, **k):
        o2(self, *a, **k)
        if getattr(self, "iterations", 0) > 12:
            self.iterations = 12

    o3 = GeneticAlgorithm.optimize

    def opt(self, *a, **k):
        for f in ga_listeners:
            f()
        r = o3(self, *a, **k)
        ga_results.append(r)
        return r

    GeneticAlgorithm.optimize = opt
    GeneticAlgorithm.__init__ = i1
    SymmetricLatinHypercube.__init__ = i2


def make_strategy(cfg, prob, design, surrogate):
    kind = cfg["strat"]
    from pySOT import strategy as st

    if kind == "random":
        if CUR is not None:
            CUR.fire("on_inputs")
        return st.RandomStrategy(max_evals=cfg["max_evals"], opt_prob=prob)
    ep, ev = extras(cfg, prob)
    if CUR is not None:
        CUR.extra_points, CUR.extra_vals = ep, ev
    kw = dict(max_evals=cfg["max_evals"], opt_prob=prob, exp_design=design, surrogate=surrogate,
              asynchronous=cfg.get("async", True), batch_size=cfg.get("batch"), extra_points=ep, extra_vals=ev,
              use_restarts=cfg.get("restarts", True))
    if "weights" in cfg:
        kw["weights"] = cfg["weights"].copy() if isinstance(cfg["weights"], np.ndarray) else list(cfg["weights"])
        if CUR is not None:
            CUR.given_weights = kw["weights"]
    if CUR is not None:
        CUR.fire("on_inputs")
    if kind == "tiny":
        return TinyStrategy(**kw)
    if kind in ("srbf", "dycors"):
        cls = st.SRBFStrategy if kind == "srbf" else st.DYCORSStrategy
        return cls(num_cand=cfg.get("num_cand", 5), **kw)
    if kind == "sop":
        return st.SOPStrategy(num_cand=cfg.get("num_cand", 5), ncenters=cfg.get("ncenters", 4), **kw)
    shrink_ga()
    if kind == "ei":
        return st.EIStrategy(ei_tol=cfg.get("tol"), dtol=cfg.get("dtol"), **kw)
    if kind == "lcb":
        return st.LCBStrategy(lcb_tol=cfg.get("tol"), dtol=cfg.get("dtol"), **dict(kw, **({"kappa": cfg["kappa"]} if "kappa" in cfg else {})))
    raise ValueError(kind)


SURROGATES = {"spy": spy_surrogate, "rec": rec_surrogate, "recgp": rec_gp, "corner": corner_gp, "gp": fake_gp}


class World:
    def __init__(self, ch, cfg, monitors=(), controller=None, shared=None):
        global CUR
        CUR = self
        from . import rng

        self.ch, self.cfg = ch, cfg
        self.W = cfg.get("W", 1)
        self.stats = getattr(ch, "stats", None)
        rng.mode = cfg.get("rng", "seed")
        self.monitors = list(monitors)
        for m in self.monitors:
            m.w = self
        self.evs = []  # accepted evaluations, in order of acceptance
        self.fly = []
        self.done = []  # completed, in order of completion
        self.failed = []
        self.finished = []  # completed and failed, in order
        self.rejected = []
        self.proposals = []  # every proposal object, in order: (x, origin)
        self.designs = []  # point arrays, one per run
        self.design_args = []
        self.design_seq = []
        self.extra_points = self.extra_vals = self.given_weights = None
        self.converged_seq = []
        self.gens = []
        self.seq = 0  # controller events so far
        self.max_committed = 0
        self.ended = False
        self.quiet = False  # last request for work returned nothing and nothing happened since
        self.busy_tried = False
        self.npts = 0
        self.conv_count = 0
        self.in_propose = False
        self.waiting = []  # design points of the current runs waiting to be proposed: (x, run)
        shared = shared or {}  # objects that belong to several worlds
        self.prob = shared.get("prob") or Prob(cfg)
        self.design = (RealDesign if cfg.get("design") else Design)(cfg, self.prob)
        if "design" in shared:
            self.design.real = shared["design"]
        k = cfg.get("surrogate") or {"tiny": "spy", "ei": "gp", "lcb": "gp", "random": "spy"}.get(cfg["strat"], "rbf")
        self.surrogate = rbf(self.prob, shared.get("kernel"), shared.get("tail")) if k == "rbf" else SURROGATES[k](self.prob)
        self.strategy = make_strategy(cfg, self.prob, self.design, self.surrogate)
        if self.extra_points is not None:  # waiting extra points belong to run 0
            for i, x in enumerate(self.extra_points):
                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):
                    self.waiting.append((np.array(x), 0))
        self.fire("on_start")

    # -- callbacks from harness objects

    def on_design(self, X):
        run = len(self.designs)
        self.designs.append(np.array(X))
        self.design_seq.append(self.seq)
        self.waiting += [(np.array(x), run) for x in X]
        self.fire("on_design", X)

    def on_generate(self, n):
        self.gens.append((self.seq, n, len(self.fly)))
        self.fire("on_generate", n)

    def conv_ok(self, where):
        return self.conv_count < self.cfg.get("max_conv", 0)

    def mark_converged(self, strategy):
        self.conv_count += 1
        self.converged_seq.append((self.seq, len(self.designs) - 1))
        strategy.converged = True

    def fresh_point(self):
        """A new feasible point, different from all others."""
        self.npts += 1
        u = (0.6180339887498949 * self.npts + 0.0137) % 1.0
        x = self.prob.lb + (self.prob.ub - self.prob.lb) * ((u + np.arange(self.prob.dim) * 0.31) % 1.0)
        for i in self.cfg.get("ints", []):
            x[i] = np.round(x[i])
        if self.cfg.get("dup") and self.npts % 2 == 0:  # the same point twice in a row
            return self._lastpt.copy()
        self._lastpt = x.copy()
        return x

    def fire(self, name, *args):
        for m in self.monitors:
            f = getattr(m, name, None)
            if f is not None:
                f(*args)

    # -- controller events

    def classify(self, x):
        """Is this a waiting design point?"""
        for i, (p, run) in enumerate(self.waiting):
            if np.array_equal(p, x):
                return i
        return None

    def propose(self, accept):
        from poap.strategy import EvalRecord

        self.seq += 1
        self.fire("before_propose")
        self.busy_tried = not accept or self.busy_tried
        self.in_propose = True
        ndes = len(self.designs)
        p = self.strategy.propose_action()
        self.in_propose = False
        if p is None or not p:
            self.quiet = True
            self.fire("on_none")
            return None
        require(p.action in ("eval", "terminate"), "unknown proposal {!r}", p.action)
        if p.action == "terminate":
            self.ended = True
            self.fire("on_terminate")
            p.accept()
            return p
        require(len(p.args) == 1, "proposal with {} arguments", len(p.args))
        x = p.args[0]
        k = self.classify(np.asarray(x, dtype=float))
        origin = "adapt" if k is None else ("init", self.waiting[k][1])
        self.proposals.append((np.array(x, dtype=float), origin))
        self.fire("on_eval_proposal", x, origin, ndes)
        if not accept:
            self.rejected.append(np.array(x, dtype=float))
            p.reject()
            self.fire("on_reject", x, origin)
            return p
        if k is not None:
            self.waiting.pop(k)
        rec = EvalRecord(params=p.args, status="pending")
        p.record = rec
        self.new_record(rec)
        p.accept()
        ev = Ev(len(self.evs), x, rec, len(self.designs) - 1, origin, self.seq)
        self.evs.append(ev)
        self.fly.append(ev)
        self.max_committed = max(self.max_committed, len(self.done) + len(self.fly))
        if ev.i % 2 == 0:
            rec.running()
        self.fire("on_accept", ev)
        return p

    def new_record(self, rec):
        pass

    def value_of(self, ev):
        kind = self.cfg.get("value", "sphere")
        if callable(getattr(self, "value_fn", None)):
            return self.value_fn(ev)
        return self.prob.eval(ev.x)

    def complete(self, ev):
        self.seq += 1
        v = self.value_of(ev)
        ev.value, ev.status, ev.done_seq = v, "done", self.seq
        self.fly.remove(ev)
        self.done.append(ev)
        self.finished.append(ev)
        self.event()
        ev.rec.complete(v)
        self.fire("on_complete", ev)

    def fail(self, ev, how):
        self.seq += 1
        ev.status, ev.done_seq = "fail", self.seq
        self.fly.remove(ev)
        self.failed.append(ev)
        self.finished.append(ev)
        if ev.origin != "adapt":
            self.waiting.append((ev.x, ev.origin[1]))
        self.event()
        (ev.rec.kill if how == "kill" else ev.rec.cancel)()
        self.fire("on_fail", ev)

    def event(self):
        self.quiet = False
        self.busy_tried = False

    # -- exploration

    def options(self):
        cfg = self.cfg
        free = len(self.fly) < self.W
        opts = []
        if free and not self.quiet:
            opts.append(("P",))
        opts += [("C", i) for i in range(len(self.fly))]
        if free and not self.quiet and cfg.get("rej", True):
            opts.append(("R",))
        if not free and not self.busy_tried and cfg.get("rej", True):
            opts.append(("R",))
        if cfg.get("kill", True):
            for i in range(len(self.fly)):
                opts.append(("K", i))
                if i == 0:
                    opts.append(("X", i))
        return opts

    def apply(self, op):
        if op[0] == "P":
            self.propose(True)
        elif op[0] == "R":
            self.propose(False)
        elif op[0] == "C":
            self.complete(self.fly[op[1]])
        elif op[0] == "K":
            self.fail(self.fly[op[1]], "kill")
        elif op[0] == "X":
            self.fail(self.fly[op[1]], "cancel")

    def step(self):
        opts = self.options()
        require(opts, "stalled: nothing in flight and the strategy proposes nothing")
        op = opts[self.ch.choose(len(opts), "step")] if len(opts) > 1 else opts[0]
        self.apply(op)
        if self.stats is not None:
            self.stats.transitions += 1
            self.stats.state(self.cfg.get("name"), self.digest())
        if not self.ended:
            self.fire("after_step", op)
        return op

    def digest(self):
        s = "".join({"fly": "f", "done": "d", "fail": "x", "lost": "l"}[e.status] + str(e.run) for e in self.evs)
        return (s, len(self.rejected) - len(self.evs), len(self.designs), self.quiet, self.ended)

    def max_steps(self):
        c = self.cfg
        return 60 + 12 * c["max_evals"]

    def run(self):
        n = 0
        while not self.ended:
            n += 1
            require(n <= self.max_steps(), "run does not terminate: {} controller events, {} completed of {}", n, len(self.done), self.cfg["max_evals"])
            self.step()
        self.fire("at_end")
        if self.stats is not None:
            self.stats.case(self.cfg.get("name"), self.digest(), tuple(e.done_seq for e in self.evs), len(self.proposals), tuple(repr(e.value) for e in self.evs) if "policy" in self.cfg else ())
        return self
