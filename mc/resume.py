"""C13: crash at any controller event, resume from the checkpoint through the real CheckpointController, carry on (again and again)."""
import os

import numpy as np

from . import env, monitors
from .core import require
from .world import World

STATE = ["sampling_radius", "status", "failcount", "_fbest", "next_weight", "converged", "max_evals", "dtol", "kappa", "ei_tol", "lcb_tol", "batch_size", "asynchronous", "use_restarts", "failtol", "succtol", "maxfailtol"]


class Refused(Exception):
    pass


class Ctl:
    """The controller that CheckpointController wraps: the exploration driver plays its run loop."""

    def __init__(self):
        self.strategy = None
        self.fevals = []
        self.feval_callbacks = []
        self.term_callbacks = []
        self.ran = 0

    def add_feval_callback(self, f):
        self.feval_callbacks.append(f)

    def add_term_callback(self, f):
        self.term_callbacks.append(f)

    def run(self):
        self.ran += 1
        return "result"

    def best_point(self, *a, **k):
        return None


def snap_value(v):
    return v.tolist() if isinstance(v, np.ndarray) else v


class ResumeWorld(World):
    def __init__(self, ch, cfg, mons):
        from pySOT.controller import CheckpointController

        self.crashes = 0
        self.snap = None
        d = env.scratch()
        self.fname = os.path.join(d, "run.ck")
        super().__init__(ch, cfg, mons)
        self.ctl = Ctl()
        self.ctl.strategy = self.strategy
        self.ck = CheckpointController(self.ctl, self.fname)
        require(self.ck.run() == "result" and self.ctl.ran == 1, "a new run without an existing checkpoint was not started")

    def new_record(self, rec):
        self.ctl.fevals.append(rec)
        for f in list(self.ctl.feval_callbacks):
            f(rec)

    def options(self):
        o = super().options()
        if self.crashes < self.cfg.get("max_crash", 1):
            o += [("Z", "hard"), ("Z", "soft")]
        return o

    def apply(self, op):
        if op[0] == "Z":
            self.crash(op[1])
        else:
            super().apply(op)
            if op[0] in "CKX":
                require(os.path.isfile(self.fname), "no checkpoint although an evaluation has finished")
                self.snapshot()

    def snapshot(self):
        s = self.strategy
        self.snap = dict(evs=[(e, e.status) for e in self.evs], rejected=len(self.rejected), waiting=list(self.waiting), designs=len(self.designs), seq=self.seq,
                         state={a: snap_value(getattr(s, a)) for a in STATE if hasattr(s, a)})

    def crash(self, how):
        from pySOT.controller import CheckpointController

        self.seq += 1
        self.crashes += 1
        if how == "soft":  # the controller gets to call its termination callbacks
            for f in list(self.ctl.term_callbacks):
                f()
            require(os.path.isfile(self.fname), "no checkpoint although the run was terminated")
            self.snapshot()
        # the process is gone; a new one
        fresh = Ctl()
        fresh.strategy = object()
        ck = CheckpointController(fresh, self.fname)
        exists = os.path.isfile(self.fname)
        require(exists == (self.snap is not None), "checkpoint file exists: {}, evaluations finished: {}", exists, self.snap is not None)
        if not exists:
            try:
                ck.resume()
            except OSError:
                require(fresh.ran == 0, "a resume without a checkpoint started a run")
                self.ended = True
                self.nofile = True
                return
            require(False, "a resume without a checkpoint was not refused")
        before = open(self.fname, "rb").read()
        try:
            ck.run()
        except OSError:
            require(fresh.ran == 0, "a refused run was started")
        else:
            require(False, "a new run over an existing checkpoint was not refused")
        require(open(self.fname, "rb").read() == before, "a refused run changed the checkpoint")
        self.ctl = Ctl()
        self.ck = CheckpointController(self.ctl, self.fname)
        res = self.ck.resume()
        require(self.ctl.ran == 1 and res == "result", "resume did not run the controller or dropped its result")
        self.strategy = s = self.ctl.strategy
        require(not isinstance(s, type(None)) and type(s).__name__, "no strategy after resume")
        sn = self.snap
        # roll the ground truth back to the checkpoint; whatever was in flight is forgotten
        self.evs = []
        self.waiting = list(sn["waiting"])
        lost = []
        for e, st in sn["evs"]:
            self.evs.append(e)
            if st == "fly":
                e.status = "lost"
                e.value = None
                lost.append(e)
                if e.origin != "adapt":
                    self.waiting.append((e.x, e.origin[1]))
            else:
                e.status = st
        self.fly = []
        keep = {id(e) for e, st in sn["evs"] if st in ("done", "fail")}
        self.done = [e for e in self.done if id(e) in keep]
        self.failed = [e for e in self.failed if id(e) in keep]
        self.finished = [e for e in self.finished if id(e) in keep]
        self.rejected = self.rejected[: sn["rejected"]]
        self.designs = self.designs[: sn["designs"]]
        self.design_args = self.design_args[: sn["designs"]]
        self.converged_seq = [c for c in self.converged_seq if c[0] <= sn["seq"]]
        self.max_committed = len(self.done)
        self.quiet = self.busy_tried = False
        for a, v in sn["state"].items():
            require(hasattr(s, a) and snap_value(getattr(s, a)) == v, "{} is {} after the resume instead of {}", a, snap_value(getattr(s, a, None)), v)
        for name, fe in (("strategy", s.fevals), ("controller", self.ctl.fevals)):
            got = [(tuple(np.ravel(r.params[0])), r.status, r.value) for r in fe]
            want = [(tuple(e.x), e.rec.status, e.value if e.status == "done" else None) for e in self.finished]
            require(sorted(map(repr, got)) == sorted(map(repr, want)), "finished evaluations of the {} after the resume are {} instead of {}", name, got, want)
        left = list(s.fevals)
        for e in self.finished:
            for i, r in enumerate(left):
                if np.array_equal(np.ravel(r.params[0]), e.x) and r.status == e.rec.status and (r.value == e.value or e.status != "done"):
                    e.rec = left.pop(i)
                    break
        for e in lost:
            e.rec = type("Lost", (), dict(params=(e.x,), value=None))()
        self.fire("on_resume")

    def run(self):
        self.nofile = False
        super().run()


class Budget(monitors.Budget):
    def on_resume(self):
        self.first_full = None
        self.after_step()

    def on_terminate(self):
        super().on_terminate()


class Ledger(monitors.Ledger):
    def after_step(self, op=None):
        super().after_step(op)

    def on_resume(self):
        self.after_step()


class Initial(monitors.InitialDesign):
    pass


class Training(monitors.Training):
    def on_resume(self):
        self.after_step()


class Progress(monitors.Progress):
    pass


def run(ch, cfg):
    w = ResumeWorld(ch, cfg, [Budget(), Ledger(), Initial(), Training(), Progress()])
    w.run()
    ch.stats.count("crashes", w.crashes)


class Crash(BaseException):
    pass


def real(ch, cfg):
    """The same with POAP's own serial and simulated controllers: crash in the n-th evaluation, resume, crash again, resume."""
    from poap.controller import SerialController, SimTeamController
    from pySOT.controller import CheckpointController

    from .core import Chooser

    W = cfg["W"]
    fname = os.path.join(env.scratch(), "run.ck")
    total = cfg["max_evals"]
    n1 = ch.choose(total, "crash", free=True) + 1
    n2 = ch.choose(cfg.get("second", 3), "again", free=True)
    hard = ch.choose(2, "hard", free=True)
    w = World(Chooser([], 0), dict(cfg))
    log = []
    state = dict(left=n1)
    ctl = None

    def objective(x):
        state["left"] -= 1
        if state["left"] == 0:
            if hard:
                ctl.term_callbacks[:] = []
            raise Crash()
        if cfg.get("fail") and len(log) % cfg["fail"] == cfg["fail"] - 1 and not state.get("skip"):
            state["skip"] = True
            state["late"] = state.get("late", 0) + (len(log) >= total - W)
            raise ValueError("evaluation failed")
        state["skip"] = False
        v = w.prob.eval(np.asarray(x))
        log.append((tuple(np.ravel(x)), v))
        return v

    nd = [0]

    def delay(rec):
        nd[0] += 1
        return 1.0 + (nd[0] * 7 % 5) * 0.3

    def make():
        return SerialController(objective) if W == 1 else SimTeamController(objective, delay, W)

    def go(f):
        try:
            return True, f()
        except Crash:
            return False, None

    ctl = make()
    ctl.strategy = w.strategy
    ok, res = go(CheckpointController(ctl, fname).run)
    runs = [n1] + ([n2] if n2 else [])
    for i, n in enumerate(runs):
        if ok:
            break
        finished = list(log)
        state["left"] = runs[i + 1] if i + 1 < len(runs) else 10 ** 9
        if not os.path.isfile(fname):
            require(hard and not finished, "no checkpoint after {} finished evaluations", len(finished))
            return
        ctl = make()
        ok, res = go(CheckpointController(ctl, fname).resume)
        got = [(tuple(np.ravel(r.params[0])), r.value) for r in ctl.fevals if r.is_completed]
        for f in finished:
            require(got.count(f) >= finished.count(f), "finished evaluation {} is lost by the resume", f)
        ch.stats.transitions += len(got)
    require(ok, "harness: crashed once too often")
    got = [(tuple(np.ravel(r.params[0])), r.value) for r in ctl.fevals if r.is_completed]
    require(sorted(got) == sorted(log), "the controller knows {} completed evaluations but {} were made", len(got), len(log))
    late = state.get("late", 0)  # failures after the whole budget may have been committed
    require(total - late <= len(got) <= total, "{} evaluations completed instead of {}", len(got), total)
    s = ctl.strategy
    require(sorted((tuple(x), float(f)) for x, f in zip(s.X, np.ravel(s.fX))) == sorted(log), "the strategy's history differs from the evaluations made")
    require(res is not None and res.value == min(v for _, v in log), "the run returned {} instead of the best evaluation {}", getattr(res, "value", None), min(v for _, v in log))
    for p in w.designs[0]:
        require(sum(np.array_equal(p, x) for x, _ in log) == 1 or len(got) < total, "design point {} was evaluated {} times", p, sum(np.array_equal(p, x) for x, _ in log))
    # resuming a finished run evaluates nothing more
    before = len(log)
    if before < total:
        ch.stats.case(cfg["name"], n1, n2, hard)
        return
    ctl = make()
    ok, res = go(CheckpointController(ctl, fname).resume)
    require(ok and len(log) == before and res.value == min(v for _, v in log), "resuming a finished run made {} more evaluations", len(log) - before)
    ch.stats.case(cfg["name"], n1, n2, hard)
    ch.stats.state(cfg["name"], n1, n2, hard)


def jobs(tier):
    out = []
    t = 1 if tier == "thorough" else 0

    def add(name, strat, bound, **kw):
        d = dict(name="resume-" + name, strat=strat, dim=1, W=2, n0=3, max_evals=6, max_conv=0, num_cand=3, max_crash=1)
        d["async"] = "batch" not in kw
        d.update(kw)
        out.append((run, d, bound))

    add("tiny-async", "tiny", 2 + t, n0=2, max_evals=5 if t else 4)
    add("tiny-twice", "tiny", 2 + t, n0=2, max_evals=4, max_crash=2, kill=False, rej=False)
    add("tiny-three", "tiny", 3 if t else 2, n0=2, max_evals=4, max_crash=3, kill=False, rej=False)
    add("tiny-w3", "tiny", 1 + t, W=3, n0=3, max_evals=6, rej=False)
    add("tiny-conv", "tiny", 2 + t, n0=2, max_evals=6 if t else 5, max_conv=2, rej=False)
    add("tiny-norestart", "tiny", 1 + 2 * t, n0=2, max_evals=6, max_conv=1, restarts=False, rej=False)
    add("tiny-extras", "tiny", 1 + 2 * t, n0=2, max_evals=6, extras="kn", rej=False)
    add("tiny-sync", "tiny", 2 + t, n0=2, batch=2, max_evals=6 if t else 5, rej=bool(t))
    add("tiny-sync3", "tiny", 1 + t, n0=3, batch=3, W=3, max_evals=7, rej=False)
    add("tiny-sync-conv", "tiny", 1 + 2 * t, n0=2, batch=2, max_evals=7, max_conv=2, rej=False)
    for st in ("srbf", "dycors", "sop", "ei", "lcb"):
        kw = dict(tol=0.0) if st == "ei" else dict(tol=-1e9) if st == "lcb" else dict(ncenters=3) if st == "sop" else {}
        need = 5 if st in ("srbf", "dycors", "sop") else 4
        add(st + "-async", st, 1 + t, n0=need, max_evals=need + 3, **kw)
        add(st + "-async-2", st, 1 + t, n0=need, max_evals=need + 2, max_crash=2, kill=False, rej=False, **kw)
        add(st + "-sync", st, 1 + t, n0=need, batch=2, max_evals=need + 4, **kw)
    add("srbf-restart", "srbf", 1 + t, n0=3, max_evals=30 if t else 22, value="const", kill=False, rej=False)
    add("srbf-restart-sync", "srbf", 1 + t, n0=3, batch=4, max_evals=35 if t else 25, value="const", kill=False, rej=False, num_cand=6)
    for k, st in enumerate(("tiny", "srbf", "dycors", "sop", "ei", "lcb")):
        for W in (1, 3):
            for batch in (None, 3):
                if not t and k and (W == 1) != (batch is None and k % 2 == 0):
                    continue
                n0 = 4 if st == "tiny" else 5
                c = dict(name="real-%s-%d-%s" % (st, W, batch), strat=st, dim=1, W=W, n0=n0, max_evals=n0 + (5 if t else 4), max_conv=0, num_cand=4, ncenters=4, second=12 if t else 2)
                c["tol"] = -1e9 if st == "lcb" else 0.0
                c["async"] = batch is None
                if c["async"] and W == 3:
                    c["n0"] += 2
                    c["max_evals"] += 1
                if batch:
                    c["batch"] = batch
                if t or W == 1:
                    out.append((real, c, 0))
                if W == 3:
                    out.append((real, dict(c, name=c["name"] + "-fail", fail=4), 0))
    return out
