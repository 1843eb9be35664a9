"""C24: the strategies under POAP's real serial, simulated and threaded controllers.

The threaded controller runs with its real threads, one at a time: every queue operation (and the start and end of every
evaluation) is a scheduling point at which the Chooser decides which thread goes on.
"""
import collections
import sys
import threading

import numpy as np

from . import env
from .core import Chooser, Violation, require
from .world import World


class Abort(BaseException):
    pass


class Sched:
    """Hands the baton to one thread at a time."""

    def __init__(self, ch, maxsteps):
        self.ch = ch
        self.order = []
        self.sem, self.pred, self.ready = {}, {}, {}
        self.free = False
        self.aborted = False
        self.error = None
        self.steps, self.maxsteps = 0, maxsteps
        self.add(threading.current_thread())
        self.main = self.order[0]
        self.cur = self.main
        self.switches = 0

    def add(self, t, pred=None):
        self.order.append(t)
        self.sem[t] = threading.Semaphore(0)
        self.pred[t] = pred
        self.ready[t] = len(self.order) == 1

    def pick(self, me, turn):
        on = [t for t in self.order if self.pred[t] is None or self.pred[t]()]
        if not on:
            raise Violation("deadlock: no thread can go on (%s)" % ", ".join("main" if t is self.main else "worker" for t in self.order))
        i = self.order.index(me)
        rest = [t for t in self.order[i + 1 :] + self.order[:i] if t in on]
        if turn:
            on = rest + ([me] if me in on else [])
        else:
            on = ([me] if me in on else []) + rest
        return on[self.ch.choose(len(on), "thread")] if len(on) > 1 else on[0]

    def point(self, pred=None, turn=False):
        """Called by the running thread: it can go on once pred holds; turn: it would rather let others go first."""
        me = threading.current_thread()
        if self.free:
            return
        if not self.ready[me]:  # first arrival of a new thread
            self.ready[me] = True
            self.sem[me].acquire()
            self.check()
            return
        self.pred[me] = pred
        try:
            self.steps += 1
            require(self.steps < self.maxsteps, "the run does not end: {} scheduling points", self.steps)
            nxt = self.pick(me, turn)
        except BaseException as e:
            self.error = e
            nxt = self.main
        if nxt is not me:
            self.switches += 1
            self.cur = nxt
            self.sem[nxt].release()
            self.sem[me].acquire()
        self.pred[me] = None
        self.check()

    def check(self):
        if self.aborted:
            raise Abort()
        if self.error is not None and threading.current_thread() is self.main:
            e, self.error = self.error, None
            raise e

    def release_all(self, abort=False):
        """From now on threads run freely (abort: and end)."""
        self.free = True
        self.aborted = self.aborted or abort
        for t in self.order:
            if t is not self.main:
                self.sem[t].release()


class Q:
    """A queue whose operations are scheduling points."""

    def __init__(self, sched, empty):
        self.s, self.items, self.cv, self.Empty = sched, collections.deque(), threading.Condition(), empty

    def put(self, x, *a, **k):
        with self.cv:
            self.items.append(x)
            self.cv.notify()
        self.s.point()

    def get(self, *a, **k):
        while not self.items and not self.s.free:
            self.s.point(lambda: len(self.items) > 0)
            if threading.current_thread() is not self.s.main and self.s.aborted:
                raise Abort()
        with self.cv:
            while not self.items:
                if self.s.aborted:
                    raise Abort()
                self.cv.wait(0.05)
            return self.items.popleft()

    def get_nowait(self):
        with self.cv:
            if not self.items:
                raise self.Empty()
            return self.items.popleft()

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)


class Run:
    """Log of what really happened."""

    def __init__(self, ch, cfg):
        self.ch, self.cfg = ch, cfg
        self.w = World(Chooser([], 0), dict(cfg))
        self.s = self.w.strategy
        self.log = []  # (x, value or None), in order of their ends
        self.running = []
        self.peak = 0
        self.nstart = 0
        self.late = 0
        self.nfail = 0
        self.committed = 0
        gen = getattr(self.s, "generate_evals", None)
        if gen is not None and not cfg["async"]:
            def generate(*a, **k):
                require(not self.running, "a new batch is generated while {} evaluations are running", len(self.running))
                return gen(*a, **k)

            self.s.generate_evals = generate

    def watch(self, ctl):
        """Failures that the controller learns of once the whole budget was committed may leave the run short."""

        def update(rec):
            if rec.is_done and not rec.is_completed:
                self.late += self.committed >= self.cfg["max_evals"]

        def new(rec):
            rec.add_callback(update)
            self.committed = max(self.committed, sum(not r.is_done or r.is_completed for r in ctl.fevals))

        ctl.add_feval_callback(new)
        ctl.strategy = self.s
        return ctl

    def start(self, x):
        x = tuple(np.ravel(np.array(x, dtype=float)))
        i = self.nstart
        self.nstart += 1
        self.running.append((i, x))
        self.peak = max(self.peak, len(self.running))
        require(len(self.running) <= self.cfg["W"], "{} evaluations run at once with {} workers", len(self.running), self.cfg["W"])
        return i, x

    def end(self, i, x):
        """Outcome of an evaluation; raises if it fails."""
        self.running.remove((i, x))
        if self.nfail < self.cfg.get("maxfail", 3) and self.ch.choose(2, "fail"):
            self.nfail += 1
            self.log.append((x, None))
            raise ValueError("evaluation failed")
        v = self.w.prob.eval(np.array(x))
        if self.cfg.get("flip"):
            v = -v
        self.log.append((x, v))
        return v

    def judge(self, ctl, res):
        total = self.cfg["max_evals"]
        done = [(x, v) for x, v in self.log if v is not None]
        require(not self.running, "the run ended while {} evaluations were running", len(self.running))
        recs = ctl.fevals
        require(all(r.is_done for r in recs), "the run ended with unfinished evaluation records")
        got = [(tuple(np.ravel(r.params[0])), r.value) for r in recs if r.is_completed]
        require(sorted(got) == sorted(done), "the controller knows {} completed evaluations, but these were made: {}", sorted(got), sorted(done))
        bad = sorted(tuple(np.ravel(r.params[0])) for r in recs if not r.is_completed)
        require(bad == sorted(x for x, v in self.log if v is None), "the failed evaluations known to the controller differ from those that failed")
        require(total - self.late <= len(done) <= total, "{} evaluations completed instead of {} ({} failed after the budget was committed)", len(done), total, self.late)
        s = self.s
        if self.cfg["strat"] != "random":
            mine = list(s.fevals)
            require(len(mine) == len(recs) and {id(r) for r in mine} == {id(r) for r in recs}, "strategy and controller disagree about the evaluations: {} and {} records", len(mine), len(recs))
            hist = sorted((tuple(x), float(f)) for x, f in zip(s.X, np.ravel(s.fX)))
            require(hist == sorted(done), "the strategy's history {} differs from the evaluations made {}", hist, sorted(done))
            require(s.num_evals == len(done) and s.pending_evals == 0 and len(s.Xpend) == 0, "the strategy counts {} completed and {} pending evaluations instead of {} and 0", s.num_evals, s.pending_evals, len(done))
        best = min(v for _, v in done)
        require(res is not None and any(res is r for r in recs) and res.is_completed, "the run does not return one of its completed evaluations: {}", res)
        require(res.value == best and (tuple(np.ravel(res.params[0])), best) in done, "the run returned {} instead of the best value {}", res.value, best)
        self.ch.stats.case(self.cfg["name"], tuple(x for x, _ in self.log), tuple(v is None for _, v in self.log), self.peak)
        self.ch.stats.count("evaluations", len(self.log))


def serial(ch, cfg):
    from poap.controller import SerialController

    r = Run(ch, cfg)

    def objective(x):
        i, p = r.start(x)
        ch.stats.state(cfg["name"], tuple(a for a, _ in r.log), p)
        return r.end(i, p)

    ctl = r.watch(SerialController(objective))
    r.judge(ctl, ctl.run(reraise=False))


def sim(ch, cfg):
    """Simulated time: the evaluations' durations are enumerated."""
    from poap.controller import SimTeamController

    r = Run(ch, cfg)
    pattern = ch.pick(["equal", "up", "down", "zigzag"], "durations", free=True)
    ends = {}
    errors = []

    def objective(x):  # called at the end of the evaluation
        x = tuple(np.ravel(np.array(x, dtype=float)))
        i = next(i for i, p in r.running if p == x)
        ch.stats.state(cfg["name"], tuple(a for a, _ in r.log), tuple(r.running))
        return r.end(i, x)

    def delay(rec):
        try:
            i, _ = r.start(rec.params[0])
        except Violation as e:
            errors.append(e)
            raise
        n = r.nstart
        d = {"equal": 1.0, "up": 1.0 + 0.17 * n, "down": 10.0 / n, "zigzag": 1.0 + (n * 7 % 5) * 0.3}[pattern]
        return ch.pick([d, 0.2 * d, 3.7 * d], "duration")

    ctl = r.watch(SimTeamController(objective, delay, cfg["W"]))
    try:
        res = ctl.run()
    except AssertionError as e:
        if "Deadlock" in str(e):
            raise Violation("deadlock: nothing is proposed although nothing is running")
        raise
    if errors:
        raise errors[0]
    r.judge(ctl, res)


def threads(ch, cfg):
    import poap.controller as pc

    r = Run(ch, cfg)
    s = Sched(ch, 4000)
    errors = []

    def objective(x):
        try:
            i, p = r.start(x)
            s.point()
        except Violation as e:
            errors.append(e)
            raise
        ch.stats.state(cfg["name"], tuple(a for a, _ in r.log), tuple(r.running))
        return r.end(i, p)

    class Time:
        def __getattr__(self, n):
            return getattr(real, n)

        @staticmethod
        def sleep(t):
            if threading.current_thread() is s.main and not s.free:
                s.point(turn=True)
            else:
                real.sleep(t)

    real = pc.time
    pc.time = Time()
    empty = pc.Queue.Empty
    workers = []
    hook = threading.excepthook
    threading.excepthook = lambda a: None
    try:
        ctl = r.watch(pc.ThreadController())
        ctl.workers, ctl.messages = Q(s, empty), Q(s, empty)
        ctl.add_term_callback(lambda: s.release_all())
        for _ in range(cfg["W"]):
            t = pc.BasicWorkerThread(ctl, objective)
            t.queue = Q(s, empty)
            t.daemon = True
            workers.append(t)
            s.add(t, lambda q=t.queue: len(q.items) > 0)
        for t in workers:
            ctl.launch_worker(t, daemon=True)
        res = ctl.run()
        s.release_all()
    finally:
        s.release_all(abort=True)
        for t in workers:
            t.queue.put(("terminate",))
        for t in workers:
            if t.ident is not None:
                t.join(2.0)
        pc.time = real
        threading.excepthook = hook
    if errors:
        raise errors[0]
    ch.stats.count("context switches", s.switches)
    r.judge(ctl, res)


def jobs(tier):
    out = []
    t = 1 if tier == "thorough" else 0

    def add(fn, name, strat, bound, W, batch=None, **kw):
        need = {"tiny": 2, "random": 0, "ei": 3, "lcb": 3}.get(strat, 4)
        d = dict(name="%s-%s-%d-%s" % (name, strat, W, "async" if batch is None else "sync%d" % batch), strat=strat, dim=1, W=W, n0=need + (W if batch is None else 0), max_conv=0, num_cand=4, ncenters=4)
        d["async"] = batch is None
        if batch:
            d["batch"] = batch
        d["max_evals"] = d["n0"] + (3 if W < 3 else 4) + (batch or 0) if strat != "random" else 5
        d["tol"] = -1e9 if strat == "lcb" else 0.0
        d.update(kw)
        d["name"] += kw.get("tag", "")
        out.append((fn, d, bound))

    strats = ("tiny", "srbf", "dycors", "sop", "ei", "lcb", "random")
    for k, st in enumerate(strats):
        deep = st in ("tiny", "random")
        add(serial, "serial", st, 2 + t, 1)
        if st != "random":
            add(serial, "serial", st, 2 + t, 1, 1)
            add(serial, "serial", st, 1 + t, 1, 3, flip=True, tag="-flip")
        for W in (2, 3):
            add(sim, "sim", st, 1 + t + deep * t, W)
            add(threads, "threads", st, 1 + t + deep * (W == 2), W)
            if st != "random":
                add(sim, "sim", st, 1 + t, W, 2)
                add(threads, "threads", st, 1 + t, W, 2 if k % 2 else 3)
                if W == 2:
                    add(sim, "sim", st, 1 + t, W, 4, flip=True, tag="-flip")
    add(threads, "threads", "tiny", 2 + t, 1)
    add(threads, "threads", "tiny", 2, 2, 2, max_evals=6, tag="-deep")
    add(threads, "threads", "srbf", 1 + t, 2, None, max_evals=24, value="const", tag="-restart")
    add(threads, "threads", "srbf", 1 + t, 2, 2, max_evals=24, value="const", tag="-restart")
    add(sim, "sim", "srbf", 1 + t, 3, None, max_evals=30, value="const", tag="-restart")
    add(sim, "sim", "dycors", 1 + t, 2, 3, max_evals=30, value="const", tag="-restart")
    add(sim, "sim", "tiny", 2 + t, 2, None, extras="nk", tag="-extras", max_evals=6) if 0 else None
    return out
