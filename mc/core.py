"""Bounded exhaustive exploration engine.

An *execution* is a deterministic function run(ch, config) of the choices it asks a Chooser for.  Every choice point
has n alternatives; alternative 0 is the default, the others cost 1 each (or 0: then they are always all explored).
explore() runs every execution whose total cost is within the bound, each exactly once, by replaying prefixes.
"""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = max(1, min(8, os.cpu_count() or 1))
EXEC_TIMEOUT = float(os.environ.get("VERIF_EXEC_TIMEOUT", "40"))


class Violation(Exception):
    """A property does not hold on this execution."""


class Prune(Exception):
    """This execution leaves the explored space (not an error)."""


class ExecTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Chooser:
    def __init__(self, prefix=(), bound=0):
        self.prefix = list(prefix)
        self.bound = bound
        self.trace = []  # (n, chosen, costs)
        self.cost = 0
        self.labels = []

    def choose(self, n, label="", free=False):
        """Pick one of n alternatives. free: all alternatives are explored at no cost."""
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("replay diverged at choice %d (%s): %d of %d" % (i, label, c, n))
        self.trace.append((n, c, free))
        if c and not free:
            self.cost += 1
        self.labels.append(label)
        return c

    def pick(self, items, label="", free=False):
        items = list(items)
        return items[self.choose(len(items), label, free)]

    def children(self, start):
        """Prefixes of the executions that first deviate from this one at a position >= start."""
        out = []
        cost = sum(1 for n, c, f in self.trace[:start] if c and not f)
        base = [c for _, c, _ in self.trace]
        for i in range(start, len(self.trace)):
            n, c, f = self.trace[i]
            extra = 0 if f else 1
            if cost + extra <= self.bound:
                for j in range(c + 1, n):
                    out.append(base[:i] + [j])
            if c and not f:
                cost += 1
        return out


class Stats:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.nontrivial = set()
        self.counters = {}
        self.samples = []
        self.known = set()  # known findings met

    def state(self, *key):
        self.states.add(hash_key(key))

    def case(self, *key):
        self.nontrivial.add(hash_key(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.states |= o.states
        self.nontrivial |= o.nontrivial
        for k, v in o.counters.items():
            self.count(k, v)
        self.known |= o.known
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


def hash_key(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=7).digest(), "big")


def _alarm(signum, frame):
    raise ExecTimeout()


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if "/pySOT/" in f.filename] or list(tb)
    f = loc[-1]
    return "%s: %s (at %s:%s in %s)" % (type(e).__name__, e, os.path.relpath(f.filename, "/"), f.lineno, f.name)


def run_one(fn, config, prefix, bound, stats, timeout=None, retry=True):
    """Run one execution; returns (chooser, None | message)."""
    from . import env

    env.reseed(SEED)
    ch = Chooser(prefix, bound)
    ch.stats = stats
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or EXEC_TIMEOUT)
    msg = None
    try:
        fn(ch, config)
    except Prune:
        stats.count("pruned")
    except Violation as e:
        msg = str(e)
    except ExecTimeout as e:
        if retry:
            signal.setitimer(signal.ITIMER_REAL, 0)
            env.cleanup()
            stats.count("timeouts_retried")
            return run_one(fn, config, prefix, bound, stats, 2 * (timeout or EXEC_TIMEOUT), retry=False)
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if "/pySOT/" in f.filename] or list(tb)
        msg = "no progress for %g s (in %s:%s %s)" % (timeout or EXEC_TIMEOUT, loc[-1].filename, loc[-1].lineno, loc[-1].name)
    except Exception as e:
        msg = "raised " + describe_exc(e)
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        env.cleanup()
    stats.executions += 1
    stats.transitions += max(1, len(ch.trace))
    return ch, msg


def _subtree(task):
    modname, fname, config, prefix, bound, start = task
    fn = getattr(importlib.import_module(modname), fname)
    stats = Stats()
    stack = [(prefix, start)]
    while stack:
        p, s = stack.pop()
        ch, msg = run_one(fn, config, p, bound, stats)
        if len(stats.samples) < 1 and ch.cost:
            stats.samples.append({"config": _short(config), "choices": trim(ch)})
        if msg is not None and not _known(stats, config, msg) and _again(fn, config, p, bound, stats):
            return stats, (modname, fname, config, trim(ch), bound, msg)
        for q in ch.children(s):
            stack.append((q, len(q)))
    return stats, None


def _again(fn, config, prefix, bound, stats):
    """A violation counts if the same choices lead to one again."""
    for _ in range(2):
        if run_one(fn, config, prefix, bound, Stats())[1] is not None:
            return True
    stats.count("not_reproduced")
    return False


_findings = []


def _known(stats, config, msg):
    """Is this one of the listed findings?  Timeouts that do not recur are not failures either."""
    for rx, text in _findings:
        if rx.search("%s: %s" % (config.get("name", "") if isinstance(config, dict) else config, msg)):
            stats.known.add(text)
            return True
    return False


def _short(config):
    return config if isinstance(config, (dict, str, int)) else repr(config)


def trim(ch):
    c = [x[1] for x in ch.trace]
    while c and c[-1] == 0:
        c.pop()
    return c


def explore(jobs, findings=()):
    """jobs: list of (function, config, bound). Runs everything; returns (Stats, violation or None)."""
    total = Stats()
    tasks = []
    _findings[:] = findings
    # Roots first, in parallel: they also give us the first level of each tree
    ex = cf.ProcessPoolExecutor(NPROC, mp_context=mp.get_context("fork"), initializer=_init)
    try:
        roots = [(fn.__module__, fn.__name__, cfg, bound) for fn, cfg, bound in jobs]
        futs = [ex.submit(_root, r) for r in roots]
        total.count("trees", len(roots))
        subs = []
        for (m, f, cfg, bound), fut in zip(roots, futs):
            stats, kids, viol = fut.result()
            total.merge(stats)
            if viol is not None:
                return total, viol
            tasks = [(m, f, cfg, k, bound, len(k)) for k in kids]
            size = 1 if bound > 1 else 8
            subs += [tasks[i:i + size] for i in range(0, len(tasks), size)]
        futs = [ex.submit(_subtrees, t) for t in subs]
        for fut in cf.as_completed(futs):
            stats, viol = fut.result()
            total.merge(stats)
            if viol is not None:
                return total, viol
    except BrokenProcessPool:
        return total, ("mc.core", "died", {}, [], 0, "a worker process running the code died")
    finally:
        for p in list((getattr(ex, "_processes", None) or {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    return total, None


def died(ch, cfg):
    raise Violation("a worker process died (not replayable)")


def _subtrees(tasks):
    total = Stats()
    for t in tasks:
        stats, viol = _subtree(t)
        total.merge(stats)
        if viol is not None:
            return total, viol
    return total, None


def _root(task):
    modname, fname, config, bound = task
    fn = getattr(importlib.import_module(modname), fname)
    stats = Stats()
    ch, msg = run_one(fn, config, [], bound, stats)
    if msg is not None and not _known(stats, config, msg) and _again(fn, config, [], bound, stats):
        return stats, [], (modname, fname, config, trim(ch), bound, msg)
    if len(stats.samples) < 1:
        stats.samples.append({"config": _short(config), "choices": trim(ch), "choice_points": len(ch.trace)})
    # Replays must be deterministic, or prefix replay would not enumerate the space
    st2 = Stats()
    ch2, msg2 = run_one(fn, config, [], bound, st2)
    if [t[:2] for t in ch.trace] != [t[:2] for t in ch2.trace]:
        stats.count("nondeterministic_roots")
    return stats, ch.children(0), None


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import env

    env.setup()
