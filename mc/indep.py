"""C28: objects of the library do not influence each other, except through what the caller shares between them.

Every execution runs in a process forked from one in which no strategy, model or design has ever been used, so that
state left behind in classes, modules or default arguments shows up as a difference from the same operations alone.
"""
import itertools
import os
import pickle
import random
import signal

import numpy as np

from . import env, probs, rng, surr, world
from .core import SEED, Chooser, Prune, Stats, Violation, describe_exc, require
from .world import World


def forked(f):
    """Run f in a forked process; returns what it returns."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = ("ok", f())
            except Exception as e:
                out = ("exc", "raised " + describe_exc(e))
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as h:
                h.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            data = h.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    require(data, "the process running the code died")
    kind, out = pickle.loads(data)
    if kind == "exc":
        raise Violation(out)
    return out


def explored(ch, f):
    """Run f(ch) in a forked process, as if it had run here."""

    def g():
        c = Chooser(ch.prefix, ch.bound)
        c.stats = Stats()
        kind, out = "ok", None
        try:
            out = f(c)
        except Violation as e:
            kind, out = "viol", str(e)
        except Prune:
            kind = "prune"
        except Exception as e:
            kind, out = "viol", "raised " + describe_exc(e)
        return kind, out, c.trace, c.labels, c.cost, c.stats

    kind, out, ch.trace, ch.labels, ch.cost, st = forked(g)
    ch.stats.merge(st)
    if kind == "viol":
        raise Violation(out)
    if kind == "prune":
        raise Prune()
    return out


class Context:
    """Everything about the process that belongs to one of the users."""

    def __init__(self, seed):
        env.reseed(seed)
        world.CUR = None
        world.ga_listeners[:] = []
        self.save()

    def save(self):
        self.np, self.py = np.random.get_state(), random.getstate()
        self.rng = rng.mode, rng.script, rng.calls
        self.cur, self.ga = world.CUR, list(world.ga_listeners)

    def restore(self):
        np.random.set_state(self.np)
        random.setstate(self.py)
        rng.mode, rng.script, rng.calls = self.rng
        world.CUR = self.cur
        world.ga_listeners[:] = self.ga


class Log:
    """What one user sees."""

    def __init__(self):
        self.t = []

    def on_eval_proposal(self, x, origin, ndes):
        self.t.append(("eval", np.array(x, dtype=float)))

    def on_none(self):
        self.t.append(("none",))

    def on_terminate(self):
        self.t.append(("end",))

    def after_step(self, op):
        s = self.w.strategy
        if hasattr(s, "num_evals"):
            self.t.append(("state", np.array(s.num_evals, dtype=float), np.array(s.pending_evals, dtype=float)))

    def finish(self):
        s = self.w.strategy
        for n in ("accepted_count", "rejected_count"):
            if hasattr(s, n):
                self.t.append((n, np.array(getattr(s, n), dtype=float)))
        if hasattr(s, "fevals"):
            self.t.append(("finished",) + tuple(np.append(np.ravel(r.params[0]), r.value if r.is_completed else np.nan) for r in s.fevals))
        for n in ("X", "fX", "Xpend"):
            if getattr(s, n, None) is not None:
                self.t.append((n, np.array(getattr(s, n), dtype=float)))
        self.t.append(("surrogate", np.array(self.w.surrogate.X, dtype=float)))
        return self.t


def same(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    return all(x.shape == y.shape and np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True) for x, y in zip(a[1:], b[1:]))


def agree(got, want, who):
    for i, (g, h) in enumerate(zip(got, want)):
        require(same(g, h), "{}: event {} is {} although it is {} when it is used alone", who, i, show(g), show(h))
    require(len(got) == len(want), "{}: {} events instead of {}", who, len(got), len(want))


def show(e):
    return [e[0]] + [np.asarray(x).tolist() for x in e[1:]]


def full(c):
    d = dict(W=1, n0=4, max_evals=7, max_conv=0, dim=1, kill=False, rej=False, num_cand=5)
    d.update(c)
    if d["strat"] == "random":
        d["n0"] = 0
    return d


class Resumable(World):
    """The strategy may be told once to carry on without the evaluations in flight."""

    resumed = False

    def options(self):
        o = super().options()
        return o + [("Z",)] if self.cfg.get("resume") and not self.resumed and self.done else o

    def apply(self, op):
        if op[0] != "Z":
            return super().apply(op)
        self.resumed = True
        self.seq += 1
        self.strategy.resume()
        for e in self.fly:
            e.status = "lost"
            if e.origin != "adapt":
                self.waiting.append((e.x, e.origin[1]))
        self.fly = []
        self.quiet = self.busy_tried = False


_alone = {}


def alone(cfg, ops, seed):
    key = repr((cfg, ops, seed))
    if key not in _alone:
        def f():
            c = Context(seed)
            c.restore()
            log = Log()
            w = Resumable(Chooser(), cfg, [log])
            for op in ops:
                w.apply(op)
                if not w.ended:
                    w.fire("after_step", op)
            return log.finish()

        _alone[key] = forked(f)
    return _alone[key]


def pair(ch, cfg):
    """Two strategies, used alternately or one after the other."""
    cfgs = [full(cfg["a"]), full(cfg["b"])]
    seeds = [SEED, SEED + (not cfg.get("same_seed"))]

    def f(c):
        shared = make_shared(cfg.get("share"), cfgs[0])
        ctx, ws, logs, ops = [None, None], [None, None], [None, None], [[], []]

        def start(i):
            ctx[i] = Context(seeds[i])
            ctx[i].restore()
            logs[i] = Log()
            ws[i] = Resumable(c, cfgs[i], [logs[i]], shared=shared)
            ctx[i].save()

        if cfg["mode"] != "lazy":
            start(0)
            start(1)
        cur = 0
        n = 0
        while not all(w is not None and w.ended for w in ws):
            n += 1
            require(n < 400, "no end")
            free = [ws[i] is None or not ws[i].ended for i in (0, 1)]
            if not free[cur]:
                cur = 1 - cur
            elif free[1 - cur]:
                k = c.choose(2, "switch")
                if cfg["mode"] == "alternate" and n > 1:
                    k = 1 - k
                cur = 1 - cur if k else cur
            if ws[cur] is None:
                start(cur)
            ctx[cur].restore()
            ops[cur].append(ws[cur].step())
            ctx[cur].save()
        c.stats.case(cfg["name"], tuple(map(tuple, ops[0])), tuple(map(tuple, ops[1])), tuple(x[1] for x in c.trace))
        out = []
        for i in (0, 1):
            ctx[i].restore()
            out.append(logs[i].finish())
        return ops, out

    ops, out = explored(ch, f)
    for i in (0, 1):
        agree(out[i], alone(cfgs[i], ops[i], seeds[i]), "strategy %d (%s)" % (i + 1, cfgs[i]["strat"]))


def make_shared(what, cfg):
    if not what:
        return None
    sh = {}
    if "prob" in what:
        sh["prob"] = world.Prob(cfg)
    if "design" in what:
        sh["design"] = world.RealDesign(cfg, world.Prob(cfg)).real
    if "parts" in what:
        from pySOT.surrogate import CubicKernel, LinearTail

        sh["kernel"], sh["tail"] = CubicKernel(), LinearTail(cfg["dim"])
    return sh


# -- surrogates

MODELS = ["rbf", "rbf-default", "rbf-tps", "rbf-lin", "poly2", "gp", "mars", "gp-opt"]
SEQS = [[("add", 0, 4), ("use",), ("add", 4, 6)], [("add", 0, 5), ("reset",), ("add", 2, 6)], [("use0",), ("add", 0, 4), ("add", 4, 7)]]


def build(cfg, parts=None):
    """One model of the named type; parts: kernel and tail objects to use."""
    from pySOT import surrogate as sg

    if parts is None:
        return surr.make(cfg, surr.transform(cfg.get("transf")))
    lb, ub = surr.dom(cfg)
    return sg.RBFInterpolant(dim=cfg["dim"], lb=lb, ub=ub, output_transformation=surr.transform(cfg.get("transf")), kernel=parts[0], tail=parts[1])


def operate(s, op, cfg):
    X = surr.points(dict(cfg, n=7, pts="generic"))
    f = surr.values(cfg, X)
    if op[0] == "add":
        s.add_points(X[op[1]:op[2]].copy(), f[op[1]:op[2]].copy())
    elif op[0] == "reset":
        s.reset()
    elif op[0] == "use" and s.num_pts > 0:
        return [("use", s.predict(surr.queries(cfg, X)))]
    return []


def final(s, cfg):
    X = surr.points(dict(cfg, n=7, pts="generic"))
    Q = surr.queries(cfg, X)
    out = [("data", np.array(s.X, dtype=float), np.array(s.fX, dtype=float)), ("predict", np.array(s.predict(Q)))]
    if cfg["model"].startswith("rbf"):
        out.append(("deriv", np.array(s.predict_deriv(Q[3:5]))))
    if cfg["model"].startswith("gp"):
        out.append(("std", np.array(s.predict_std(Q))))
    return out


def alone_model(cfg, seq, seed):
    key = repr((cfg, seq, seed, "model"))
    if key not in _alone:
        def f():
            Context(seed).restore()
            s = build(cfg)
            out = []
            for op in seq:
                out += operate(s, op, cfg)
            return out + final(s, cfg) + final(s, cfg)

        _alone[key] = forked(f)
    return _alone[key]


def models(ch, cfg):
    """All interleavings of two operation sequences, one after the other in the same process."""
    cfgs = [cfg["a"], cfg["b"]]
    seqs = [ch.pick(SEQS, "ops", free=True) for _ in (0, 1)]
    lazy = ch.choose(2, "lazy", free=True)
    n = [len(s) for s in seqs]
    orders = [[int(i in c) for i in range(sum(n))] for c in itertools.combinations(range(sum(n)), n[1])][:: cfg.get("stride", 1)]

    def f():
        return [interleave(cfg, cfgs, seqs, lazy, o) for o in orders]

    want = [alone_model(cfgs[i], seqs[i], SEED + i) for i in (0, 1)]
    for order, out in zip(orders, forked(f)):
        ch.stats.case(cfg["name"], order, repr(seqs), lazy)
        ch.stats.count("interleavings")
        for i in (0, 1):
            agree(out[i], want[i], "model %d (%s), operations in the order %s" % (i + 1, cfgs[i]["model"], order))


def interleave(cfg, cfgs, seqs, lazy, order):
    from pySOT import surrogate as sg

    parts = None
    if cfg.get("share"):
        parts = getattr(sg, cfg["share"][0] + "Kernel")(), getattr(sg, cfg["share"][1] + "Tail")(cfgs[0]["dim"])
    ctx, ms, out, pos = [None, None], [None, None], [[], []], [0, 0]

    def start(i):
        ctx[i] = Context(SEED + i)
        ctx[i].restore()
        ms[i] = build(cfgs[i], parts)
        ctx[i].save()

    if not lazy:
        start(0)
        start(1)
    for i in order:
        if ms[i] is None:
            start(i)
        ctx[i].restore()
        out[i] += operate(ms[i], seqs[i][pos[i]], cfgs[i])
        pos[i] += 1
        ctx[i].save()
    for i in (0, 1, 0, 1):
        ctx[i].restore()
        out[i] += final(ms[i], cfgs[i])
        ctx[i].save()
    return out


# -- designs and genetic algorithms: a call gives what a new object would give

FORMS = [None, ([0.0, -5.0, 2.0], [4.0, 5.0, 9.0], [1]), ([0.0, -5.0, 2.0], [6.0, 9.0, 7.0], [1]), ([-1.0, 1.0, 0.0], [4.0, 5.0, 9.0], [1]), ([0.0, -5.0, 2.0], [4.0, 5.0, 9.0], [])]


def new_object(kind, d):
    from pySOT import experimental_design as ed

    return {"slhd": lambda: ed.SymmetricLatinHypercube(dim=d, num_pts=2 * d + 2, iterations=6), "slhd2": lambda: ed.SymmetricLatinHypercube(dim=d, num_pts=2 * d + 5, iterations=3),
            "slhd3": lambda: ed.SymmetricLatinHypercube(dim=d, num_pts=2 * d + 2, iterations=3), "lhd3": lambda: ed.LatinHypercube(dim=d, num_pts=2 * d + 1, iterations=9),
            "lhd": lambda: ed.LatinHypercube(dim=d, num_pts=2 * d + 1, criterion="m", iterations=4), "lhd2": lambda: ed.LatinHypercube(dim=d, num_pts=d + 3, iterations=7),
            "2fact": lambda: ed.TwoFactorial(d), "ga": lambda: Genetic(d, 1), "ga2": lambda: Genetic(d, 2)}[kind]()


class Genetic:
    def __init__(self, d, k):
        from pySOT.utils import GeneticAlgorithm

        self.make = lambda lb, ub, ints: GeneticAlgorithm(function=lambda X: np.sum((X - 0.3 * k) ** 2, axis=1), dim=d, lb=lb, ub=ub, int_var=ints, pop_size=6, num_gen=3)
        self.d, self.gas = d, {}
        world.shrink_ga()

    def generate_points(self, lb=None, ub=None, int_var=None):
        if lb is None:
            lb, ub, int_var = np.zeros(self.d), np.ones(self.d), np.array([])
        key = repr((lb, ub, int_var))
        if key not in self.gas:
            self.gas[key] = self.make(lb, ub, int_var)
        x, f = self.gas[key].optimize()
        return np.append(x, f)


def call(o, d, form, k):
    env.reseed(SEED + k)
    if FORMS[form] is None:
        return o.generate_points()
    lb, ub, ints = FORMS[form]
    return o.generate_points(lb=np.array(lb[:d]), ub=np.array(ub[:d]), int_var=np.array([i for i in ints if i < d], dtype=int))


def generators(ch, cfg):
    """All sequences of calls to a few objects, one after the other in the same process."""
    d = ch.pick(cfg["dims"], "dim", free=True)
    kinds = cfg["kinds"]
    calls = [(o, form) for o in range(len(kinds)) for form in range(len(FORMS))]
    first = ch.pick(calls, "first", free=True)
    hists = [(first,) + h for h in itertools.product(calls, repeat=cfg["len"] - 1)]

    def f():
        outs = []
        for hist in hists:
            objs = [None] * len(kinds)
            out = []
            for k, (o, form) in enumerate(hist):
                if objs[o] is None:
                    objs[o] = new_object(kinds[o], d)
                r = call(objs[o], d, form, k)
                out.append(r.copy())
                r[...] = 0  # the caller may do what it wants with its points
            outs.append(out)
        return outs

    for c in calls:
        for k in range(cfg["len"]):
            key = repr((kinds[c[0]], d, c[1], k, "gen"))
            if key not in _alone:
                _alone[key] = forked(lambda: call(new_object(kinds[c[0]], d), d, c[1], k))
    for hist, out in zip(hists, forked(f)):
        ch.stats.case(cfg["name"], d, hist)
        ch.stats.count("sequences of calls")
        for k, (r, (o, form)) in enumerate(zip(out, hist)):
            want = _alone[repr((kinds[o], d, form, k, "gen"))]
            require(same(("", r), ("", want)), "{} in {} dimensions with bounds {} gives {} after {}, but {} alone", kinds[o], d, FORMS[form], r.tolist(),
                    [(kinds[a], FORMS[b]) for a, b in hist], want.tolist())


# -- built-in problems


def facts(p):
    xs = [p.lb + (p.ub - p.lb) * r for r in (0.11, 0.5, 0.93)]
    return [("problem", p.dim, *(np.array(a, dtype=float) for a in (p.lb, p.ub, p.int_var, p.cont_var, getattr(p, "minimum", 0.0), getattr(p, "min", 0.0))), np.array([float(p.eval(x)) for x in xs]))]


def problems(ch, cfg):
    """Problems of two classes and dimensions; the user of one changes its domain."""
    a, b = cfg["problems"]
    dims = [[probs.F[n][4]] if probs.F[n][4] else [2, 3] for n in (a, b)]
    da, db = ch.pick(dims[0], "dim", free=True), ch.pick(dims[1], "dim", free=True)
    late = ch.choose(2, "late", free=True)

    def f():
        p = probs.make(a, da)
        q = None if late else probs.make(b, db)
        facts(p)
        for x in (p.lb, p.ub, getattr(p, "minimum", None)):  # a user's own domain
            if isinstance(x, np.ndarray) and x.dtype == float and x.flags.writeable:
                x -= 0.25
        p.ub *= 0.5
        p.eval(p.lb.copy())
        if late:
            q = probs.make(b, db)
        return facts(q)

    got, want = forked(f), forked(lambda: facts(probs.make(b, db)))
    ch.stats.case(cfg["name"], da, db, late)
    for g, w in zip(got, want):
        require(g[1] == w[1] and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-12) for x, y in zip(g[2:], w[2:])), "{} in {} dimensions is {} after the domain of a {} was changed, but {} alone", b, db, show(g), a, show(w))


def jobs(tier):
    out = []
    t = tier == "thorough"
    A, S = {"async": True}, {"async": False}
    U = {
        "srbf": dict(strat="srbf", **A), "srbf2": dict(strat="srbf", dim=2, n0=5, batch=2, W=2, max_evals=9, weights=[0.9, 0.1], **S),
        "srbf-conv": dict(strat="srbf", value="const", n0=3, W=1, max_evals=28, num_cand=3, surrogate="rec", **A),
        "dycors": dict(strat="dycors", dim=2, n0=5, W=2, **A), "dycors2": dict(strat="dycors", dim=3, n0=6, batch=2, W=2, max_evals=10, ints=[1], **S),
        "sop": dict(strat="sop", n0=5, W=2, ncenters=2, max_evals=9, **A), "sop2": dict(strat="sop", dim=2, n0=5, W=3, batch=3, ncenters=3, max_evals=11, **S),
        "ei": dict(strat="ei", n0=4, max_evals=6, W=2, tol=0.0, **A), "ei2": dict(strat="ei", n0=3, max_evals=8, batch=2, W=2, tol=1e9, **S), "ei3": dict(strat="ei", dim=2, n0=4, max_evals=6, **A),
        "lcb": dict(strat="lcb", n0=4, max_evals=6, W=2, tol=-1e9, kappa=1.0, **A), "lcb2": dict(strat="lcb", n0=3, max_evals=8, batch=2, W=2, tol=1e9, **S), "lcb3": dict(strat="lcb", dim=2, n0=4, max_evals=6, **A),
        "random": dict(strat="random", max_evals=4, W=2, **A), "random2": dict(strat="random", dim=2, ints=[1], max_evals=3, W=1, **A),
        "extras": dict(strat="srbf", extras="kni", W=2, n0=3, max_evals=8, **A), "extras2": dict(strat="dycors", extras="nk", batch=2, W=2, max_evals=8, **S),
        "killed": dict(strat="srbf", W=2, kill=True, rej=True, **A),
    }
    P = [("srbf", "srbf2"), ("srbf-conv", "srbf"), ("dycors", "dycors2"), ("srbf2", "dycors"), ("sop", "sop2"), ("sop2", "dycors2"), ("ei", "ei2"), ("ei3", "lcb3"), ("ei3", "ei"), ("lcb", "lcb2"), ("lcb3", "lcb"),
         ("lcb2", "sop"), ("random", "random2"), ("random", "srbf"), ("extras", "extras2"), ("extras", "sop"), ("killed", "killed")]
    for a, b in P:
        for mode in ("lazy", "both", "alternate") if t else ("lazy", "alternate"):
            for x, y in ((a, b), (b, a)) if (mode == "lazy" or t) and a != b else ((a, b),):
                out.append((pair, dict(name="pair-%s-%s-%s" % (x, y, mode), a=U[x], b=U[y], mode=mode), 1 + (t and mode != "lazy")))
    # runs that differ in one respect, with the same random numbers
    B = dict(dim=2, n0=5, W=2, max_evals=9, num_cand=25, async_=True)
    one = {"same": {}, "box": dict(lb=[-3.0, 0.5, 1.0], ub=[3.0, 8.0, 2.0]), "ub": dict(ub=[7.0, 4.0, 6.0]), "evals": dict(max_evals=16), "n0": dict(n0=6), "cand": dict(num_cand=40), "int": dict(ints=[1]), "dim": dict(dim=1),
           "dim3": dict(dim=3), "value": dict(value="neg"), "huge": dict(value="huge"), "batch": dict(batch=2, async_=False), "extras": dict(extras="kn"), "restarts": dict(restarts=False), "surrogate": dict(surrogate="rec")}
    own = {"srbf": {"weights": dict(weights=[0.9, 0.1])}, "dycors": {"weights": dict(weights=[0.9, 0.1])}, "sop": {"centers": dict(ncenters=3)}, "ei": {"tol": dict(tol=0.0), "give-up": dict(tol=1e9), "dtol": dict(dtol=0.5)},
           "lcb": {"kappa": dict(kappa=0.5), "tol": dict(tol=-1e9), "give-up": dict(tol=1e9), "dtol": dict(dtol=0.5)}, "random": {}}
    for s in own:
        for name, diff in list(one.items()) + list(own[s].items()):
            if s == "random" and set(diff) & {"n0", "num_cand", "batch", "extras", "restarts", "surrogate"} or s in ("ei", "lcb") and set(diff) & {"surrogate", "num_cand"}:
                continue
            x, y = (dict(c, strat=s, **{"async": c["async_"]}) for c in (B, dict(B, **diff)))
            if name == "same":
                out.append((pair, dict(name="resume-%s" % s, a=dict(x, resume=s != "random"), b=y, mode="alternate", same_seed=True), 1))
            for mode in ("lazy", "alternate"):
                for a, b in ((x, y), (y, x)) if mode == "lazy" else ((x, y),):
                    out.append((pair, dict(name="one-%s-%s-%s-%d" % (s, name, mode, a is y), a=a, b=b, mode=mode, same_seed=True), int(t)))
    L = dict(strat="srbf", dim=1, n0=3, batch=2, W=2, num_cand=3, surrogate="rec", **S)
    for s in ("srbf", "dycors"):
        for v, n in (("sphere", 30), ("rise", 21), ("neg", 30)):
            out.append((pair, dict(name="long-%s-%s" % (s, v), a=dict(L, strat=s, value="rise", max_evals=26), b=dict(L, strat=s, value=v, max_evals=n), mode="alternate"), 0))
    for v in ("rise", "sphere"):
        x = dict(L, strat="sop", value=v, max_evals=34, n0=4, ncenters=2)
        out.append((pair, dict(name="long-sop-%s" % v, a=x, b=dict(x, value="sphere"), mode="alternate"), 0))
        x = dict(x, W=1, **A)
        out.append((pair, dict(name="long-sop-async-%s" % v, a=x, b=dict(x, value="sphere"), mode="alternate"), 0))
    for k in ("ei", "lcb", "srbf", "dycors"):  # restarts
        x = dict(strat=k, n0=3, max_evals=12, value="const", W=1, **A) if k[0] in "el" else dict(L, strat=k, value="const", max_evals=26)
        if k[0] in "el":
            x["tol"] = 1e9
        out.append((pair, dict(name="restarts-%s" % k, a=x, b=dict(x, value="sphere"), mode="alternate"), 0))
    sh = dict(dim=2, n0=7, surrogate="rbf", design="slhd", lb=[-1.0, 0.0], ub=[2.0, 3.0], max_evals=10)
    for share in (["prob"], ["design"], ["parts"], ["prob", "design", "parts"]):
        for a, b in (("srbf", "srbf"), ("dycors", "sop"), ("extras", "srbf-conv")):
            for mode in ("lazy", "alternate") if t or len(share) > 1 else ("alternate",):
                x, y = dict(U[a], **sh), dict(U[b], **sh)
                if b == "srbf-conv":
                    y.update(max_evals=24, value="sphere")
                out.append((pair, dict(name="share-%s-%s-%s-%s" % ("+".join(share), a, b, mode), a=x, b=y, mode=mode, share=share), 1 + (t and mode != "lazy")))
    M = lambda k, **kw: dict(dict(model=k, dim=2, dom="std", values="smooth", transf="none"), **kw)
    slow = {} if t else dict(stride=6)
    for i, k in enumerate(MODELS):
        if k == "gp-opt" and not t:
            out.append((models, dict(name="models-gp-opt", a=M(k), b=M(k, dim=1, transf="median"), **slow), 0))
            out.append((models, dict(name="models-gp-opt-same", a=M(k), b=M(k, values="lin"), **slow), 0))
            continue
        out.append((models, dict(name="models-%s" % k, a=M(k), b=M(k, dim=1 if k != "rbf-lin" else 3, dom="far", transf="median")), 0))
        out.append((models, dict(name="models-%s-same" % k, a=M(k), b=M(k, values="lin")), 0))
        out.append((models, dict(name="models-%s-%s" % (k, MODELS[i - 1]), a=M(k), b=M(MODELS[i - 1], transf="square"), **(slow if MODELS[i - 1] == "gp-opt" else {})), 0))
    for k, parts in (("rbf", ("Cubic", "Linear")), ("rbf-tps", ("TPS", "Linear")), ("rbf-lin", ("Linear", "Constant"))):
        out.append((models, dict(name="models-parts-%s" % k, a=M(k), b=M(k, values="lin", dom="far"), share=parts), 0))
    for kinds in (["slhd", "slhd2", "lhd"], ["lhd", "lhd2", "2fact"], ["ga", "ga2", "slhd"], ["slhd", "slhd3", "slhd2"], ["lhd", "lhd3", "lhd2"]):
        out.append((generators, dict(name="gen-" + "-".join(kinds), kinds=kinds, dims=[1, 2, 3] if "2fact" not in kinds or t else [2], len=3 if t else 2), 0))
    names = list(probs.F)
    for i, n in enumerate(names):
        for m in names if t else (n, names[i - 1]):
            out.append((problems, dict(name="problem-%s-%s" % (n, m), problems=[n, m]), 0))
    if t:
        for k in MODELS:
            for diff in (dict(transf="median"), dict(dom="far"), dict(dim=3)):
                out.append((models, dict(name="models-one-%s-%s" % (k, list(diff)[0]), a=M(k), b=M(k, **diff)), 0))
    return out
