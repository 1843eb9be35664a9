"""C29: what the caller hands to the library is left as it was."""
import itertools

import numpy as np

from . import env, probs, sched, surr, world
from .core import SEED, require
from .monitors import Monitor


def snap(o):
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(a) for a in o)
    return repr(o) if isinstance(o, (int, float, str, type(None), np.generic)) else type(o).__name__


def value(o):
    return o.tolist() if isinstance(o, np.ndarray) else o


class Frozen:
    """Remembers objects of the caller and tells which of them changed."""

    def __init__(self, **kw):
        self.kw = {k: v for k, v in kw.items() if v is not None}
        self.was = {k: (snap(v), repr(value(v))) for k, v in self.kw.items()}

    def check(self, what):
        for k, v in self.kw.items():
            require(snap(v) == self.was[k][0], "{} changes the caller's {} from {} to {}", what, k, self.was[k][1], value(v))


class Untouched(Monitor):
    def on_inputs(self):
        w = self.w
        p = w.prob
        self.f = Frozen(lb=p.lb, ub=p.ub, int_var=p.int_var, cont_var=p.cont_var, extra_points=w.extra_points, extra_vals=w.extra_vals, weights=w.given_weights)
        self.recs = []

    def on_start(self):
        self.f.check("the strategy")

    def on_accept(self, ev):
        self.recs.append((ev, ev.rec.params[0]))

    def after_step(self, op=None):
        self.f.check("the strategy")
        for ev, x in self.recs:
            require(ev.rec.params[0] is x and np.array_equal(np.asarray(x, dtype=float), ev.x), "evaluation {} was asked for at {}, now its record says {}", ev.i, ev.x.tolist(), value(ev.rec.params[0]))
            if ev.status == "done":
                require(ev.rec.value == ev.value and ev.rec.is_completed, "evaluation {} returned {}, now its record says {}", ev.i, ev.value, ev.rec.value)
            elif ev.status == "fail":
                require(ev.rec.is_killed or ev.rec.is_cancelled, "evaluation {} failed, now its record says {}", ev.i, ev.rec.status)

    def on_terminate(self):
        self.after_step()


def run(ch, cfg):
    world.World(ch, cfg, [Untouched()]).run()


def form(a, kind):
    """The same numbers in different memory layouts."""
    a = np.array(a, dtype=float)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "view":
        b = np.full(tuple(2 * n for n in a.shape), 77.0)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if kind == "int":
        return np.round(a).astype(int)
    return a


KINDS = ["C", "F", "view", "int"]


def scaling(ch, cfg):
    from pySOT.surrogate import identity, median_capping
    from pySOT.utils import check_radius_rule, from_unit_box, nd_front, nd_sorting, domination, to_unit_box, unit_rescale

    kind = ch.pick(KINDS, "form", free=True)
    d = ch.pick([1, 2, 3], "dim", free=True)
    n = ch.pick([1, 2, 5], "points", free=True)
    lb, ub = form([-1.0, 2.0, 0.0][:d], kind), form([3.0, 5.0, 1.0][:d], kind)
    rs = np.random.RandomState(2)
    X = form(rs.random_sample((n, d)) * 6 - 2, kind)
    v = form(rs.random_sample(n) * 9 - 4, kind)
    col = form(v.reshape(-1, 1), kind)
    unit = form(rs.random_sample((n, d)), kind)
    F = form(rs.randint(0, 4, (2, n)), kind)
    Xc = form(np.hstack((rs.random_sample((3, d)), rs.randint(0, 3, (3, 5)))), "F" if kind == "F" else "C")
    for name, f, args in [
            ("to_unit_box", lambda: to_unit_box(X, lb, ub), dict(x=X, lb=lb, ub=ub)), ("to_unit_box", lambda: to_unit_box(X[0], lb, ub), dict(x=X, lb=lb, ub=ub)),
            ("from_unit_box", lambda: from_unit_box(unit, lb, ub), dict(x=unit, lb=lb, ub=ub)), ("from_unit_box", lambda: from_unit_box(unit[0], lb, ub), dict(x=unit, lb=lb, ub=ub)),
            ("unit_rescale", lambda: unit_rescale(v), dict(x=v)), ("unit_rescale", lambda: unit_rescale(col), dict(x=col)),
            ("median_capping", lambda: median_capping(v), dict(x=v)), ("median_capping", lambda: median_capping(col), dict(x=col)), ("identity", lambda: identity(col), dict(x=col)),
            ("nd_sorting", lambda: nd_sorting(F, 100), dict(F=F)), ("nd_sorting", lambda: nd_sorting(F, 1), dict(F=F)), ("nd_front", lambda: nd_front(F), dict(F=F)),
            ("domination", lambda: domination(F[:, 0], F[:, -1]), dict(F=F)), ("check_radius_rule", lambda: check_radius_rule(unit[0], Xc, 0.2, d, 3, 0.7), dict(X=unit, X_c=Xc))]:
        fr = Frozen(**args)
        a = f()
        fr.check(name)
        b = f()
        fr.check(name)
        require(repr(value(a)) == repr(value(b)), "{} of the same arguments is {} first and {} later", name, value(a), value(b))
        ch.stats.transitions += 1
    ch.stats.case(cfg["name"], kind, d, n)


class Closed:
    """Closed-form predictions."""

    def __init__(self, prob):
        self.lb, self.ub = prob.lb, prob.ub

    def predict(self, xx):
        return np.cos(3 * np.atleast_2d(xx)).sum(axis=1).reshape(-1, 1)

    def predict_std(self, xx):
        return 0.1 + np.abs(np.sin(np.atleast_2d(xx))).sum(axis=1).reshape(-1, 1)


def searches(ch, cfg):
    from pySOT import auxiliary_problems as ap
    from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit

    world.shrink_ga()
    d = ch.pick([1, 2, 3], "dim", free=True)
    ints = ch.pick([[], [0], list(reversed(range(d)))], "ints", free=True)
    kind = ch.pick(KINDS[:3], "form", free=True)
    pend = ch.pick([None, 0, 2], "pending", free=True)
    num = ch.pick([1, 3], "num", free=True)
    sub = ch.pick([None, "list", "array"], "subset", free=True)
    wform = ch.pick(["list", "array"], "weights", free=True)
    prob = world.Prob(dict(dim=d, ints=ints, lb=[-1.0, 0.0, 2.0] if ints else [-0.1, 0.1, 1.3], ub=[9.0, 7.0, 5.0] if ints else [0.3, 0.7, 5.9]))
    rs = np.random.RandomState(4)

    def pts(n):
        X = prob.lb + (prob.ub - prob.lb) * rs.random_sample((n, d))
        X[:, ints] = np.round(X[:, ints])
        return form(X, kind)

    X, fX, Xp = pts(4), form([[3.0], [1.0], [2.0], [5.0]], kind), None if pend is None else pts(pend)
    subset = None if sub is None else (np.array if sub == "array" else list)([i for i in reversed(range(d)) if i != 1 or d == 2])
    w = [0.2, 0.9, 1.0][:num]
    w = np.array(w) if wform == "array" else w
    center = pts(1)[0]
    cand, XX = pts(9), pts(2)
    s = Closed(prob)
    base = dict(opt_prob=prob, surrogate=s, X=X, fX=fX, Xpend=Xp, num_pts=num)
    cnd = dict(base, weights=w, subset=subset, num_cand=11)
    env.reseed(SEED)
    for name, f, args in [
            ("candidate_uniform", lambda: ap.candidate_uniform(**cnd), {}), ("candidate_srbf", lambda: ap.candidate_srbf(**cnd), {}),
            ("candidate_dycors", lambda: ap.candidate_dycors(prob_perturb=0.5, **cnd), {}), ("candidate_dycors", lambda: ap.candidate_dycors(prob_perturb=0.5, xbest=center, **cnd), dict(xbest=center)),
            ("weighted_distance_merit", lambda: weighted_distance_merit(num_pts=num, surrogate=s, X=X, fX=fX, cand=cand, weights=w, Xpend=Xp, dtol=1e-3), dict(cand=cand)),
            ("ei_merit", lambda: ap.ei_merit(X=cand, surrogate=s, fX=fX, XX=XX, dtol=0.5), dict(X=cand, XX=XX)), ("lcb_merit", lambda: ap.lcb_merit(X=cand, surrogate=s, fX=fX, XX=XX, dtol=0.5), dict(X=cand, XX=XX)),
            ("ei_ga", lambda: ap.ei_ga(dtol=0.1, ei_tol=-1.0, **base), {}), ("lcb_ga", lambda: ap.lcb_ga(dtol=0.1, lcb_target=1e9, **base), {})]:
        fr = Frozen(**dict(dict(evaluated_points=X, values=fX, pending_points=Xp, subset=subset, weights=w, center=center, lb=prob.lb, ub=prob.ub, int_var=prob.int_var, cont_var=prob.cont_var), **args))
        r = f()
        fr.check(name)
        if isinstance(r, np.ndarray) and r.ndim == 2:
            r[...] = 5.0  # the result belongs to the caller
            fr.check("the result of " + name)
        ch.stats.transitions += 1
    ch.stats.case(cfg["name"], d, ints, kind, pend, num, sub, wform)


def models(ch, cfg):
    """Arrays handed to a model, and the model's data after the caller has changed them."""
    c = cfg["model"]
    k = ch.pick(KINDS if c["dom"] == "std" else KINDS[:3], "form", free=True)
    fk = ch.pick(["vector", "column"], "values", free=True)
    split = ch.pick([4, 5, 6], "split", free=True)
    d = c["dim"]
    X = surr.points(dict(c, n=6, pts="generic"))
    lb, ub = surr.dom(c)
    if k == "int":  # distinct whole numbers
        X = np.round(X * 3)
    f = surr.values(c, X)
    X, f = form(X, k), form(f if fk == "vector" else f.reshape(-1, 1), "C" if k == "int" else k)
    Q = form(surr.queries(c, X), k)
    low, up = lb.copy(), ub.copy()
    fr = Frozen(points=X, values=f, queries=Q, lb=low, ub=up)
    s = surr.make(c, surr.Spied("inplace") if c["transf"] == "inplace" else surr.transform(c["transf"]), low, up)
    s.add_points(X[:split], f[:split])
    fr.check("adding points")
    s.predict(Q)
    fr.check("predicting")
    s.predict(Q[0])
    if split < 6:
        s.add_points(X[split:], f[split:])
    for g in ("predict", "predict_std", "predict_deriv"):
        if c["model"].startswith("rbf") and g != "predict_std" or c["model"].startswith("gp") and g != "predict_deriv" or g == "predict":
            a = getattr(s, g)(Q)
            fr.check(g)
            r = np.array(getattr(s, g)(Q))
            require(np.allclose(a, r, rtol=1e-12, atol=0), "{} of the same points is {} first and {} later", g, value(np.asarray(a)), value(r))
            getattr(s, g)(Q[1])
            fr.check(g)
    s.reset()
    fr.check("reset")
    ch.stats.case(cfg["name"], k, fk, split)


def generators(ch, cfg):
    """Designs, the genetic algorithm and the built-in problems."""
    from pySOT import experimental_design as ed
    from pySOT.utils import GeneticAlgorithm

    d = ch.pick([1, 2, 3], "dim", free=True)
    kind = ch.pick(KINDS, "form", free=True)
    ints = ch.pick([None, [], [0], list(range(d))], "ints", free=True)
    lb, ub = form([-1.0, 2.0, 0.0][:d], kind), form([7.0, 9.0, 8.0][:d], kind)
    iv = None if ints is None else np.array(ints, dtype=int)
    rs = np.random.RandomState(6)
    pop = lb + (ub - lb) * rs.random_sample((8, d))
    if ints:
        pop[:, ints] = np.round(pop[:, ints])
    pop = form(pop, "C" if kind == "int" else kind)
    env.reseed(SEED)
    off = np.clip(pop + 0.3, lb, ub) if kind != "int" else pop  # not rounded
    off = form(off, "C" if kind == "int" else kind)
    todo = [("a design", lambda g=g: g.generate_points(lb=lb, ub=ub, int_var=iv)) for g in (ed.SymmetricLatinHypercube(dim=d, num_pts=2 * d + 2, iterations=3), ed.LatinHypercube(dim=d, num_pts=d + 3, iterations=3), ed.TwoFactorial(d))]
    for start in ("SLHD", "LHD", "Random", pop, off):
        todo.append(("the genetic algorithm", lambda st=start: GeneticAlgorithm(function=lambda x: np.sum(np.abs(x), axis=1), dim=d, lb=lb, ub=ub, int_var=iv, pop_size=8, num_gen=3, start=st).optimize()))
    fr = Frozen(lb=lb, ub=ub, int_var=iv, initial_population=pop, other_population=off)
    for name, f in todo:
        r = f()
        fr.check(name)
        for a in r if isinstance(r, tuple) else (r,):
            if isinstance(a, np.ndarray) and a.ndim:
                a[...] = 0
        fr.check("the result of " + name)
        ch.stats.transitions += 1
    ch.stats.case(cfg["name"], d, kind, ints)


def evaluations(ch, cfg):
    name = cfg["problem"]
    dims = [probs.F[name][4]] if probs.F[name][4] else [2, 3, 5]
    d = ch.pick(dims, "dim", free=True)
    kind = ch.pick(KINDS[:3], "form", free=True)
    p = probs.make(name, d)
    for u in itertools.product([0.1, 0.5, 0.93], repeat=min(d, 3)):
        x = form(p.lb + (p.ub - p.lb) * np.resize(u, d), kind)
        fr = Frozen(x=x, lb=p.lb, ub=p.ub, int_var=p.int_var, cont_var=p.cont_var)
        a = p.eval(x)
        fr.check(name)
        b = p.eval(x)
        require(float(a) == float(b), "{} of {} is {} first and {} later", name, x.tolist(), a, b)
        ch.stats.transitions += 1
    ch.stats.case(cfg["name"], d, kind)


def jobs(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    for c in sched.base_configs() + sched.real_configs():
        if c["strat"] in ("srbf", "dycors") and "restart" not in c["name"]:
            c = dict(c, weights=[0.3, 0.5, 0.8])
        out.append((run, c, min(c["bound"], 1) + t))
        if c["strat"] not in [d["strat"] for f, d, b in out if d.get("ints") == [2, 0]]:  # index sets in any order
            out.append((run, dict(c, name=c["name"] + "-ints", dim=3, ints=[2, 0], n0=max(c["n0"], 5) if c["strat"] != "random" else 0, max_evals=c["max_evals"] + 3), t))
    out.append((scaling, dict(name="scaling"), 0))
    out.append((searches, dict(name="searches"), 0))
    out.append((generators, dict(name="generators"), 0))
    for m in ("rbf", "rbf-default", "rbf-tps", "rbf-lin", "poly2", "gp", "mars"):
        for d in (1, 2, 3):
            for tr in ("none", "median", "square", "inplace"):
                for dm in ("std", "far"):
                    if not t and (tr != "none") + (dm != "std") > 1:
                        continue
                    c = dict(model=m, dim=d, dom=dm, values="smooth", transf=tr)
                    out.append((models, dict(name="model-%s-%d-%s-%s" % (m, d, tr, dm), model=c), 0))
    for p in probs.F:
        out.append((evaluations, dict(name="eval-" + p, problem=p), 0))
    return out
