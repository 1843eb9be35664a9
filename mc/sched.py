"""Schedule exploration of the strategies: configurations shared by the schedule properties."""
import re

from . import monitors
from .world import World


def run(ch, cfg):
    mons = [monitors.ALL[m]() for m in cfg["mons"]]
    World(ch, cfg, mons).run()


def C(name, strat, bound, **kw):
    d = dict(name=name, strat=strat, bound=bound, dim=1, W=2, n0=3, max_evals=7, max_conv=0)
    d.update(kw)
    if d["async"]:  # documented: the design must suffice for a surrogate although W of its points may be in flight
        need = {"srbf": d["dim"] + 1, "dycors": d["dim"] + 1, "sop": d["dim"] + 1, "ei": 1, "lcb": 1}.get(strat, 0)
        d["n0"] = max(d["n0"], need + d["W"]) if need else d["n0"]
    if strat == "random":
        d["n0"] = 0
    return d


def base_configs():
    """Small user-defined strategy on the base class: deep exploration."""
    out = []
    A, S = {"async": True}, {"async": False}
    out += [
        C("tiny-async", "tiny", 3, n0=2, max_evals=4, **A),
        C("tiny-async-7", "tiny", 2, **A),
        C("tiny-async-w3", "tiny", 2, W=3, max_evals=8, **A),
        C("tiny-async-w1", "tiny", 2, W=1, **A),
        C("tiny-async-dup", "tiny", 2, dup=True, n0=2, W=3, **A),
        C("tiny-async-close", "tiny", 2, n0=2, W=3, extras="-kkkk", close=1e-9, max_evals=7, **A),
        C("tiny-sync-close", "tiny", 2, n0=2, W=3, batch=2, extras="-kkk", close=1e-4, max_evals=7, **S),
        C("tiny-async-conv", "tiny", 2, n0=2, max_evals=7, max_conv=2, **A),
        C("tiny-async-conv3", "tiny", 2, n0=2, W=3, max_evals=9, max_conv=3, **A),
        C("tiny-async-norestart", "tiny", 2, n0=2, max_evals=6, max_conv=1, restarts=False, **A),
        C("tiny-async-extras", "tiny", 2, n0=2, extras="knki", max_evals=7, **A),
        C("tiny-async-extras2", "tiny", 2, n0=2, extras="-kk", max_evals=7, W=3, max_conv=1, **A),
        C("tiny-async-known", "tiny", 2, n0=2, extras="kk", max_evals=6, max_conv=1, **A),
        C("tiny-sync-b1", "tiny", 2, batch=1, W=1, max_conv=1, **S),
        C("tiny-sync-b2", "tiny", 2, batch=2, W=2, **S),
        C("tiny-sync-b2-d3", "tiny", 3, n0=2, batch=2, W=2, max_evals=4, **S),
        C("tiny-sync-b2-w3", "tiny", 2, batch=2, W=3, max_evals=8, max_conv=1, **S),
        C("tiny-sync-b3-w2", "tiny", 2, batch=3, W=2, max_evals=9, **S),
        C("tiny-sync-b4-w4", "tiny", 2, batch=4, W=4, n0=2, max_evals=8, max_conv=1, **S),
        C("tiny-sync-conv", "tiny", 2, batch=2, n0=2, W=2, max_evals=8, max_conv=2, **S),
        C("tiny-sync-norestart", "tiny", 2, batch=2, n0=2, W=2, max_evals=6, max_conv=1, restarts=False, **S),
        C("tiny-sync-extras", "tiny", 2, batch=2, n0=2, W=2, extras="nk", max_evals=7, **S),
        C("tiny-sync-dup", "tiny", 2, batch=3, n0=2, W=3, dup=True, max_evals=8, **S),
        C("tiny-exact-design", "tiny", 2, n0=3, max_evals=3, W=2, **A),
        C("tiny-over-extras", "tiny", 2, n0=3, max_evals=4, extras="nn", W=2, **A),
        C("tiny-async-huge", "tiny", 1, n0=2, extras="kkk", value="huge", max_evals=6, max_conv=1, **A),
        C("tiny-async-b1", "tiny", 1, n0=2, batch=1, W=2, max_evals=6, max_conv=1, **A),  # a batch size means nothing here
        C("tiny-async-b3", "tiny", 1, n0=2, batch=3, W=2, max_evals=6, **A),
        C("tiny-cont2", "tiny", 1, dim=3, ints=[1], n0=4, W=3, max_evals=9, max_conv=1, **A),
    ]
    return out


def real_configs():
    A, S = {"async": True}, {"async": False}
    out = []
    for k in ("srbf", "dycors"):
        out += [
            C(k + "-async", k, 2, **A),
            C(k + "-async-w3", k, 1, dim=2, n0=5, W=3, max_evals=11, **A),
            C(k + "-async-radius", k, 1, W=3, n0=4, max_evals=14, value="const", **A),
            C(k + "-sync-b2", k, 2, batch=2, **S),
            C(k + "-sync-b3", k, 1, dim=2, n0=4, batch=3, W=3, max_evals=13, **S),
            C(k + "-extras", k, 1, extras="kni", goodextra=True, W=2, max_evals=8, **A),
            C(k + "-sync-extras", k, 1, extras="nk", batch=2, W=2, max_evals=8, **S),
            C(k + "-async-b4", k, 1, batch=4, W=2, max_evals=7, **A),
            C(k + "-int", k, 1, dim=2, ints=[0], n0=4, W=2, max_evals=8, **A),
        ]
    out += [
        C("srbf-restart-async", "srbf", 1, n0=3, W=2, max_evals=28, value="const", num_cand=3, **A),
        C("srbf-restart-sync", "srbf", 1, n0=2, W=2, batch=4, max_evals=31, value="const", num_cand=6, **S),
        C("srbf-norestart", "srbf", 1, n0=3, W=2, max_evals=40, value="const", num_cand=3, restarts=False, **A),
        C("dycors-norestart-sync", "dycors", 1, n0=2, W=2, batch=4, max_evals=40, value="const", num_cand=6, restarts=False, **S),
        C("sop-async", "sop", 2, ncenters=3, W=2, n0=4, max_evals=8, **A),
        C("sop-async-tight", "sop", 2, ncenters=2, W=2, n0=3, max_evals=7, **A),
        C("sop-async-w3", "sop", 1, dim=2, ncenters=3, W=3, n0=5, max_evals=12, **A),
        C("sop-async-w4", "sop", 1, dim=2, ncenters=4, W=4, n0=7, max_evals=12, extras="nk", **A),
        C("sop-async-b2", "sop", 1, ncenters=3, batch=2, W=2, n0=4, max_evals=8, **A),
        C("sop-sync-b2", "sop", 2, batch=2, ncenters=2, W=2, n0=4, max_evals=8, **S),
        C("sop-sync-b2n3", "sop", 2, batch=2, ncenters=3, W=2, n0=4, max_evals=8, **S),
        C("sop-sync-b3n4", "sop", 1, dim=2, batch=3, ncenters=4, W=3, n0=5, max_evals=11, **S),
        C("ei-async", "ei", 1, W=2, n0=3, max_evals=6, tol=0.0, **A),
        C("ei-async-conv", "ei", 2, W=2, n0=2, max_evals=7, tol=1e9, **A),
        C("ei-sync-conv", "ei", 2, batch=2, W=2, n0=2, max_evals=7, tol=1e9, **S),
        C("ei-norestart", "ei", 2, W=2, n0=3, max_evals=9, tol=1e9, restarts=False, **A),
        C("ei-sync-norestart", "ei", 2, batch=2, W=2, n0=3, max_evals=9, tol=1e9, restarts=False, **S),
        C("ei-async-b2", "ei", 1, batch=2, W=2, n0=3, max_evals=6, tol=0.0, **A),
        C("lcb-async-b1", "lcb", 1, batch=1, W=2, n0=3, max_evals=6, tol=-1e9, **A),
        C("ei-sync", "ei", 1, batch=2, W=2, n0=3, max_evals=7, tol=0.0, **S),
        C("lcb-async", "lcb", 1, W=2, n0=3, max_evals=6, tol=-1e9, **A),
        C("lcb-async-conv", "lcb", 2, W=3, n0=3, max_evals=7, tol=1e9, **A),
        C("lcb-sync-conv", "lcb", 2, batch=3, W=2, n0=2, max_evals=7, tol=1e9, **S),
        C("lcb-norestart", "lcb", 1, W=2, n0=3, max_evals=9, tol=1e9, restarts=False, **A),
        C("lcb-sync", "lcb", 1, batch=2, W=2, n0=3, max_evals=7, tol=-1e9, **S),
        C("random", "random", 2, W=2, max_evals=5, **A),
        C("random-w3", "random", 2, W=3, max_evals=5, dim=2, ints=[1], **A),
    ]
    return out


def jobs(mons, tier, focus="", only=None):
    """Quick: configurations matching focus at their full bound, the others one below. Thorough: all, one above."""
    out = []
    for c in base_configs() + real_configs():
        if only is not None and not only(c):
            continue
        c = dict(c, mons=list(mons))
        if tier == "thorough":
            b = c["bound"] + 1
        else:
            b = c["bound"] if re.search(focus, c["name"]) else max(1, c["bound"] - 1)
        out.append((run, c, b))
    return out


def feasible_jobs(tier):
    """Every strategy, continuous/integer/mixed problems, every extreme of the random number generator."""
    out = []
    t = 1 if tier == "thorough" else 0
    A, S = {"async": True}, {"async": False}
    probs = [dict(dim=1), dict(dim=1, ints=[0], lb=[-2.0], ub=[5.0]), dict(dim=2, ints=[1], lb=[0.1, -3.0], ub=[0.4, 9.0]),
             dict(dim=2, ints=[0, 1], lb=[-4.0, 0.0], ub=[3.0, 1.0]), dict(dim=3, ints=[2], lb=[1000.0, -1e-3, 0.0], ub=[1001.5, 1e-3, 7.0])]
    for pi, p in enumerate(probs):
        for mode in ("seed", "lo", "hi", "mix"):
            for k in ("srbf", "dycors", "sop", "ei", "lcb", "random"):
                for a in (A, S):
                    if a is S and (k == "random" or mode in ("lo", "hi")):
                        continue
                    kw = dict(p, rng=mode, W=2, n0=2 * p["dim"] + 2, num_cand=8, tol=-1e9 if k == "lcb" else 0.0, **a)
                    if k in ("srbf", "dycors", "sop"):
                        kw["surrogate"] = "rec"
                    if a is S:
                        kw["batch"] = 2
                    if k == "random":
                        kw["n0"] = 0
                    kw["max_evals"] = kw["n0"] + (7 if a is A else 8)
                    if k in ("ei", "lcb"):
                        kw["max_evals"] = kw["n0"] + 3
                    if mode == "seed" and k != "random":
                        kw["design"] = ["slhd", "lhd"][pi % 2]
                    b = 1 if (a is A and mode in ("seed", "mix") and k in ("srbf", "dycors", "sop", "random")) else 0
                    c = C("feas-%s-%d-%s-%s" % (k, pi, mode, "a" if a is A else "s"), k, b, **kw)
                    out.append((run, dict(c, mons=["feasible"]), b + t))
    for pi, p in enumerate(probs[2:]):
        c = C("feas-2f-%d" % pi, "srbf", 1, W=2, n0=2 ** p["dim"], max_evals=2 ** p["dim"] + 4, surrogate="rec", design="2fact", **dict(p, **A))
        c["n0"] = 2 ** p["dim"]
        out.append((run, dict(c, mons=["feasible"]), 1 + t))
    return out
