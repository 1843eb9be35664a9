"""Command line of the checks: run.py <property> [--tier quick|thorough] | run.py --replay FILE"""
import argparse
import importlib
import json
import os
import pickle
import re
import sys
import time

from . import core, env

EVID = os.path.join(core.VERIF, "evidence")
KNOWN = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")


def known_findings(pid):
    """Open findings: 'finding: property=<id> match=<regular expression> :: text' (fixed: lines suppress nothing)."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def write_replay(pid, tier, v):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    mod, fn, cfg, choices, bound, msg = v
    path = os.path.join(d, "%s-%s.json" % (pid, tier))
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=core.SEED, module=mod, function=fn, choices=choices, bound=bound,
                       message=msg, config=cfg if isinstance(cfg, dict) else repr(cfg),
                       pickle=pickle.dumps(cfg).hex()), f, indent=1, default=repr)
    return path


def replay(path):
    env.setup()
    d = json.load(open(path))
    if d["module"] == "mc.ckpt":
        from . import ckpt

        ckpt.preload()
    core.SEED = d["seed"]
    fn = getattr(importlib.import_module(d["module"]), d["function"])
    print("replaying %s: %s.%s" % (d["property"], d["module"], d["function"]))
    print("config: %s\nchoices: %s" % (d["config"], d["choices"]))
    ch, msg = core.run_one(fn, pickle.loads(bytes.fromhex(d["pickle"])), d["choices"], d["bound"], core.Stats())
    print("labels: %s" % [(l, c[1]) for l, c in zip(ch.labels, ch.trace)][-40:])
    print("result: %s" % (msg or "no violation"))
    return 1 if msg else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    from . import checks

    pid = a.property
    t0 = time.time()
    spec = checks.CHECKS[pid]
    if spec.get("preload"):
        from . import ckpt

        ckpt.preload()
    viol = None
    stats = core.Stats()
    try:
        env.setup()
        jobs = spec["jobs"](a.tier)
    except Exception as e:  # the library does not even import
        if os.environ.get("VERIF_DEBUG"):
            raise
        viol = (__name__, "import", {}, [], 0, "cannot be loaded: " + core.describe_exc(e))
    if viol is None:
        stats, viol = core.explore(jobs, known_findings(pid))
    os.makedirs(EVID, exist_ok=True)
    for text in sorted(stats.known):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    cov = dict(evaluations=stats.executions, distinct_nontrivial=len(stats.nontrivial), rule=spec["rule"], samples=stats.samples[:6] or ["none"])
    if spec["level"] == "model_checking":
        cov.update(states=len(stats.states), transitions=stats.transitions, traces_validated_against_impl=stats.executions)
    cov.update({k: v for k, v in stats.counters.items()})
    if viol is None:
        cov["exhaustive"] = True
    ev = dict(property=pid, tier=a.tier, seed=core.SEED, level=spec["level"], coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=spec.get("assumptions", []), violations=0 if viol is None else 1)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print("%s %s: %d executions, %d states, %d transitions, %d distinct cases, %.1f s; %s" % (
        pid, a.tier, stats.executions, len(stats.states), stats.transitions, len(stats.nontrivial), time.time() - t0, stats.counters))
    if viol is not None:
        path = write_replay(pid, a.tier, viol)
        print("  %s" % str(viol[5])[:1500])
        print("  in %s, choices %s" % (str(viol[2])[:600], viol[3]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
