"""Writes MANIFEST.json from the registry of checks (run with the venv's python, PYTHONPATH=/verif)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from mc import checks

NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if c is None:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "check under construction")))
        continue
    out["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                              technique=c["technique"] or checks.SCHED_TECH, level=c["level"], level_note=c.get("note") or "see DESIGN.md"))
out["notes"] = "No hooks in /repo: the checks drive the unmodified code from outside. Violations can be replayed with ./check --replay FILE."
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
