"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C15": "Convergence of an iteration from every starting point is a liveness property of floating-point root finding; no contract within reach of a deductive verifier here expresses a variant for Householder, Halley or Laguerre steps, and two solvers advertised as robust do refuse feasible problems now and then (negrete2024, der2011), honestly, with an exception."}
DEFAULT = ("exploration", "run-time contracts on the real code", "Bounded: seeded problems only.")
NOTES = {}
try:
    from mknotes import NOTES
except ImportError:
    pass
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    lv, te, no = NOTES.get(i, DEFAULT)
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": te, "level": lv, "level_note": no})
m = {"version": 1, "setup_cmd": "python3-vt setup_check.py", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
