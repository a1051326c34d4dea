#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import registry
PY = "/opt/vp/venv/bin/python3"
NA = {
    "P25": "Parsing is a pure single-threaded function of its bytes: there is no scheduling, clock, I/O or fault for the outcome to depend on, so simulation has nothing to decide.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    r = registry.PROPS.get(p["id"])
    if r is None or r.get("unclaimed"):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "%s sim/run.py check %s --tier quick" % (PY, p["id"]),
                   "thorough_cmd": "%s sim/run.py check %s --tier thorough" % (PY, p["id"]),
                   "technique": "deterministic simulation with fault injection: " + r["technique"],
                   "level": "exploration", "level_note": r["note"]})
m = {"version": 1, "setup_cmd": "%s sim/build.py setup" % PY, "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the instrumented build (every memory access and atomic calls the simulator) and interposed "
              "library calls. Replay a reported violation with: %s sim/run.py replay <file>" % PY}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
