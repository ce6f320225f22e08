#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
BUS = ("TLA+ specification spec/Bus.tla, trace validation with TLC of executions of the real bus under a deterministic scheduler",
       "Every recorded execution (call, return, callback and idle events of generated multi-threaded programs, under sampled schedules) was checked by TLC to be a behaviour of the specification. Sampled programs and schedules, sequentially consistent executions; trusts TLC and the scheduler runtime.")
INFO = {p: BUS for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]}
sys.path.insert(0, os.path.join(V, "lib"))
try:
    from manifest_more import MORE
    INFO.update(MORE)
except ImportError:
    pass
checks = [{"property": p, "quick_cmd": "python3 checks/run.py %s" % p, "thorough_cmd": "env VERIF_TIER=thorough python3 checks/run.py %s" % p, "technique": INFO[p][0], "level": "model_checking", "level_note": INFO[p][1]} for p in props if p in INFO]
m = {"version": 1, "setup_cmd": "python3 checks/run.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in props if p not in INFO],
     "notes": "No hooks in /repo are needed: drivers use the public API only; the scheduler is bound in at compile and link time."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
