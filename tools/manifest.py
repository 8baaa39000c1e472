#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PY = "/opt/vp/venv/bin/python"
checks, na = [], []
for p in props:
    c = registry.CONF.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": registry.NA.get(p["id"], "the check of this property is not built yet")})
        continue
    checks.append({"property": p["id"],
        "quick_cmd": "%s harness/check.py %s quick" % (PY, p["id"]),
        "thorough_cmd": "%s harness/check.py %s thorough" % (PY, p["id"]),
        "technique": "TLA+ specification of the library's state machine, model-checked with TLC; traces of the real library validated against it by TLC",
        "level": c["level"], "level_note": c.get("note", registry.NOTE)})
m = {"version": 1, "setup_cmd": "%s harness/check.py setup" % PY, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
