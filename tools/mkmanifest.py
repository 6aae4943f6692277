"""Writes MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}

checks = []
na = []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(V, "vf", "props",
                                       pid.lower() + ".py")):
        na.append({"property": pid, "reason": NA.get(
            pid, "check not built yet")})
        continue
    p = importlib.import_module("vf.props." + pid.lower()).PROP
    checks.append({
        "property": pid,
        "quick_cmd": "bin/check %s quick" % pid,
        "thorough_cmd": "bin/check %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "property-based testing: " + p.technique,
        "level": "exploration",
        "level_note": "Held on everything generated; the search is bounded "
                      "and random. Cases: " + p.rule,
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
