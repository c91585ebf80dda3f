#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root]
sys.dont_write_bytecode = True
from props import P
from checks import CHECKS
NA = {}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        if k in CHECKS or k in NA:
            f.write(json.dumps(P[k]) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile run.py checks.py && g++ --version > /dev/null",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "Each check compiles its harnesses (harness/*.cpp) against /repo/include and runs them; no hooks in /repo. "
             "Replay: python3 run.py <id> --replay <file>.",
}
for k in sorted(CHECKS):
    c = CHECKS[k]
    m["checks"].append({
        "property": k,
        "quick_cmd": "python3 run.py %s --tier quick" % k,
        "thorough_cmd": "python3 run.py %s --tier thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for k in P:
        jsonschema.validate(P[k], s)
    print("valid", len(m["checks"]), "checks")
except ImportError:
    print("jsonschema not available (use python3-vt)")
