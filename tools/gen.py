#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, sys
from pathlib import Path
HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE)); sys.path.insert(0, str(HERE / "tools"))
from props import PROPERTIES, NOT_APPLICABLE
from properties_table import PROPS

with open(HERE / "properties.jsonl", "w") as f:
    for p in PROPERTIES:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPERTIES:
    if p["id"] in NOT_APPLICABLE:
        continue
    assert p["id"] in PROPS, p["id"]
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run_check.py {p['id']} --tier quick",
                       thorough_cmd=f"python3 run_check.py {p['id']} --tier thorough",
                       technique=p["technique"], level="model_checking", level_note=p["level_note"]))
m = dict(version=1, setup_cmd="python3 run_check.py --setup",
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="No hooks: /repo is header only, and every harness in harness/ includes the working tree's headers. Repairs in /repo are 'fix:' commits; see DESIGN.md and known_findings.txt.")
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(PROPERTIES), "properties,", len(checks), "checks")
