#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.config import CHECKS

props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "no check yet"})
        continue
    conf = CHECKS[i]
    tech = "property-based testing: generated cases against an explicit oracle, shrunk failures as replay files"
    if conf.get("fuzz"):
        tech += "; coverage-guided fuzzing (libFuzzer) of the same properties in the thorough tier"
    note = conf.get("note") or "Random exploration within the bounds stated in the evidence: " + "; ".join(conf.get("assumptions", []))[:900]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i} --tier quick",
        "thorough_cmd": f"python3 run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "g++ --version && python3 --version && python3 -m py_compile run.py checks/config.py",
     "checks": checks, "not_applicable": na}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
