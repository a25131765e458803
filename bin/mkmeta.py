#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in bin/props.py (one source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real C++ (LLVM IR compiled from /repo's headers), path conditions and assertions decided by Z3, counterexamples replayed natively"
NOTE = "bounded: every value within the bounds stated in the harness (//@bound) and repeated in the evidence file; nothing is claimed outside them"
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"].split(","), "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"].split(), "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("observe", "the public functions of those files").split("; "), "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
harn = {fn.split("_")[0]: fn for fn in os.listdir(f"{ROOT}/harness") if fn.endswith(".cpp")}
checks, na = [], [{"property": k, "reason": v} for k, v in NA.items()]
for p in PROPS:
    i = p["id"]
    if i in NA: continue
    assert i in harn, i + " has no harness"
    checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} --tier quick", "thorough_cmd": f"python3 bin/check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking", "level_note": NOTE + (": " + p["note"] if p.get("note") else "")})
for i in harn: assert i in {p["id"] for p in PROPS}, "harness without property " + i
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Every check recompiles its harness against /repo's current headers, executes the resulting LLVM IR symbolically with engine/ (built by setup_cmd) and validates samples and every counterexample natively."}, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks", len(na), "not applicable")
