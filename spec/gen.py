"""Writes properties.jsonl and MANIFEST.json from spec/props.py (run by hand)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "spec"))
from props import NA, PROPS  # noqa: E402

PY = "/opt/veriftools/pyvenv/bin/python"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + [n["prop"] for n in NA]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py")):
        print("no harness yet:", p["id"])
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} check.py {p['id']} --tier quick",
        "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique", "symbolic execution of the real Python code with z3 deciding "
                     "every branch and assertion"),
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs (times, rates, sizes, choices) "
                      "within the stated bounds, floats read as exact reals: " + p["note"]})
na = [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NA]
na += [{"property": p["id"], "reason": "check not built yet"} for p in PROPS
       if p["id"] not in {c["property"] for c in checks}]
m = {"version": 1,
     "setup_cmd": f"{PY} -c \"import z3, sys; sys.path.insert(0, '/repo/src'); "
                  "sys.path.append('/opt/venv/lib/python3.12/site-packages'); import simpy\"",
     "checks": checks, "not_applicable": na,
     "notes": "check.py runs the real upstage_des and simpy code from /repo/src symbolically "
              "(symex/), one harness module per property (harness/). Exit 2 means the check "
              "could not decide. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
