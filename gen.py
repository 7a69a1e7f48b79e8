#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import P
from checks import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
T = "property-based testing: random structured cases from a choice-sequence generator, explicit oracle, shrinking to a replay file"
NOTE = "sampled inputs; the bounds are those of the property's quantifier text and of the harness rule in the evidence file"
with open(H + "/properties.jsonl", "w") as f:
    for i in sorted(P):
        p = P[i]
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": [], "not_applicable": []}
for i in sorted(P):
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": CHECKS[i].get("technique", T), "level": "exploration", "level_note": CHECKS[i].get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
