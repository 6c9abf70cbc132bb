#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from props/*.json and the rule registry"""
import json
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from sa.registry import RULES  # noqa: E402
from sa.props import PROPS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        fh.write(json.dumps(q) + "\n")

checks = []
for p in PROPS:
    r = RULES.get(p["id"])
    if r is None:
        assert p["id"] in NOT_APPLICABLE, p["id"]
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": r.get("technique", "static analysis: gated value analysis (abstract interpretation of the AST)"),
        "level": r["level"],
        "level_note": r["explain"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast\"",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "All checks are static: they parse /repo's current source on every run and never import or execute it.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
