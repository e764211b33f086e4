#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from vf/props.py (run from /verif)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.props import PROPS  # noqa: E402

NOT_APPLICABLE = {}
checks, na, lines = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    done = os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py"))
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}},
        ensure_ascii=False))
    if done:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "technique": p["technique"] or "property-based testing: generated inputs against an explicit oracle, shrinking",
            "level": "exploration",
            "level_note": p["note"] + " Sampling: no guarantee beyond what was generated; trusts the oracle in "
                          f"vf/checks/{p['id'].lower()}.py, Python and the kernel."})
    else:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check has been built yet")})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "One driver (./check ID); see DESIGN.md.  Seeds come from VERIF_SEED."}, f, indent=1)
    f.write("\n")
