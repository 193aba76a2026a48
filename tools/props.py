#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, na=na, state=state or []))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }, ensure_ascii=False) + "\n")

m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
