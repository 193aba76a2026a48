#!/usr/bin/env python3
"""Composes DESIGN.md from design_head.md, the property table, the planted bugs and design_tail.md."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, state=None, how=None):
    P.append(dict(id=id, title=title, text=text, why=why, files=files, technique=technique, note=note, na=na))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

def evidence(id):
    return json.load(open(os.path.join(ROOT, "evidence", id + ".json")))

out = [open(os.path.join(ROOT, "tools", "design_head.md")).read(), "## The properties\n"]
for p in sorted(P, key=lambda p: p["id"]):
    if p["na"]:
        continue
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Method:* {p['technique']}.\n")
    e = evidence(p["id"])
    out.append(e["coverage"]["explanation"].strip() + "\n")
    out.append(f"*Over:* {p['text']}.\n")
    out.append("*Assumed:* " + "; ".join(e["assumptions"]) + ".\n")
    out.append(f"*Bounds:* {p['note']}\n")
    out.append(f"*Why tests cannot:* {p['why']}\n")
out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read())
out.append("## Planted changes and the checks that catch them\n\n"
           "Each lies in seeded/ with a demonstration and was confirmed (builds, stable tests\n"
           "pass, demonstration fails with it and passes without). The check named is the one\n"
           "of the property it breaks.\n\n| change | caught by | needs |\n|---|---|---|")
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    out.append(f"| {b} | {m['property']} | {m['needs']} |")
out.append("")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
