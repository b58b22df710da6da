#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (single source of both)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level="other"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), technique, note, level))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), None, reason, None))
exec(open(os.path.join(here, "props_data.py")).read())
seen = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert p["id"] not in seen; seen.add(p["id"])
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, nas = [], []
for p, tech, note, level in P:
    if tech is None:
        nas.append({"property": p["id"], "reason": note}); continue
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                   "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": checks, "not_applicable": nas,
     "notes": "One analyzer (analyzer/) loads /repo's current source with go/packages, builds SSA and decides every property from it; nothing of /repo is executed. No hooks in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
