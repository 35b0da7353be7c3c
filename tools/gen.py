#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import props
with open(f"{here}/properties.jsonl", "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in props.P:
    if glob.glob(f"{here}/checks/{p['id']}_*.py"):
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": "runtime monitoring; " + p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Monitors run the real code from /repo via PYTHONPATH; no hooks in /repo are needed. See DESIGN.md."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
import mkdesign
mkdesign.make(here, props.P)
