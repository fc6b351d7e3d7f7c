#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.  Run after editing the table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "quantify_scheduler/"
B = Q + "backends/qblox/"


def P(id, title, statement, over, text, why, files, mech, note, obs=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, note=note, obs=obs)


PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        anchors = {"files": p["files"],
                   "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["obs"]:
            anchors["observe_at"] = p["obs"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks, na = [], []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        continue
    if not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "technique": p["note"][0],
        "level": "exploration",
        "level_note": p["note"][1],
        "evidence_file": f"evidence/{p['id']}.json",
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na], "not claimed")
