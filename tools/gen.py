#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below, so they cannot drift apart."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, tech=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({
        "p": {"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a},
        "tech": tech or "bounded exhaustive enumeration on the real code against an independent oracle",
        "note": note,
    })

exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks link the crate in /repo as it is (path dependency)", "source_commits": []},
    "checks": [{
        "property": x["p"]["id"],
        "quick_cmd": "bash run.sh " + x["p"]["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + x["p"]["id"],
        "evidence_file": "evidence/" + x["p"]["id"] + ".json",
        "technique": x["tech"],
        "level": "model_checking",
        "level_note": x["note"],
    } for x in P],
    "not_applicable": [],
    "notes": "Every check is its own binary in harness/src/bin (C27: in shared/, on a copy of the library made by shared/prepare.sh); run.sh rebuilds it against /repo's working tree and runs it. No check reads seeded/.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    for l in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
for x in P:
    assert len(x["p"]["title"]) <= 80, x["p"]["title"]
print(len(P), "properties")
