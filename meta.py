#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run by hand after editing)."""
import json, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, observe="", level_note="", thorough=True, hook=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    if hook:
        a["hook_needed"] = hook
    P.append((
        {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
        level_note, thorough))


exec(open("/verif/meta_props.py").read())

NA = []
with open("/verif/properties.jsonl", "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
         "evidence_file": f"/verif/evidence/{p['id']}.json",
         "technique": "property-based testing: generated inputs against an explicit oracle, with shrinking",
         "level": "exploration", "level_note": note}
        for p, note, _ in P],
    "not_applicable": NA,
    "notes": "Known findings and repaired defects: known-findings.txt. Design: DESIGN.md.",
}
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _ in P:
        jsonschema.validate(p, sch)
    print("valid,", len(P), "properties")
except ImportError:
    print("written (not validated)")
