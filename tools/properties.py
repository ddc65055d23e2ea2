#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the list below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), crate="main"):
    P.append(
        {
            "json": {
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": list(observe),
                    "hook_needed": None,
                },
            },
            "technique": technique,
            "note": note,
            "crate": crate,
        }
    )


exec(open(os.path.join(ROOT, "tools", "property_list.py")).read())

for p in P:
    j = p["json"]
    assert len(j["title"]) <= 80, j["id"]
    assert j["statement"].count(". ") <= 2, (j["id"], j["statement"].count(". "))
    for f in j["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (j["id"], f)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["json"], ensure_ascii=False) + "\n")

skip = {x["property"] for x in NOT_APPLICABLE}
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["json"]["id"],
            "quick_cmd": f"bash check.sh {p['json']['id']}" + (f" {p['crate']}" if p["crate"] != "main" else ""),
            "thorough_cmd": f"env VERIF_TIER=thorough bash check.sh {p['json']['id']}" + (f" {p['crate']}" if p["crate"] != "main" else ""),
            "evidence_file": f"evidence/{p['json']['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in P
        if p["json"]["id"] not in skip
    ],
    "not_applicable": NOT_APPLICABLE,
    "notes": "Proptest-driven generators with explicit oracles (harness/); see DESIGN.md. No hooks in /repo.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
