#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (they are committed as generated)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, quick=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
na = {x["property"] for x in NA}
m = {
    "version": 1,
    "setup_cmd": "sh tools/setup.sh",
    "hooks": {"guard": "cfg(jxl_verif)", "enable": "RUSTFLAGS --cfg jxl_verif (set in harness/.cargo/config.toml)",
              "source_commits": ["4361529"]},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"sh tools/check.sh {p['id']} quick",
        "thorough_cmd": f"sh tools/check.sh {p['id']} thorough",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P if p["id"] not in na],
    "not_applicable": NA,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
