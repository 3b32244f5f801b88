#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, the checks the harness implements and the notes below."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
have = set()
for d in ("harness", "hooked"):
    p = f"{here}/{d}/src/main.rs"
    if os.path.exists(p):
        have |= set(re.findall(r'"(C\d\d)" =>', open(p).read()))
notes = json.load(open(f"{here}/tools/manifest_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes["checks"].get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": n.get("technique", "property-based testing against a reference model"),
            "level": "exploration",
            "level_note": n.get("level_note", "Generated cases only; no violation in the cases explored, nothing about others.") ,
        })
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "./build.sh", "hooks": notes["hooks"], "checks": checks, "not_applicable": na, "notes": notes["notes"]}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
