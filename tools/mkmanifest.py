#!/usr/bin/env python3
"""writes MANIFEST.json from tools/props.json and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(f"{V}/tools/props.json"))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for p in props:
    if p not in conf or "na" in conf[p]:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check {p} --tier quick",
        "thorough_cmd": f"./check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "contracts woven into the real source, discharged function by function by Verus",
        "level": "proof",
        "level_note": conf[p]["note"],
    })
na = [{"property": p, "reason": conf.get(p, {}).get("na", "no contract for it yet")} for p in props if p not in conf or "na" in conf[p]]
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: contracts live in /verif/specs and are woven into a copy of /repo/src on every run. See DESIGN.md.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not applicable")
