"""Writes MANIFEST.json from bin/props.py, properties.jsonl and NOT_APPLICABLE."""
import json, sys
sys.path.insert(0, "/verif/bin")
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i} quick",
        "thorough_cmd": f"bin/check {i} thorough",
        "technique": p.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on every run; failed obligations replayed by concrete runs of the compiled code"),
        "level": "proof",
        "level_note": p["note"],
        "theorems": p.get("theorems", []),
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed yet: contracts for these functions are still being built")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: private modules are made visible only in the harness's mirror of /repo (bin/check, PUBLISH)."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
