"""Writes /verif/MANIFEST.json for the checks in harness/registry.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import registry  # noqa: E402

NOTES = registry.NOTES
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, note = NOTES.get(i) or NOTES[i[0]]
        checks.append(dict(property=i, quick_cmd=f"python3-vt harness/check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3-vt harness/check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=tech,
                           level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na,
         notes="Specification in TLA+ (spec/), checked by TLC; see DESIGN.md. "
               "No hooks are needed in /repo.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
