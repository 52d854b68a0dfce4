"""Writes DESIGN.md from its hand-written parts, the property list, the repairs and the planted bugs."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from notes import NOTES
from designnotes import DETAIL
out = open(HERE + "/design_head.md").read()
for line in open(ROOT + "/properties.jsonl"):
    p = json.loads(line)
    how, bounds = NOTES[p["id"]]
    out += "\n### %s %s\n" % (p["id"], p["title"])
    out += "*Specified and bound by:* %s.\n*Bounds:* %s.\n" % (how.replace("TLA+ (TLC): ", ""), bounds)
    if p["id"] in DETAIL:
        out += "*Notes:* %s\n" % DETAIL[p["id"]]
out += open(HERE + "/design_tail.md").read()
for f in json.load(open(ROOT + "/known-findings.json"))["fixed"]:
    w = f.split(" ", 3)
    out += "- %s %s: %s\n" % (w[1].split("=")[1], w[2], w[3])
out += """
## Planted bugs

Each was written from the statement and the code, breaks its property while all stable tests pass, and is
caught by the quick check of its property (`tools/plant.py test`). Those marked * were missed at first and
led to the strengthening named under the property.

| bug | property | needs | breaks |
|---|---|---|---|
"""
S = {}
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, d)))
    S[d] = m
MISSED = set(open(HERE + "/missed.txt").read().split())
for d, m in S.items():
    out += "| %s%s | %s | %s | %s |\n" % (d, "*" if d in MISSED else "", m["property"], m["needs"], m["what_it_breaks"])
out += open(HERE + "/design_end.md").read()
open(ROOT + "/DESIGN.md", "w").write(out)
