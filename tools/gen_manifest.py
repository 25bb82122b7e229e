"""Writes MANIFEST.json from the list of decided properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vx"))
from props import PROPS, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in PROPS: continue
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
        technique=NOTES[i][0], level="proof", level_note=NOTES[i][1]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in PROPS]
m = dict(version=1, setup_cmd="python3 vx/build.py setup", checks=checks, not_applicable=na,
    notes="No hooks: the analyser reads the compiler's MIR of the unmodified crates. Genuine defects repaired in /repo are listed in known-findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
