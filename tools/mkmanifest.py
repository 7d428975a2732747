#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of implemented checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = "TLA+ specification checked with TLC"
CH = {}
def add(pid, technique, note, level="model_checking"):
    CH[pid] = dict(property=pid, quick_cmd="bin/check " + pid, thorough_cmd="bin/check " + pid,
                   technique=technique, level=level, level_note=note)
exec(open(os.path.join(here, "tools", "checks.py")).read())
NA = {}
na = []
for i in ids:
    if i not in CH:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="true", checks=[CH[i] for i in ids if i in CH], not_applicable=na,
         notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo: everything is observed through public interfaces.")
with open(os.path.join(here, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1); o.write("\n")
print(len(CH), "checks;", [x["property"] for x in na])
