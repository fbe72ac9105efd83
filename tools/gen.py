#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    P[-1]["_t"] = technique
    P[-1]["_n"] = note
    if na:
        NA[id] = na

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="./run.sh --build", checks=[], not_applicable=[])
for p in P:
    if p["id"] in NA:
        m["not_applicable"].append(dict(property=p["id"], reason=NA[p["id"]]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="./run.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh " + p["id"],
                                technique=p["_t"], level="other", level_note=p["_n"]))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
