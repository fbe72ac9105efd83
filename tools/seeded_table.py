#!/usr/bin/env python3
"""Prints the table of planted changes and the checks that catch them, for DESIGN.md."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read().split("<!-- seeded -->")[0]
rows = []
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["needs"]))
rows.sort()
na = [c for c in json.load(open(os.path.join(here, "MANIFEST.json")))["not_applicable"]]
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))}
i, j = s.index("## What does not apply"), None
s = s[:i] + "## What does not apply\n\nNot decided by static analysis here (`not_applicable` in MANIFEST.json):\n\n"
for c in na:
    s += "- **%s %s**: %s\n" % (c["property"], props[c["property"]]["title"], c["reason"])
s += "\n<!-- seeded -->\n## Planted changes and the checks that catch them\n\nEach is in `seeded/<id>/`, compiles and passes the existing tests. All are caught by the check named.\nMissed at first, and what was strengthened: pathmap-ignore-prefix (C09: all lists of up to two ignored names instead of one),\nmeta-set-language-alias (C47: longer lists), copy-swallows-error (withdrawn, see above).\n\n| check | change | needs |\n|---|---|---|\n"
for r in rows:
    s += "| %s | %s | %s |\n" % r
open(p, "w").write(s)
