#!/usr/bin/env python3
"""DESIGN.md = tools/design.tmpl with the table of planted bugs (run by hand; output is committed)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "semisync-after-scale-out": "missed at first: C07's final check added",
    "promote-interrupted": "missed at first: discarded-relay oracle and writes around the promotion added to C13",
    "binlog-name-after-dump": "missed at first: binlog rotation during the dump added to B01",
}
extra = os.path.join(ROOT, "tools", "missed.json")
if os.path.exists(extra):
    MISSED.update(json.load(open(extra)))
rows = ["| planted bug | caught by | needs | note |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(ROOT, "seeded*", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], MISSED.get(i, "")))
t = open(os.path.join(ROOT, "tools", "design.tmpl")).read()
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t.replace("@@TABLE@@", "\n".join(rows)))
