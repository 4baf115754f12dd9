#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run by hand, output is committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NOT_APPLICABLE, HOOKS

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            if "observe" in p:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in na or not p.get("test"):
            continue
        checks.append(dict(property=p["id"],
                           quick_cmd="python3 tools/check.py %s quick" % p["id"],
                           thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
                           technique=p["technique"], level=p.get("level", "exploration"),
                           level_note=p["note"]))
    for p in PROPS:
        if not p.get("test") and p["id"] not in na:
            NOT_APPLICABLE.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=NOT_APPLICABLE)
    if HOOKS:
        m["hooks"] = HOOKS
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
