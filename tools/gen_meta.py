#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and gen/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "gen"))
from props import P
from registry import CHECKS
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
        if p["id"] in CHECKS:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"],
                               technique=p["tech"], level="model_checking", level_note=p["note"]))
            assert p["tech"] and p["note"], p["id"]
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "its check is still being built"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the drivers compile /repo's sources as they are. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
