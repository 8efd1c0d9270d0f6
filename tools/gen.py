#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one place to keep them in step)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

PROPS = sorted(PROPS, key=lambda p: (p["id"][0] != "P", p["id"]))

home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(home, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        rec = {k: p[k] for k in ("id", "title", "statement")}
        rec["quantifier"] = {"over": p["over"], "text": p["forall"]}
        rec["why_tests_cant"] = p["why"]
        rec["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
        if p.get("observe"):
            rec["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(rec) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["tech"], "level": p.get("level", "other"), "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import sa.llvmc' && clang --version && opt --version && cmake --version",
           "checks": checks, "not_applicable": na,
           "notes": "All checks analyse LLVM IR compiled from /repo's current tree with the real build's flags; nothing of "
                    "/repo is executed. No hooks in /repo are needed."},
          open(os.path.join(home, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
