#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS, NOT_APPLICABLE
from checks_table import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
        if p["observe"]:
            o["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "clang++-18 --version && python3 -m py_compile run.py checks_table.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "model_checking", "level_note": p["note"].strip()}
                for p in PROPS if p["id"] in CHECKS],
     "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
     "notes": "No hooks in /repo are needed: the checks instantiate the shipped templates. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
missing = [p["id"] for p in PROPS if p["id"] not in CHECKS and p["id"] not in dict(NOT_APPLICABLE)]
print(len(PROPS), "properties;", "unclaimed:", missing)
