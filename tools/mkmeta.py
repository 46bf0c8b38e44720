#!/usr/local/bin/python3-vt
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; a property without a check module is listed as not claimed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import NOT_APPLICABLE, PROPS  # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
    elif not os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "the check of this property is not built yet"})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt vlib/build.py worker stroll libworker",
               "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's sources as they are (main renamed, libc/ncurses entry points interposed at link time)",
                         "source_commits": []},
               "checks": checks, "not_applicable": na,
               "notes": "See DESIGN.md. known-findings.txt lists the defects repaired by the fix: commits."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
