#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import props
import checks

HOOK_COMMITS = ["2566724"]
NA = getattr(props, "NOT_APPLICABLE", {})

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")

m = dict(version=1,
         setup_cmd="python3 run.py --setup",
         hooks=dict(guard="PARADISEO_VERIF", enable="compiled with -DPARADISEO_VERIF (checks.py)",
                    source_commits=HOOK_COMMITS),
         checks=[], not_applicable=[],
         notes="Every check rebuilds its harness from the working tree of /repo; see DESIGN.md.")
for p in props.P:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i,
                                thorough_cmd="python3 run.py %s thorough" % i,
                                technique=c.get("technique", "explicit-state model checking of the real code: exhaustive bounded enumeration of inputs and random outcomes"),
                                level="model_checking",
                                level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
