#!/usr/bin/env python3
"""Writes the list of repairs in known_findings.json and DESIGN.md (needs the history of /repo)."""
import glob
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import checks
import decisions
import fixed
import props

log = subprocess.run(["git", "-C", REPO, "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
fixes, prop, start = [], None, dict(fixed.START)
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    prop = start.get(h[:7], prop)
    if prop:
        fixes.append((prop, h[:7], s[4:].strip()))
kf = os.path.join(HERE, "known_findings.json")
k = json.load(open(kf))
k["fixed"] = ["fixed: property=%s %s %s" % f for f in fixes]
with open(kf, "w") as f:
    json.dump(k, f, indent=1)
    f.write("\n")

out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "## Properties\n"]
for p in props.P:
    i = p["id"]
    c = checks.CHECKS.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(" ".join(p["statement"].split()) + "\n")
    if not c:
        out.append("Not claimed.\n")
        continue
    out.append("- **Decided by**: " + c["note"])
    out.append("- **Bounds**: " + c["bounds"] + ".")
    names = []
    for b in c["bins"]:
        for s in b["src"]:
            t = open(os.path.join(HERE, "harness", s)).read()
            names += re.findall(r'^\s*MC_SCENARIO(?:_T)?\("([^"]+)"\)', t, re.M)
    if names:
        out.append("- **Scenarios**: " + "; ".join(names) + ".")
    if i in decisions.D:
        out.append("- **Left out, and decisions**: " + " ".join(decisions.D[i]))
    mine = [f for f in fixes if f[0] == i]
    if mine:
        out.append("- **Repaired**: " + "; ".join("%s (%s)" % (f[2], f[1]) for f in mine) + ".")
    for f in sorted({x["what"] for x in k["findings"] if x["property"] == i}):
        out.append("- **Known finding**: " + f + ".")
    out.append("")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip("\n"))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m, b = json.load(open(d)), os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s Needs: %s. | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"].rstrip("."), decisions.CAUGHT.get(b, "yes")))
out.append("")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print(len(fixes), "repairs,", len(props.P), "properties")
