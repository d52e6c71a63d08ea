#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py."""
import json
import os
import subprocess
import props as P

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add a simulation hook"],
                      stdout=subprocess.PIPE, text=True).stdout.split()
m = dict(
    version=1,
    setup_cmd="python3 check.py setup",
    hooks=dict(
        guard="LOG_SURGEON_SIM",
        enable="tools/build.py compiles /repo/src itself, with -DLOG_SURGEON_SIM (the guard lets "
               "a simulated world choose the size of the parser's static buffers; without it the "
               "shipped constants are used)",
        source_commits=hook),
    checks=[],
    not_applicable=[])
for i in ids:
    if i in P.PROPS:
        s = P.PROPS[i]
        m["checks"].append(dict(
            property=i,
            quick_cmd="python3 check.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            technique="deterministic simulation with fault injection, seeded search; " + s["tech"],
            level="exploration",
            level_note=s["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=P.NOT_APPLICABLE[i]))
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
