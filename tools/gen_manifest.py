#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
         if l.split(" ", 1)[1].startswith("hook:")]
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="vt6_verif (a rustc --cfg)", enable="RUSTFLAGS=\"--cfg vt6_verif\" (set by check.py for every build of the monitors)", source_commits=hooks),
         checks=[], not_applicable=[])
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                                technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"].strip()))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=checks.NOT_APPLICABLE.get(p["id"], "not built yet")))
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
