#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json and /tmp/seedcheck.json-like results
given as arguments (files with lines '<seed> <property> CAUGHT|missed')."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
rows.sort()
t = "| property (check that catches it) | planted bug | manifests with |\n|---|---|---|\n" + "".join("| %s | `%s` | %s |\n" % (p, s, n.replace("|", "\\|").replace("\n", " ")) for p, s, n in rows)
p = V + "/DESIGN.md"
s = open(p).read()
if "@@MATRIX@@" in s:
    s = s.replace("@@MATRIX@@", "<!-- matrix -->\n<!-- /matrix -->")
s = re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda _: "<!-- matrix -->\n" + t + "<!-- /matrix -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "planted bugs")
