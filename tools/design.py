#!/usr/bin/env python3
"""write the table of planted bugs into DESIGN.md (between the two marker lines)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |")
t = "\n".join(["<!-- seeds -->", "## Planted bugs", "", "| bug | property | needs | caught by |", "|---|---|---|---|", *rows, "<!-- /seeds -->"])
p = f"{V}/DESIGN.md"
s = open(p).read()
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
