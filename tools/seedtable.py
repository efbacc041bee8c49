#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->).*(<!-- /seeds -->)", lambda m: m.group(1) + "\n" + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
