#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md's "Planted changes" from seeded/*/meta.json (run by hand, not by any check)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(m["needs"].split()), m.get("caught_by", m["property"])))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
