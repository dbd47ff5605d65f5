#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (section 4)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); sid = os.path.basename(os.path.dirname(m))
    cut = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (sid, cut(d["what_it_breaks"]), cut(d["needs"]), d.get("caught_by", d["property"])))
t = "| id | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
