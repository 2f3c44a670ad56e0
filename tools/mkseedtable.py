#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"], j["needs"]))
text = "<!-- seeds -->\n| change | caught by | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: text, s, flags=re.S)
open(p, "w").write(s)
