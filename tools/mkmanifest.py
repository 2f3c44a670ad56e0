#!/usr/bin/env python3
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification explored with TLC; behaviours replayed in the real code and recorded traces validated by TLC"
NOTE = json.load(open(V + "/tools/levelnotes.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("%s/props/%s.py" % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, technique=T, level="model_checking", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="specification for this part of the system not built yet"))
m = dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="none", enable="no hooks are needed: every check drives the public API of the unmodified sources", source_commits=[]), checks=checks, not_applicable=na,
         notes="See DESIGN.md. KNOWN_FINDINGS.txt lists findings and fixes.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
