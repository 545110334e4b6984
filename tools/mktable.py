#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    f = ", ".join(sorted({l[6:].strip() for l in open(os.path.dirname(d) + "/patch.diff")
                          if l.startswith("+++ b/")})).replace("torchiva/", "")
    rows.append("| %s (%s) | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), f, m["needs"],
                                                m["what_it_breaks"], m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = s[: s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
