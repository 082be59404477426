#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append("`%s` (%s)" % (os.path.basename(os.path.dirname(f)), m["needs"]))
t = "".join("* %s: %s.\n" % (p, "; ".join(by[p])) for p in sorted(by))
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!--seeds-->\n") + len("<!--seeds-->\n"), s.index("<!--/seeds-->")
open(V + "/DESIGN.md", "w").write(s[:a] + t + s[b:])
