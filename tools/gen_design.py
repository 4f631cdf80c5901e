#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)).split("-", 1)[1])
if by:
    s = "All of them, by the check that catches them (the check of their property; `needs` in each meta.json says what it takes):\n\n| check | planted bugs it catches |\n|-------|--------------------------|\n"
    s += "".join("| %s | %s |\n" % (k, ", ".join(by[k])) for k in sorted(by))
    t = open(root + "/DESIGN.md").read()
    t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->\n", lambda m: "<!-- seeds -->\n" + s + "<!-- /seeds -->\n", t, flags=re.S)
    open(root + "/DESIGN.md", "w").write(t)
