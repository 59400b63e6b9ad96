#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
by = {}
for d in sorted(os.listdir("seeded")): by.setdefault(json.load(open("seeded/%s/meta.json" % d))["property"], []).append(d)
rows = "\n".join("| %s | %s |" % (p, ", ".join(by[p])) for p in sorted(by))
s = open("DESIGN.md").read()
head = "|---|---|\n"
i = s.index("| property | planted bugs"); i = s.index(head, i) + len(head)
j = s.index("\n\n", i)
open("DESIGN.md", "w").write(s[:i] + rows + s[j:])
