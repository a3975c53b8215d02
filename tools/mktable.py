#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    j = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {j['property']} | {j['needs']} | {j['what_it_breaks']} |")
p = root + "/DESIGN.md"
s = open(p).read()
head = "| id | check | needs | breaks |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])
