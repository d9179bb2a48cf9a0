#!/usr/bin/env python3
"""rewrites the table of section 5 of DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("\n", s.index("|-----|----------|")) + 1
j = i
while j < len(s) and s[j] == "|":
    k = s.find("\n", j)
    j = len(s) if k < 0 else k + 1
old = {}
for l in s[i:j].splitlines():
    c = [x.strip() for x in l.strip("|").split("|")]
    old[c[0]] = c[-1]
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {old.get(d, m['property'])} |\n")
open(p, "w").write(s[:i] + "".join(rows) + s[j:])
