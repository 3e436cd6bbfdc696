#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted changes from seeded/*/meta.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
HEAD = "| change | needs | caught by |"
rows = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs'].strip()} | {m['property']} |")
s = open("DESIGN.md").read()
i = s.index(HEAD)
j = s.index("\n\n", i)
open("DESIGN.md", "w").write(s[:i] + HEAD + "\n|---|---|---|\n" + "\n".join(rows) + s[j:])
