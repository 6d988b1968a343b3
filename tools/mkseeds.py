#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md; remarks of rows that exist are kept."""
import json
import os
import re
import sys

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
text = open("DESIGN.md").read()
head, rest = text.split("<!-- seeds -->\n")
table, tail = rest.split("<!-- /seeds -->\n")
remarks = {}
for line in table.splitlines()[2:]:
    cells = [c.strip() for c in line.strip("|").split("|")]
    remarks[cells[0]] = cells[3]
for arg in sys.argv[1:]:
    name, _, remark = arg.partition("=")
    remarks[name] = remark
rows = ["| id | property | needs | remark |", "|---|---|---|---|"]
for name in sorted(os.listdir("seeded")):
    meta = json.load(open(f"seeded/{name}/meta.json"))
    needs = re.sub(r"\s+", " ", meta["needs"]).replace("|", "/")
    rows.append(f"| {name} | {meta['property']} | {needs} | {remarks.get(name, '')} |")
open("DESIGN.md", "w").write(head + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->\n" + tail)
