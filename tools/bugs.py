#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded*/*/meta.json."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
s = open(p).read()
mark = "## 6. Planted bugs\n"
s = s.split(mark)[0] + mark + """
Each was written from the property and the code, kept whether or not it was caught,
and is caught now by the quick check of the property it names (a miss led to the
strengthening of that check).  `seeded_templates/` holds changes to template files,
which are no Go source files.

| id | caught by | needs |
|---|---|---|
"""
for d in ("seeded", "seeded_templates"):
    for n in sorted(os.listdir(f"{root}/{d}")) if os.path.isdir(f"{root}/{d}") else []:
        m = json.load(open(f"{root}/{d}/{n}/meta.json"))
        s += "| %s%s | %s | %s |\n" % ("" if d == "seeded" else "(template) ", n, m["property"], m["needs"].replace("\n", " ").replace("|", "\\|"))
open(p, "w").write(s)
