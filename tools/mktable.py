#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for p in glob.glob(ROOT + "/seeded/*/meta.json"):
    by.setdefault(json.load(open(p))["property"], []).append(os.path.basename(os.path.dirname(p)))
path = ROOT + "/DESIGN.md"
s = open(path).read()
i = s.index("| check | planted bugs it catches |")
rows = ["| %s | %s |" % (k, ", ".join(sorted(v))) for k, v in sorted(by.items())]
open(path, "w").write(s[:i] + "| check | planted bugs it catches |\n|---|---|\n" + "\n".join(rows) + "\n")
