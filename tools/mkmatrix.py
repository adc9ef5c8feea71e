#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json and tools/missed.json)"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(os.path.join(HERE, "tools", "missed.json"), encoding="utf-8"))
rows = ["| planted bug | caught by | what it needs | remark |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", name, "meta.json"), encoding="utf-8"))
    rows.append(f"| {name} | {meta['property']} | {meta['needs']} | {missed.get(name, '')} |")
path = os.path.join(HERE, "DESIGN.md")
text = open(path, encoding="utf-8").read()
text = re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda _m: "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- /matrix -->", text, flags=re.S)
open(path, "w", encoding="utf-8").write(text)
