#!/usr/bin/env python3
"""Writes DESIGN.md: the text below with the tables made from seeded/ and known-findings.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(HERE, "tools", "design.txt")).read()
rows = []
for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
    rows.append(f"| {n} | {m.get('caught_by', m['property'])} | {m['needs']} |")
text = text.replace("@SEEDED@", "| planted change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    text = text.replace(f"@{p['id']}@", f"{p['id']}: {p['title']}")
text = re.sub(r"@COUNT@", str(len(rows)), text)
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
