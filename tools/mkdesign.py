#!/usr/bin/env python3
"""Fill the tables of DESIGN.md: repairs from known_findings.json, planted bugs from seeded/*/meta.json."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    text = f.read()
with open(os.path.join(ROOT, "known_findings.json")) as f:
    fixed = json.load(f)["fixed"]
rows = []
for line in fixed:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line if isinstance(line, str) else line["text"])
    rows.append((m.group(1), m.group(2), m.group(3)))
repairs = "\n".join(["| property | commit | what failed |", "|---|---|---|"] + [f"| {p} | {c[:10]} | {t} |" for p, c, t in sorted(rows)])
seeds = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    with open(d) as f:
        m = json.load(f)
    esc = lambda s: s.replace("|", "\\|")
    seeds.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} | {m.get('caught_by', m['property'])} |")
for name, table in ("repairs", repairs), ("seeds", "\n".join(seeds)):
    text = re.sub(f"<!-- {name} -->.*<!-- /{name} -->", lambda _: f"<!-- {name} -->\n{table}\n<!-- /{name} -->", text, flags=re.S)
with open(path, "w") as f:
    f.write(text)
