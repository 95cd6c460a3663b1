#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

here = os.path.dirname(os.path.abspath(__file__)) + "/.."
by = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
missed = set(open(here + "/tools/missed.txt").read().split())
rows = ["| check | planted bug | needs |", "|---|---|---|"]
for p in sorted(by):
    for name, m in by[p]:
        rows.append(f"| {p} | {name}{' *' if name in missed else ''} | {m['needs']} |")
path = here + "/DESIGN.md"
text = open(path).read()
text = re.sub(r"<!-- seeds -->.*<!-- end -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", text, flags=re.S)
open(path, "w").write(text)
