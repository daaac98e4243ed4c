#!/usr/bin/env python3
"""tools/mktable.py SCORE...: writes the table of the planted changes into
DESIGN.md from the output of tools/score.py (later files override earlier)."""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
results = {}
for name in sys.argv[1:]:
    for line in open(name):
        m = re.match(r"([\w-]+): (.*)", line)
        if m:
            results[m[1]] = re.findall(r"(C\d\d)(?::(caught|MISSED))?", m[2])

rows = []
for d in sorted(os.listdir(HERE + "/seeded")):
    meta = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    hits = [c for c, verdict in results.get(d, []) if verdict != "MISSED"]
    found = " ".join(hits) or ("none" if d in results else "not run")
    rows.append(f"| {d} | {meta['property']} | {found} | {meta['needs']} |")

START, END = "<!-- planted -->\n", "<!-- /planted -->"
path = HERE + "/DESIGN.md"
text = open(path).read()
before, rest = text.split(START)
after = rest.split(END)[1]
table = "| change | property | reported by | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(path, "w").write(before + START + table + END + after)
print(len(rows), "changes,", sum(d not in results for d in os.listdir(HERE + "/seeded")), "not run")
