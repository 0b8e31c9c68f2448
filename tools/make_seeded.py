"""Write the table of planted changes of DESIGN.md from seeded/*/meta.json and tools/seeded_results.txt."""

import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(f"{V}/tools/seeded_results.txt"):
    id_, check, verdict = line.rstrip("\n").split("\t")[:3]
    res.setdefault(id_, []).append((check, verdict))
rows = ["| change | what it breaks | needs | verdict |", "|---|---|---|---|"]
for id_ in sorted(os.listdir(f"{V}/seeded")):
    meta = json.load(open(f"{V}/seeded/{id_}/meta.json"))
    cell = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")  # noqa
    verdict = "; ".join(f"{c} {v}" for c, v in res.get(id_, [(meta["property"], "not yet run")]))
    rows.append(f"| {id_} | {cell(meta['what_it_breaks'])} | {cell(meta['needs'])} | {verdict} |")
text = open(f"{V}/DESIGN.md").read()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
i, j = text.index(a) + len(a), text.index(b)
with open(f"{V}/DESIGN.md", "w") as f:
    f.write(text[:i] + "\n" + "\n".join(rows) + "\n" + text[j:])
print(len(rows) - 2, "changes")
