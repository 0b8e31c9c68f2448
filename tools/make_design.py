"""Write the table of checks in DESIGN.md (between the markers) from properties.jsonl and the checks."""

import json
import os
import re


def technique(t):
    r = re.search(r"^TECHNIQUE = \((.*?)^\)", t, re.M | re.S) or re.search(r'^TECHNIQUE = (".*")', t, re.M)
    return re.sub(r"\s+", " ", "".join(re.findall(r'"(.*)"', r.group(1))))


V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    t = open(os.path.join(V, "checks", p["id"].lower() + ".py")).read()
    r = re.search(r"^RULE = \((.*?)^\)", t, re.M | re.S) or re.search(r'^RULE = (".*")', t, re.M)
    rule = re.sub(r"\s+", " ", " ".join(re.findall(r'"(.*)"', r.group(1))))
    tech = technique(t)
    cases = []
    for m in re.finditer(r'^@case(?:\((.*)\))?\ndef (\w+)\(m\):\n(?:    """(.*?)"""\n)?', t, re.M):
        cases.append(f"`{m.group(2)}`" + (f" ({m.group(3).rstrip('.')})" if m.group(3) else ""))
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Decided by* {tech}.\n")
    out.append(f"*Explored:* {rule}.\n")
    out.append(f"*Beyond the tests:* {p['why_tests_cant']}\n")
    out.append("*Cases:* " + "; ".join(cases) + ".\n")
path = os.path.join(V, "DESIGN.md")
s = open(path).read()
a, b = "<!-- checks -->", "<!-- /checks -->"
s = s[: s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(path, "w").write(s)
