"""Write MANIFEST.json from the checks that exist."""

import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    text = open(path).read()
    r = re.search(r"^TECHNIQUE = \((.*?)^\)", text, re.M | re.S) or re.search(r'^TECHNIQUE = (".*")', text, re.M)
    tech = "".join(re.findall(r'"(.*)"', r.group(1)))
    level = re.search(r'^LEVEL = "(.*)"', text, re.M)
    note = re.search(r'^LEVEL_NOTE = "(.*)"', text, re.M)
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./run.sh {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
            "technique": tech,
            "level": level.group(1) if level else "exploration",
            "level_note": note.group(1) if note else "held on the executions observed; see the evidence file",
        }
    )
json.dump(
    {"version": 1, "setup_cmd": "./run.sh --selftest", "checks": checks, "not_applicable": na},
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1,
)
