"""DESIGN.md from tools/DESIGN.in.md, properties, checks, findings and seeded bugs."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.props import PROPS  # noqa: E402


def read(*p):
    with open(os.path.join(HERE, *p)) as f:
        return f.read()


def oneline(s):
    return " ".join(s.split()).replace("|", "\\|")


manifest = json.loads(read("MANIFEST.json"))
checks = {c["property"]: c for c in manifest["checks"]}
na = {c["property"]: c["reason"] for c in manifest["not_applicable"]}
rows = []
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    pid = p["id"]
    rows.append(f"**{pid} – {p['title']}**  ")
    if pid in na:
        rows.append(f"Not applicable: {na[pid]}\n")
        continue
    spec = PROPS[pid]
    total = sum(x["weight"] for x in spec["parts"])
    parts = ", ".join(f"{x['scenario']}/{x['profile']}" + (f" ({x['weight']}/{total})" if total > 1 else "")
                      for x in spec["parts"])
    tech = checks[pid]["technique"].split("; ", 1)[1]
    rows.append(f"*Explored:* {p['quantifier']['text']}; {parts}; {spec['runs']} runs (quick).  ")
    rows.append(f"*Oracle:* {tech}.  ")
    rows.append(f"*Beyond tests:* {p['why_tests_cant']}  ")
    rows.append(f"*Limits:* {checks[pid]['level_note']}\n")

fixes = ["| property | commit | what failed |", "|---|---|---|"]
kf = json.loads(read("known_findings.json"))
for f in kf["fixed"]:
    _, prop, commit, text = f.split(" ", 3)
    fixes.append(f"| {prop.split('=')[1]} | `{commit}` | {oneline(text)} |")

try:
    runs = json.loads(read("tools", "bugruns.json"))
except FileNotFoundError:
    runs = {}
bugs = ["| id | property | needs | breaks | caught after |", "|---|---|---|---|---|"]
for d, where in sorted((d, w) for w in ("seeded", "bugs") for d in os.listdir(os.path.join(HERE, w))):
    m = json.loads(read(where, d, "meta.json"))
    bugs.append(f"| {d} | {m['property']} | {oneline(m['needs'])} | {oneline(m['what_it_breaks'])} | {runs.get(d, '')} |")

text = read("tools", "DESIGN.in.md")
for k, v in (("PROPTABLE", rows), ("FIXTABLE", fixes), ("BUGTABLE", bugs)):
    text = text.replace(k, "\n".join(v))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)
