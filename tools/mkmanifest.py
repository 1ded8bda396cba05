"""Writes properties.jsonl and MANIFEST.json (kept in step by this file)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None, na=None):
    P.append(dict(
        rec=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
            anchors=dict(
                files=files.split(),
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                observe_at=list(observe), hook_needed=None)),
        note=note, na=na))


SRV = "server/devpi_server/"
exec(open(os.path.join(HERE, "tools", "properties_src.py")).read())

TECH = "deterministic simulation with fault injection: seeded search over schedules, crashes and faults"

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"]) + "\n")

manifest = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[dict(
        property=p["rec"]["id"],
        quick_cmd=f"./check.py {p['rec']['id']} --tier quick",
        thorough_cmd=f"./check.py {p['rec']['id']} --tier thorough",
        evidence_file=f"evidence/{p['rec']['id']}.json",
        technique=TECH + "; " + p["note"][0],
        level="exploration",
        level_note=p["note"][1]) for p in P if p["note"]],
    not_applicable=[dict(property=p["rec"]["id"], reason=p["na"]) for p in P if not p["note"]],
    notes="No hooks in /repo: every seam is installed from outside by /verif/dst/patches.py (threads, locks, "
          "clocks, randomness, sockets, sqlite3, file system). DESIGN.md describes simulator, oracles and limits.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
