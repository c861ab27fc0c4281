#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=(), state=(), hook=None, note=None, tech=None, level="exploration", na=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": hook}})
    assert len(title) <= 80, title
    P[-1]["_note"], P[-1]["_tech"], P[-1]["_level"], P[-1]["_na"] = note, tech, level, na
exec(open(os.path.join(here, "properties_list.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, nas = [], []
for p in P:
    if p["_na"]:
        nas.append({"property": p["id"], "reason": p["_na"]})
        continue
    checks.append({"property": p["id"],
        "quick_cmd": f"./check.sh check {p['id']} quick",
        "thorough_cmd": f"./check.sh check {p['id']} thorough",
        "technique": p["_tech"] or "deterministic simulation with fault injection: seeded search over schedules and faults, checked against a reference model",
        "level": p["_level"], "level_note": p["_note"] or "seeded exploration; see DESIGN.md"})
man = {"version": 1, "setup_cmd": "./check.sh build",
  "hooks": {"guard": "none needed in /repo: the checks copy the working tree, insert yield points into the copy and build it against a patched Go runtime (build tag faketime)",
            "enable": "./check.sh build", "source_commits": []},
  "checks": checks, "not_applicable": nas,
  "notes": "Every check builds a simulation of /repo's working tree (see DESIGN.md) and runs it under many seeds. Replay a violation with ./check.sh replay FILE."}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
