#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
SRC = "fixedIncome/src/"
QUANT = {"inputs", "histories", "schedules", "configurations", "programs", "crash_points", "fault_sequences"}


def prop(id, title, statement, over, text, tests, files, mech, observe, note, technique, state=None):
    assert len(title) <= 80, (id, len(title))
    assert set(over) <= QUANT
    p = {"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(tests.split()),
         "anchors": {"files": [SRC + f for f in files], "mechanism": [{"name": n, "where": SRC + w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        p["anchors"]["state"] = [{"name": a, "meaning": b, "where": SRC + c} for a, b, c in state]
    P.append((p, " ".join(note.split()), technique))


here = os.path.join(V, "tools")
exec(open(os.path.join(here, "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p, _, _ in P:
        h.write(json.dumps(p) + "\n")
na = {x["property"] for x in NA}
m = {"version": 1,
     "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                 "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                 "technique": t, "level": "model_checking", "level_note": n} for p, n, t in P if p["id"] not in na],
     "not_applicable": NA,
     "notes": "No hooks: every check observes the public behaviour of the code imported from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
