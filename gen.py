#!/usr/bin/env python3
"""gen.py : writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []


def prop(pid, title, statement, over, qtext, why, files, mechanism, technique, note, state=(), level="other"):
    P.append((dict(id=pid, title=title, statement=statement,
                   quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                   anchors={"files": files,
                            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state]}),
              dict(technique=technique, level=level, level_note=note)))


def na(pid, title, statement, over, qtext, why, files, mechanism, reason):
    prop(pid, title, statement, over, qtext, why, files, mechanism, "", "")
    NA.append((pid, reason))


exec(open(os.path.join(HERE, "properties_text.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
nas = dict(NA)
m = {"version": 1, "setup_cmd": "./check.sh --selftest",
     "checks": [dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"],
                     thorough_cmd="./check.sh %s thorough" % p["id"],
                     evidence_file="evidence/%s.json" % p["id"], **c)
                for p, c in P if p["id"] not in nas],
     "not_applicable": [dict(property=k, reason=v) for k, v in NA],
     "notes": "Static analysis only; see DESIGN.md. No hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
