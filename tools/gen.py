#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay
in step.  P(id, title, statement, over, quantifier text, why_tests_cant,
files, mechanism[(name, where)], observe_at, claim) where claim is either
("proof", level_note) or a string: the reason the property is not claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
def P(id, title, statement, over, quant, why, files, mech, observe, claim, state=()):
    assert len(title) <= 80, title
    props.append((dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)), claim))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, c in props:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, c in props:
    if isinstance(c, str):
        na.append(dict(property=p["id"], reason=c))
    else:
        level, note = c
        checks.append(dict(property=p["id"], quick_cmd="python3 vf/run.py " + p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 vf/run.py " + p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="function contracts on the real C code discharged by CBMC (goto-instrument --dfcc)",
            level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: contracts are attached by re-declaring the functions after #including the unmodified source."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
