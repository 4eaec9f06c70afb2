#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they agree."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CLAIMED = []
PROPS = []
NA = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, note=None, na=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    PROPS.append(d)
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CLAIMED.append((id, note))

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

TRUST = ("Sampling, not proof: it holds on every simulated execution of the run. Trusts the simulated kernel "
         "(processes, pipes, files, terminal, signals, clock), the scripted shell, and that interleavings finer than the inserted "
         "yield points (every statement of bab, every blocking operation of its libraries) do not matter.")
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "none needed: the simulator replaces the operating system below an unmodified bab",
               "enable": "go build -overlay (generated into a scratch directory) with -tags faketime", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "./run.sh check " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": "deterministic simulation with fault injection: seeded search over schedules, outcomes and faults against a reference model",
                 "level": "exploration", "level_note": (n + " " if n else "") + TRUST} for i, n in CLAIMED],
     "not_applicable": NA,
     "notes": "Every check rebuilds bab from /repo's working tree into the simulator. './run.sh replay FILE' repeats a violation exactly."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
