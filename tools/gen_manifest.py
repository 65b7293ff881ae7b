#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is registered for every property that check/run.py can decide."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C21"]
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE_CORE = ("TLC checks the bounded design model exhaustively; on the code, every recorded execution is a behaviour of Core.tla or is "
             "reported. Executions cover all short histories over a small alphabet, seeded random histories in a deterministic world, "
             "controlled schedules of real threads (delay-bounded search and random) and free-running threads. Trusts the observation "
             "points (cfg kompact_verif), the harness' own logging, and that interleavings inside a single atomic step do not matter.")
EXTRA = json.load(open(os.path.join(R, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CORE:
        tech = "TLA+ model (TLC) of the component runtime; trace validation of real executions against it"
        note = NOTE_CORE
    elif i in EXTRA and "na" not in EXTRA[i]:
        tech, note = EXTRA[i]["technique"], EXTRA[i]["note"]
    else:
        na.append({"property": i, "reason": EXTRA.get(i, {}).get("na", "not built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check/run.py %s" % i,
                   "thorough_cmd": "python3 check/run.py %s --tier thorough" % i,
                   "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check/run.py setup",
     "hooks": {"guard": "kompact_verif (rustc --cfg)",
               "enable": "the harness crate's .cargo/config.toml passes --cfg kompact_verif when it builds /repo/core and /repo/network as path dependencies",
               "source_commits": EXTRA["hooks"]},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Replay files are JSON: scenario, world and the recorded trace up to the rejected event."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
