#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sim/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim")
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

NA = {
    "N01": "The comparison is a pure function of two YAML texts: no schedule, clock, I/O fault or party takes part, so there is nothing for a simulator to decide.",
    "N02": "Validation is a pure function of one YAML text: no schedule, clock, I/O fault or party takes part, so there is nothing for a simulator to decide.",
    "N03": "ROOT and Arrow are not installed and cannot be fetched; these backends do not compile here, and a stand-in for ROOT's object streaming would be the thing under test.",
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", "deterministic simulation: seeded search over schedules, histories and faults"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Seeded sampling, not enumeration: absence of a violation is evidence, not proof. Trusts the simulation runtime and the reference model."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "python3 sim/build.py --check-tools", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the seams are the compiler's instrumentation (memory accesses), the C library (mutexes, allocator), the FrameData concept (storage), the sio library's interface (files) and Python's file functions (generator)."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
