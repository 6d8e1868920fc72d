#!/usr/bin/env python3
"""shows violation files of a simulation: viol.py EXE FILE..."""
import json, sys
sys.path.insert(0, '/verif')
import check
for p in sys.argv[2:]:
    v = json.load(open(p))["v"]
    print("=" * 20, p)
    print(v["trace"][-1800:])
    print(v["kind"] + ": " + check.symbolize(sys.argv[1], v["message"]))
