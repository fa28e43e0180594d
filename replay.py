"""Replay a file of replays/: run the recorded case against the real code in /repo.

Exit 1 and the message if the case still fails, 0 if it passes.
"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VP_SRC", "/repo/src"))
from vp.cases import lookup, run_case

r = json.load(open(sys.argv[1]))
if r.get("case") is None:
    print("no failing input; failed obligations:")
    for o in r.get("obligations", []):
        print(" -", o.get("unit"), "|", o.get("name"), "|", o.get("goal"))
    sys.exit(1)
kind, msg = run_case(lookup(r["property"])[1], r["case"], cpu=60)
print(kind, msg or "")
sys.exit(1 if kind == "fail" else 0)
