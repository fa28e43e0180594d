"""Writes MANIFEST.json and levels.json from the contracts present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "default": "contracts discharged on the real functions of /repo for all inputs (reals for floats); seeded replay on the real code as bounded cross-check",
}
TECH = "contract-based deductive verification: pre/postconditions and loop contracts on the real Python functions (symbolic interpreter over /repo's syntax trees, z3/cvc5), counterexamples replayed on the real code"
LEVEL = {}
BOUNDED = {"C%02d" % i for i in range(1, 20)}
BTECH = "bounded stand-in for contract-based deductive verification: the postconditions evaluated on the real code for seeded random inputs (contracts under construction)"
BNOTE = "bounded, not proved: postconditions checked on seeded random inputs only"
try:
    from mknotes import NOTES, LEVEL
    NOTE.update(NOTES)
except ImportError:
    pass
checks, na = [], []
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for i in ids:
    if os.path.exists(os.path.join(HERE, "contracts", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": TECH, "level": LEVEL.get(i, "proof"), "level_note": NOTE.get(i, NOTE["default"])})
    elif i in BOUNDED:
        LEVEL[i] = "exploration"
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": BTECH, "level": "exploration", "level_note": NOTE.get(i, BNOTE)})
    else:
        na.append({"property": i, "reason": NOTE.get(i, "contracts not written yet")})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo; ten fix: commits, listed in known_findings.json."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump({i: LEVEL.get(i, "proof") for i in ids}, open(os.path.join(HERE, "levels.json"), "w"), indent=1)
