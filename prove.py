"""Generate and discharge the obligations of one property from /repo's current source."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VP_SRC", "/repo/src"))
sys.setrecursionlimit(20000)


def main():
    pid, tier, budget, out = sys.argv[1:5]
    units = []
    try:
        from contracts.common import Verifier
        V = Verifier(tier=tier, budget=float(budget))
        try:
            mod = importlib.import_module("contracts." + pid)
        except ModuleNotFoundError as e:
            if e.name != "contracts." + pid:
                raise
            mod = None
        if mod is not None:
            try:
                mod.verify(V)
            finally:
                V.finish()
                units = [r.to_json() for r in V.results]
    except Exception as e:
        units.append({"name": "contracts of " + pid, "status": "error", "detail": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:]),
                      "paths": 0, "vacuous_paths": 0, "calls": {}, "assumptions": [], "solver_s": 0.0, "by": {}, "wall_s": 0.0,
                      "obligations": []})
    with open(out, "w") as f:
        json.dump({"property": pid, "units": units}, f, indent=1)


if __name__ == "__main__":
    main()
