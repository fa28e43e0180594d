"""Run the contracts of one property and print the obligations (development aid)."""
import os, sys, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VP_SRC", "/repo/src"))
sys.setrecursionlimit(20000)
from contracts.common import Verifier
name = sys.argv[1]
V = Verifier(only=sys.argv[2] if len(sys.argv) > 2 else None)
t0 = time.time()
importlib.import_module("contracts." + name).verify(V)
V.finish()
for r in V.results:
    d = r.to_json()
    st = {}
    for o in r.obligations:
        st[o.status] = st.get(o.status, 0) + 1
    print("%-60s %-11s paths=%d vac=%d %s %.1fs %s" % (r.name, r.status, r.paths, r.vacuous, st, r.wall, r.detail))
    for o in r.obligations:
        if o.status != "proved":
            print("   ", o.status, o.solver, "|", o.name, "|", (o.detail or "").replace("\n"," ")[:160 if "-p" not in sys.argv else 800])
            for p in (o.pc or []) if "-p" in sys.argv else []:
                print("         pc", p[:180].replace("\n", " "))
            if o.model is not None and "-m" in sys.argv: print(str(o.model)[:3000])
    if "-v" in sys.argv:
        for o in r.obligations:
            print("      ", o.status, o.solver, "%.2f" % o.secs, o.name)
        print("    calls", d["calls"])
        print("    assumes", d["assumptions"])
print("%.1fs" % (time.time() - t0))
