"""Profile a contract unit (development aid): prints where the time goes."""
import os, sys, importlib, cProfile, pstats, signal
sys.path.insert(0, "/verif"); sys.path.insert(0, os.environ.get("VP_SRC", "/repo/src"))
sys.setrecursionlimit(20000)
from contracts.common import Verifier
secs = int(sys.argv[3])
V = Verifier(only=sys.argv[2], budget=secs)
pr = cProfile.Profile()
pr.enable()
importlib.import_module("contracts." + sys.argv[1]).verify(V)
pr.disable()
pstats.Stats(pr).sort_stats("cumulative").print_stats(45)
