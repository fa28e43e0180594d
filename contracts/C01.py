"""C01: every node of a returned form is in static equilibrium."""
from .equil import *  # noqa: F401,F403
from .compose import composition_unit


def verify(V):
    s = Sig()
    edge_lemmas(V)
    composition_unit(V)
    for which in ("pure", "numpy"):
        balance_unit(V, s, which)
        equilibrium_units(V, s, which)
