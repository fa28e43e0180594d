"""C03: both solvers go through the same states and return the same form."""
from .equil import *  # noqa: F401,F403


def verify(V):
    s = Sig()
    agreement_unit(V, s)
    for which in ("pure", "numpy"):
        equilibrium_units(V, s, which)
