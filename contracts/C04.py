"""C04: a form is returned only if form-finding converged within tmax iterations."""
from .equil import *  # noqa: F401,F403


def verify(V):
    s = Sig()
    refusal_units(V, s)
    for which in ("pure", "numpy"):
        static_unit(V, s, which)
        equilibrium_units(V, s, which)
