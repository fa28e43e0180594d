"""C02: trail geometry and force signs follow the given lengths and planes."""
from .equil import *  # noqa: F401,F403


def verify(V):
    s = Sig()
    edge_lemmas(V)
    for which in ("pure", "numpy"):
        geometry_unit(V, s, which)
        static_unit(V, s, which)
        equilibrium_units(V, s, which)
