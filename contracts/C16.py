"""C16: partial form-finding stops at the requested sequence."""
from .equil import *  # noqa: F401,F403


def verify(V):
    s = Sig()
    beyond_unit(V, s)
    negative_unit(V, s)
    static_unit(V, s, "pure", partial=True)
    equilibrium_units(V, s, "pure", partial=True)
