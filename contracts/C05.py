"""C05: form-finding leaves the topology untouched; the form is a separate copy."""
from .equil import *  # noqa: F401,F403


def verify(V):
    s = Sig()
    for which in ("pure", "numpy"):
        static_unit(V, s, which)
        equilibrium_units(V, s, which)
    static_unit(V, s, "pure", partial=True)
    equilibrium_units(V, s, "pure", partial=True)
