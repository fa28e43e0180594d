"""pyvc: a small deductive verifier for the Python code of compas_cem.

It symbolically executes the abstract syntax tree of the functions found in
/repo/src on every run, under preconditions and contracts written in
/verif/contracts, and hands the resulting obligations to SMT solvers.
"""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
