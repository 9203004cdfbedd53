"""pyvc: a deductive verifier for the Python of /repo (contracts checked by path-wise symbolic execution + SMT).

The functions verified are the real ones: their syntax trees are parsed from the source files the imported
modules were loaded from, on every run; nothing is translated by hand.
"""
import sys

_SP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _SP not in sys.path:
    sys.path.append(_SP)
