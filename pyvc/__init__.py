"""pyvc: a deductive verification-condition generator for the Python in /repo/src/mpllayout.

See /verif/DESIGN.md.  The code that is verified is the source text of /repo, parsed again
on every run; nothing is translated by hand.
"""
import sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)      # z3 / cvc5 bindings (appended: the venv's own numpy, jax win)
