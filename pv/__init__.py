"""pv: a small deductive verifier for the Python/numpy subset used by /repo.

See /verif/DESIGN.md for what it does and what it trusts."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
sys.setrecursionlimit(20000)
