"""pyvc: a small contract-based deductive verifier for a subset of Python/numpy.

Symbolically executes the AST of the repository's current source, function by
function, against sidecar contracts, and discharges every obligation with z3/cvc5.
"""
import sys as _sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in _sys.path:
    _sys.path.append(_VT)
