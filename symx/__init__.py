"""Symbolic execution of the real chainerrl code over z3 (see DESIGN.md)."""
import sys as _sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_sys.path.append(_VT)
try:
    import z3  # noqa: F401
finally:
    _sys.path.remove(_VT)
