"""Make the offline z3 python bindings importable next to /opt/venv's numpy."""
import sys
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _P not in sys.path:
    sys.path.append(_P)
import z3  # noqa

_mp = z3.MultiPattern


def _multipattern(*terms):
    """keeps the terms with the pattern"""
    r = _mp(*terms)
    r._terms = terms
    return r


z3.MultiPattern = _multipattern
