"""Shared by the replay drivers: locating the code under test, number formats."""
import os, sys, types, math
from fractions import Fraction

REPO = os.environ.get('REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
if not os.path.exists(os.path.join(REPO, 'meshless', 'version.py')):
    # generated by setup.py, only holds the version number
    v = types.ModuleType('meshless.version'); v.__version__ = v.full_version = v.version = '0'; v.release = True
    sys.modules['meshless.version'] = v


def num(x):
    """A number as TLC reads it: exact decimal of the float's shortest repr."""
    try:
        x = float(x)
    except Exception:
        return 'nan:%s' % type(x).__name__
    if x == 0:
        return '0'
    return repr(x)


def is_fin(a):
    import numpy as np
    try:
        return bool(np.isfinite(np.asarray(a, dtype=float)).all())
    except Exception:
        return False


def frac(s):
    return Fraction(s)


def flt(s):
    return float(Fraction(s))


def dec(s):
    """Exact terminating decimal of a rational string, with a decimal point."""
    f = Fraction(s)
    n = 0
    g = f
    while g.denominator != 1:
        g *= 10
        n += 1
        if n > 30:
            raise ValueError('no terminating decimal: %s' % s)
    t = str(abs(g.numerator)).rjust(n + 1, '0')
    i, d = (t[:-n], t[-n:]) if n else (t, '')
    out = ('-' if f < 0 else '') + i + '.' + d
    if len(out) > 16:               # does not fit into a field: short of the last digits
        m, e = ('%.9E' % float(f)).split('E')
        out = '%s%+d' % (m, int(e))
    return out
