"""Model of the `math` module on symbolic numbers (concrete arguments with exact results stay exact)"""
import math as _m
from . import sym
from .sym import Num, frac, Unsupported


def _conc(x):
    return not (isinstance(x, Num) and x.q is None)


def __getattr__(name):
    if name == 'pi':
        return _trig().pi
    if name in ('e', 'tau', 'inf', 'nan'):
        if name == 'tau':
            return _trig().pi * 2
        return getattr(_m, name)
    f = getattr(_m, name)
    if callable(f):
        def g(*a):
            if all(_conc(x) for x in a):
                r = f(*[float(x.q) if isinstance(x, Num) else x for x in a])
                return r
            raise Unsupported("math.%s of a symbolic number" % name)
        g.__name__ = name
        return g
    return f


def _trig():
    from . import trig
    return trig


class _Pi(object):
    pass


def sqrt(x):
    if isinstance(x, (int, float)) or isinstance(x, Num):
        if sym.CTX is None:
            x = Num(q=frac(x)) if not isinstance(x, Num) else x
            a, b = _m.isqrt(x.q.numerator), _m.isqrt(x.q.denominator)
            if a * a == x.q.numerator and b * b == x.q.denominator:
                from fractions import Fraction
                return Num(q=Fraction(a, b))
            return _trig().const_sqrt(x.q)
        return sym.ctx().sqrt(x)
    raise TypeError("must be real number, not %s" % type(x).__name__)


def ceil(x):
    if isinstance(x, Num) and x.q is None:
        return sym.ctx().ceil(x)
    return _m.ceil(x.q if isinstance(x, Num) else frac(x))


def floor(x):
    if isinstance(x, Num) and x.q is None:
        return sym.ctx().floor(x)
    return _m.floor(x.q if isinstance(x, Num) else frac(x))


def fabs(x):
    return abs(x)


def trunc(x):
    return x.__trunc__()


def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if sym.CTX is None:
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    from .sym import Num as N
    d = abs(a - b)
    m = sym.CTX.max(abs(a), abs(b))
    lim = sym.CTX.max(m * N(q=frac(rel_tol)), N(q=frac(abs_tol)))
    return d <= lim


def hypot(*a):
    r = 0
    for x in a:
        r = r + x * x
    return sqrt(r)


def sin(x):
    return _trig().sin(x)


def cos(x):
    return _trig().cos(x)


def tan(x):
    return _trig().tan(x)


def acos(x):
    return _trig().acos(x)


def asin(x):
    return _trig().asin(x)


def atan(x):
    return _trig().atan2(x, 1)


def atan2(y, x):
    return _trig().atan2(y, x)


def radians(x):
    return x * _trig().pi / 180


def degrees(x):
    return x * 180 / _trig().pi
