"""Symbolic values and the path context of the verifier.

Numbers of the program under verification are mathematical: a Python float is a real
number, a Python int an integer.  `Num` is a number that is either a rational constant
or a z3 term, `SymBool` a z3 formula whose truth value forks the path.
"""
import z3
from fractions import Fraction
from decimal import Decimal


class PathEnd(BaseException):
    """Current path ends here (infeasible assumption, or end of an arbitrary loop iteration)."""


class Unsupported(BaseException):
    """The verifier has no rule for this construct on symbolic values."""


class Opaque(Unsupported):
    """Contents of an abstract object asked for"""


class CheckFailed(BaseException):
    """Stop exploring this obligation (a failure was recorded)."""


CTX = None      # current PathCtx


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside of a path")
    return CTX


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported("non-finite float")
        return Fraction(Decimal(repr(float(x))))
    raise TypeError(x)


def is_number(x):
    return isinstance(x, (int, float, Num, Fraction)) and not isinstance(x, SymBool)


def lift(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return Num(q=Fraction(t.numerator_as_long(), t.denominator_as_long()))
    return Num(t=t)


def zreal(q):
    return z3.Q(q.numerator, q.denominator)


def term(x, as_real=True):
    """z3 term of a number"""
    if isinstance(x, Num):
        if x.t is None:
            return zreal(x.q)
        if as_real and x.isint:
            return z3.ToReal(x.t)
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, int) and not as_real:
        return z3.IntVal(int(x))
    return zreal(frac(x))


def _isint(x):
    return (isinstance(x, Num) and x.isint) or (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, bool)


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise Unsupported("boolean term of %r" % type(x))


class SymBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().fork(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, boolterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == boolterm(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else ~r)

    def __hash__(self):
        return 0

    def __repr__(self):
        return "SymBool(%s)" % self.t


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class Num(object):
    """A real or integer: rational constant `q`, or z3 term `t`"""
    __slots__ = ('q', 't', 'isint', 'tag', 'neg')

    def __init__(self, q=None, t=None, isint=False, tag=None):
        self.q = q
        self.t = t
        self.isint = isint
        self.tag = tag

    # ---- arithmetic
    def _bin(self, o, fq, ft, swap=False):
        if isinstance(o, SymBool):
            o = Num(t=z3.If(o.t, z3.IntVal(1), z3.IntVal(0)), isint=True)
        if not is_number(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        qa = a.q if isinstance(a, Num) else frac(a)
        qb = b.q if isinstance(b, Num) else frac(b)
        if qa is not None and qb is not None:
            return Num(q=fq(qa, qb))
        i = _isint(a) and _isint(b)
        r = Num(t=ft(term(a, not i), term(b, not i)), isint=i)
        if CTX is None:
            from . import trig
            return trig.const_simplify(r)
        return r

    def __add__(self, o):
        if is_number(o) and not isinstance(o, Num) and o == 0 and self._keeps(o):
            return self
        if isinstance(o, Num) and o.q == 0:
            return self
        if self.q == 0 and isinstance(o, Num):
            return o
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def _keeps(self, o):
        return True

    def __sub__(self, o):
        if (isinstance(o, Num) and o.q == 0) or (not isinstance(o, Num) and is_number(o) and o == 0):
            return self
        if isinstance(o, Num) and o.t is not None and self.t is not None and o.t.eq(self.t):
            return Num(q=Fraction(0))
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if is_number(o):
            qo = o.q if isinstance(o, Num) else frac(o)
            if qo is not None:
                if qo == 1:
                    return self
                if qo == 0:
                    return Num(q=Fraction(0))
            if self.q is not None and isinstance(o, Num):
                if self.q == 1:
                    return o
                if self.q == 0:
                    return Num(q=Fraction(0))
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def _div(self, o, swap):
        if not is_number(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        qb = b.q if isinstance(b, Num) else frac(b)
        if qb is not None:
            if qb == 0:
                raise ZeroDivisionError("float division by zero")
            if isinstance(a, Num) and a.q is None and qb == 1 and not a.isint:
                return a
            return _toreal(a) * Num(q=1 / qb)
        if CTX is None:
            raise Unsupported("division by an irrational constant at import time")
        if ctx().fork(term(b) == 0):
            raise ZeroDivisionError("float division by zero")
        qa = a.q if isinstance(a, Num) else frac(a)
        if qa == 0:
            return Num(q=Fraction(0))
        return ctx().divide(term(a), term(b))

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def __neg__(self):
        if self.q is not None:
            return Num(q=-self.q)
        return Num(t=-self.t, isint=self.isint, tag=('neg', self) if self.tag else None)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.q is not None:
            return Num(q=abs(self.q))
        if CTX is not None and CTX.ring is not None:
            return self if CTX.fork(self.t >= 0) else -self
        return Num(t=z3.If(self.t >= 0, self.t, -self.t), isint=self.isint)

    def __pow__(self, o):
        if isinstance(o, Num) and o.q is not None and o.q.denominator == 1:
            o = int(o.q)
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return Num(q=Fraction(1))
            r = self
            for _ in range(abs(o) - 1):
                r = r * self
            return r if o > 0 else 1 / r
        if isinstance(o, (Num, float)) and frac(o.q if isinstance(o, Num) and o.q is not None else o if not isinstance(o, Num) else 0) == Fraction(1, 2):
            return ctx().sqrt(self)
        raise Unsupported("power with exponent %r" % (o,))

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __mod__(self, o):
        return ctx().mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return ctx().mod(o, self)

    def __floordiv__(self, o):
        return ctx().floordiv(self, o)

    def __rfloordiv__(self, o):
        return ctx().floordiv(o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __round__(self, n=None):
        return ctx().round(self, n)

    def __floor__(self):
        return ctx().floor(self)

    def __ceil__(self):
        return ctx().ceil(self)

    def __trunc__(self):
        return ctx().trunc(self)

    def is_integer(self):
        if self.isint:
            return True
        if self.q is not None:
            return self.q.denominator == 1
        return mkbool(z3.IsInt(self.t))

    # ---- comparison
    def _cmp(self, o, fq, ft):
        if isinstance(o, SymBool) or not is_number(o):
            return NotImplemented
        qo = o.q if isinstance(o, Num) else frac(o)
        if self.q is not None and qo is not None:
            return fq(self.q, qo)
        i = _isint(self) and _isint(o)
        t = ft(term(self, not i), term(o, not i))
        return mkbool(z3.simplify(t))

    def __eq__(self, o):
        if o.__class__ is Num:
            a, b = self.q, o.q
            if a is not None and b is not None:
                return a._numerator == b._numerator and a._denominator == b._denominator
        elif o.__class__ is str or o is None:
            return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        if self.q is not None:
            return self.q != 0
        return ctx().fork(self.t != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __int__(self):
        if self.q is not None:
            return int(self.q)
        raise Unsupported("int() of a symbolic number outside the instrumented code")

    def __index__(self):
        if self.q is not None and self.q.denominator == 1:
            return int(self.q)
        if self.isint:
            return ctx().concretise(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __float__(self):
        if self.q is not None:
            return float(self.q)
        raise Unsupported("float() of a symbolic number outside the instrumented code")

    def __repr__(self):
        if self.q is not None:
            return "Num(%s)" % (self.q if self.q.denominator != 1 else float(self.q))
        return "Num(%s)" % self.t

    def __str__(self):
        return "<symbolic>"

    def __format__(self, spec):
        raise Unsupported("format of symbolic number by uninstrumented code")

    @property
    def real(self):
        return self


def _toreal(a):
    if isinstance(a, Num):
        if a.isint:
            return Num(t=z3.ToReal(a.t))
        return a
    return Num(q=frac(a))


def toreal(a):
    return _toreal(a)
