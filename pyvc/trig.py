"""Trigonometry rules.

sin and cos are uninterpreted; what is known about them enters as ground facts, each a theorem
about the real functions:
  * sin^2 + cos^2 = 1, angle addition, multiple angles, exact values at multiples of pi/2
  * signs in each half turn, cos strictly decreasing on [0, pi], sin strictly increasing on [-pi/2, pi/2]
  * acos / asin / atan2 / tan by their definitions
  * (a mod 2 pi) has the sine and cosine of a
An angle is normalised to a sum of monomials with rational coefficients, so equal angles share terms
however the code computes them.
"""
import math as _m
from fractions import Fraction
import z3
from . import sym
from .sym import Num, frac, term, Unsupported, zreal

PI = z3.Real('pi')
pi = Num(t=PI)
GLOBAL_FACTS = [PI > zreal(Fraction('3.14159265358979')), PI < zreal(Fraction('3.14159265358980'))]
GLOBAL_VALUES = [(PI, _m.pi)]
_gsqrt = {}
SQRTS = []
_gn = [0]


# ------------------------------------------------------------------ constants (module import time)
def _numval(t):
    subs = [(a, zreal(frac(round(v, 15)))) for a, v in GLOBAL_VALUES]
    r = z3.simplify(z3.substitute(t, *subs))
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    return None


def const_simplify(n):
    """A constant expression over global constants that equals a simple rational becomes that rational"""
    if n.q is not None:
        return n
    t = z3.simplify(n.t, som=True)
    v = _numval(t)
    if v is None:
        return n
    guess = Fraction(v).limit_denominator(64)
    if abs(float(guess) - v) < 1e-9:
        s = z3.Solver()
        s.set('timeout', 9000)
        s.add(*GLOBAL_FACTS)
        s.add(t != zreal(guess))
        if s.check() == z3.unsat:
            return Num(q=guess)
    return Num(t=t)


def const_sqrt(q):
    """square root of a rational constant"""
    if q in _gsqrt:
        return _gsqrt[q]
    if q < 0:
        raise ValueError("math domain error")
    # sqrt(a/b) = sqrt(ab)/b ; keep squarefree part only
    n = q.numerator * q.denominator
    k = 1
    d = 2
    while d * d <= n and d < 5000:
        while n % (d * d) == 0:
            n //= d * d
            k *= d
        d += 1
    if n == 1:
        r = Num(q=Fraction(k, q.denominator))
    else:
        c = z3.Real('sqrt_%d' % n)
        if not any(a.eq(c) for a, _ in GLOBAL_VALUES):
            GLOBAL_FACTS.append(z3.And(c > 0, c * c == n))
            GLOBAL_VALUES.append((c, _m.sqrt(n)))
            SQRTS.append((n, c))
        r = Num(t=c * zreal(Fraction(k, q.denominator)))
    _gsqrt[q] = r
    return r


# ------------------------------------------------------------------ normal form of an angle
def monomials(t):
    """[(key, coefficient, term)] with t = sum coefficient * term; None if not a polynomial sum"""
    t = z3.simplify(t, som=True, flat=True)
    out = {}

    def add(x, k):
        if z3.is_rational_value(x) or z3.is_int_value(x):
            q = Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else Fraction(x.as_long())
            if q:
                o = out.get(None, (Fraction(0), z3.RealVal(1)))
                out[None] = (o[0] + k * q, z3.RealVal(1))
            return
        if z3.is_add(x):
            for c in x.children():
                add(c, k)
            return
        if z3.is_sub(x):
            cs = x.children()
            add(cs[0], k)
            for c in cs[1:]:
                add(c, -k)
            return
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            add(x.arg(0), -k)
            return
        if z3.is_mul(x):
            q = Fraction(1)
            rest = []
            for c in x.children():
                if z3.is_rational_value(c):
                    q *= Fraction(c.numerator_as_long(), c.denominator_as_long())
                else:
                    rest.append(c)
            if not rest:
                add(zreal(q), k)
                return
            if len(rest) == 1 and z3.is_add(rest[0]):
                add(rest[0], k * q)
                return
            m = rest[0] if len(rest) == 1 else z3.Product(*rest)
            key = m.sexpr()
            o = out.get(key, (Fraction(0), m))
            out[key] = (o[0] + k * q, m)
            return
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL) and z3.is_add(x.arg(0)):
            for c in x.arg(0).children():
                add(z3.simplify(z3.ToReal(c)), k)
            return
        key = x.sexpr()
        o = out.get(key, (Fraction(0), x))
        out[key] = (o[0] + k, x)
    add(t, Fraction(1))
    return [(k, q, m) for k, (q, m) in out.items() if q != 0]


class State(object):
    """Trigonometric terms of one path"""
    def __init__(self, c):
        self.c = c
        self.base = {}          # monomial key -> {denominator: (sin, cos)}
        self.total = {}         # normalised angle -> (sin Num, cos Num)
        self.angles = []        # [(term, sin term, cos term)]  for the monotonicity facts
        self.given = {}         # monomial key -> (sin, cos) given by definition
        self.atans = {}
        self.keep = []

    def _pair(self, m, den):
        c = self.c
        s, k = c.fresh('sin'), c.fresh('cos')
        c.add(s.t * s.t + k.t * k.t == 1)
        c.add(z3.And(s.t >= -1, s.t <= 1, k.t >= -1, k.t <= 1))
        if c.ring is not None:
            c.ring.unit(s.t, k.t)
        a = m if den == 1 else m / den
        self._register(a, s.t, k.t)
        return (s, k)

    def _register(self, a, s, k):
        c = self.c
        if not c.opts.get('order', True):
            return
        h = PI / 2
        a = z3.simplify(a)
        for (b, sb, kb) in self.angles:
            if b.eq(a):
                return
        c.add(z3.Implies(z3.And(a > 0, a < PI), s > 0))
        c.add(z3.Implies(z3.And(a < 0, a > -PI), s < 0))
        c.add(z3.Implies(z3.And(a > -h, a < h), k > 0))
        c.add(z3.Implies(z3.Or(z3.And(a > h, a < 3 * h), z3.And(a < -h, a > -3 * h)), k < 0))
        c.add(z3.Implies(a == 0, z3.And(s == 0, k == 1)))
        c.add(z3.Implies(z3.Or(a == PI, a == -PI), z3.And(s == 0, k == -1)))
        c.add(z3.Implies(a == h, z3.And(s == 1, k == 0)))
        c.add(z3.Implies(a == -h, z3.And(s == -1, k == 0)))
        c.add(z3.Implies(z3.Or(a == 2 * PI, a == -2 * PI), z3.And(s == 0, k == 1)))
        c.add(z3.Implies(z3.And(a > PI, a < 2 * PI), s < 0))
        c.add(z3.Implies(z3.And(a < -PI, a > -2 * PI), s > 0))
        for (b, sb, kb) in self.angles:
            c.add(z3.Implies(z3.And(a >= 0, b <= PI, a < b), k > kb))
            c.add(z3.Implies(z3.And(b >= 0, a <= PI, b < a), kb > k))
            c.add(z3.Implies(z3.And(a >= -PI, b <= 0, a < b), k < kb))
            c.add(z3.Implies(z3.And(b >= -PI, a <= 0, b < a), kb < k))
            c.add(z3.Implies(a == b, z3.And(s == sb, k == kb)))
        self.angles.append((a, s, k))
        self.keep.append(a)

    def define(self, a, s, k):
        """the angle variable `a` (a fresh constant) has the given sine and cosine"""
        key = z3.simplify(a).sexpr()
        self.base.setdefault(key, {})[1] = (s, k)
        self._register(a, term(s), term(k))

    def _base(self, key, m, den):
        """(sin, cos) of m/den"""
        tab = self.base.setdefault(key, {})
        if den in tab:
            return tab[den]
        if key == 'pi':
            if den == 1:
                tab[1] = (Num(q=Fraction(0)), Num(q=Fraction(-1)))
                return tab[1]
            if den == 2:
                tab[2] = (Num(q=Fraction(1)), Num(q=Fraction(0)))
                return tab[2]
            if den == 4:
                r = const_sqrt(Fraction(1, 2))
                self.c.sync_globals()
                tab[4] = (r, r)
                return tab[4]
            if den == 3:
                r = const_sqrt(Fraction(3))
                self.c.sync_globals()
                tab[3] = (r / 2, Num(q=Fraction(1, 2)))
                return tab[3]
            if den == 6:
                r = const_sqrt(Fraction(3))
                self.c.sync_globals()
                tab[6] = (Num(q=Fraction(1, 2)), r / 2)
                return tab[6]
        # multiples of a finer entry
        for d in sorted(tab):
            if d % den == 0:
                tab[den] = self._named(m if den == 1 else m / den, *self._multiple(tab[d], d // den))
                return tab[den]
        p = self._pair(m, den)
        tab[den] = p
        # link the coarser entries:  m/d = (den/d) * m/den
        for d in list(tab):
            if d != den and den % d == 0:
                s, k = self._multiple(p, den // d)
                if self.c.ring is not None and den // d == 2:
                    self.c.ring.halves(term(p[0]), term(p[1]), term(tab[d][0]), term(tab[d][1]))
                self.c.add(term(tab[d][0]) == term(s))
                self.c.add(term(tab[d][1]) == term(k))
        return p

    def _named(self, t, s, c):
        """name the sine and cosine of an angle so that order facts apply to it"""
        s2, c2 = self.c.fresh('sin'), self.c.fresh('cos')
        if self.c.ring is not None:
            self.c.ring.define(s2.t, 'is', term(s))
            self.c.ring.define(c2.t, 'is', term(c))
        self.c.add(s2.t == term(s))
        self.c.add(c2.t == term(c))
        self.c.add(s2.t * s2.t + c2.t * c2.t == 1)
        self._register(t, s2.t, c2.t)
        return s2, c2

    def _multiple(self, p, n):
        if n < 0:
            s, k = self._multiple(p, -n)
            return (-s, k)
        s, k = Num(q=Fraction(0)), Num(q=Fraction(1))
        if n == 2:
            return (p[0] * p[1] * 2, p[1] * p[1] - p[0] * p[0])
        for _ in range(n):
            s, k = s * p[1] + k * p[0], k * p[1] - s * p[0]
        return (s, k)

    def sincos(self, x):
        if x.q is not None and x.q == 0:
            return (Num(q=Fraction(0)), Num(q=Fraction(1)))
        t = z3.simplify(term(x), som=True)
        k = t.get_id()
        if k in self.total:
            return self.total[k]
        self.keep.append(t)
        ms = monomials(t)
        s, c = Num(q=Fraction(0)), Num(q=Fraction(1))
        for (key, q, m) in sorted(ms, key=lambda z: str(z[0])):
            b = self._base(key, m, q.denominator)
            bs, bc = self._multiple(b, q.numerator)
            s, c = s * bc + c * bs, c * bc - s * bs
        if len(ms) > 1 or (len(ms) == 1 and abs(ms[0][1].numerator) != 1) or (len(ms) == 1 and ms[0][1] < 0):
            if s.q is None or c.q is None:
                s, c = self._named(t, s, c)
        self.total[k] = (s, c)
        return (s, c)

    def mod(self, a, b):
        """a mod b for b a multiple of 2 pi: same sine and cosine"""
        if not isinstance(b, Num) or b.q is not None:
            return None
        ms = monomials(term(b))
        if len(ms) != 1 or ms[0][0] != 'pi' or ms[0][1] != 2:
            return None
        c = self.c
        a = Num(q=frac(a)) if not isinstance(a, Num) else a
        t = z3.simplify(term(a), som=True)
        ck = ('mod2pi', t.get_id())
        if ck in c.cache:
            return c.cache[ck]
        c.keep.append(t)
        s, k = self.sincos(a)
        m = c.fresh('mod2pi')
        n = c.fresh('turns', True)
        c.add(m.t >= 0)
        c.add(m.t < 2 * PI)
        c.add(m.t == t - 2 * PI * z3.ToReal(n.t))
        # the integer number of turns, for the common ranges
        c.add(z3.Implies(z3.And(t >= 0, t < 2 * PI), z3.And(n.t == 0, m.t == t)))
        c.add(z3.Implies(z3.And(t < 0, t >= -2 * PI), z3.And(n.t == -1, m.t == t + 2 * PI)))
        self.define(m.t, s, k)
        c.cache[ck] = m
        return m


def _state():
    c = sym.CTX
    if c.trig is None:
        c.trig = State(c)
    return c.trig


def _n(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, (int, float)):
        return Num(q=frac(x))
    raise TypeError("must be real number, not %s" % type(x).__name__)


def _const_angle(x):
    """angle = q*pi -> q, else None"""
    if x.q is not None:
        return Fraction(0) if x.q == 0 else None
    ms = monomials(x.t)
    if len(ms) == 1 and ms[0][0] == 'pi':
        return ms[0][1]
    return None


def _const_sincos(q):
    q = q % 2
    tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
    if q in tab:
        return Num(q=Fraction(tab[q][0])), Num(q=Fraction(tab[q][1]))
    if (q * 4).denominator == 1:
        h = const_sqrt(Fraction(1, 2))
        n = int(q * 4)
        return (h if n in (1, 3) else -h), (h if n in (1, 7) else -h)
    if (q * 6).denominator == 1:
        h = const_sqrt(Fraction(3)) / 2
        half = Num(q=Fraction(1, 2))
        n = int(q * 6)
        s = {1: half, 2: h, 4: h, 5: half, 7: -half, 8: -h, 10: -h, 11: -half}[n]
        c = {1: h, 2: half, 4: -half, 5: -h, 7: -h, 8: -half, 10: half, 11: h}[n]
        return s, c
    return None


def _sincos(x):
    x = _n(x)
    q = _const_angle(x)
    if q is not None:
        r = _const_sincos(q)
        if r is not None:
            if sym.CTX is not None:
                sym.CTX.sync_globals()
            return r
    if sym.CTX is None:
        return _global_sincos(x)
    return _state().sincos(x)


def _global_sincos(x):
    v = _numval(term(x))
    if v is None:
        raise Unsupported("trigonometry of a non-constant at import time")
    _gn[0] += 1
    s, c = z3.Real('gsin_%d' % _gn[0]), z3.Real('gcos_%d' % _gn[0])
    for t, val in ((s, _m.sin(v)), (c, _m.cos(v))):
        f = frac(round(val, 12))
        e = Fraction(1, 10 ** 11)
        GLOBAL_FACTS.append(z3.And(t > zreal(f - e), t < zreal(f + e)))
        GLOBAL_VALUES.append((t, val))
    GLOBAL_FACTS.append(s * s + c * c == 1)
    return Num(t=s), Num(t=c)


def sin(x):
    return _sincos(x)[0]


def cos(x):
    return _sincos(x)[1]


def tan(x):
    s, c = _sincos(x)
    if c.q is not None and c.q == 0:
        raise Unsupported("tan of a right angle")
    if c.q is None and sym.CTX is not None:
        # cos x = 0 is a measure-zero set that floats cannot hit
        sym.CTX.note("tan(x) is only taken where cos(x) != 0 (no float is an odd multiple of pi/2)")
        sym.CTX.add(c.t != 0)
        return sym.CTX.divide(term(s), c.t)
    return s / c


def acos(x):
    x = _n(x)
    exact = {1: Fraction(0), 0: Fraction(1, 2), -1: Fraction(1)}
    if x.q is not None and x.q in exact:
        return pi * exact[x.q] if exact[x.q] else Num(q=Fraction(0))
    c = sym.ctx()
    t = z3.simplify(term(x))
    ck = ('acos', t.get_id())
    if ck in c.cache:
        return c.cache[ck]
    c.keep.append(t)
    if c.fork(z3.Or(t > 1, t < -1)):
        raise ValueError("math domain error")
    st = _state()
    a = c.fresh('acos')
    c.add(a.t >= 0)
    c.add(a.t <= PI)
    s = c.fresh('sin')
    c.add(s.t >= 0)
    c.add(s.t * s.t == 1 - t * t)
    # end points (strictly monotone function)
    c.add(z3.Implies(t < 1, a.t > 0))
    c.add(z3.Implies(t == 1, a.t == 0))
    c.add(z3.Implies(t >= 0, a.t <= PI / 2))
    c.add(z3.Implies(t > 0, a.t < PI / 2))
    if c.ring is not None:
        c.ring.unit(s.t, t) if not c.ring.value(t).den and z3.is_const(t) else c.ring.define(s.t, 'sqrt', 1 - t * t)
    st.define(a.t, s, Num(t=t))
    c.cache[ck] = a
    return a


def asin(x):
    return pi / 2 - acos(x)


def atan2(y, x):
    y, x = _n(y), _n(x)
    if sym.CTX is None:
        y, x = const_simplify(y), const_simplify(x)
    if y.q is not None and x.q is not None:
        if y.q == 0:
            return Num(q=Fraction(0)) if x.q >= 0 else pi
        if x.q == 0:
            return pi / 2 if y.q > 0 else -pi / 2
        if abs(x.q) == abs(y.q):
            k = {(True, True): Fraction(1, 4), (True, False): Fraction(3, 4), (False, True): Fraction(-1, 4), (False, False): Fraction(-3, 4)}
            return pi * k[(y.q > 0, x.q > 0)]
    c = sym.CTX
    if c is None:
        raise Unsupported("atan2 of an awkward constant at import time")
    ty, tx = z3.simplify(term(y)), z3.simplify(term(x))
    ck = ('atan2', ty.get_id(), tx.get_id())
    if ck in c.cache:
        return c.cache[ck]
    c.keep += [ty, tx]
    st = _state()
    a = c.fresh('atan2')
    c.add(a.t > -PI)
    c.add(a.t <= PI)
    if c.fork(z3.And(ty == 0, tx == 0)):
        r0 = Num(q=Fraction(0))
        c.cache[ck] = r0
        return r0
    if c.ring is not None:
        r = c.sqrt(Num(t=tx * tx + ty * ty))
        c.add(term(r) > 0)
        s, k = sym.lift(ty) / r, sym.lift(tx) / r
        c.add(z3.Implies(ty > 0, z3.And(a.t > 0, a.t < PI)))
        c.add(z3.Implies(ty < 0, a.t < 0))
        c.add(z3.Implies(z3.And(ty == 0, tx > 0), a.t == 0))
        c.add(z3.Implies(z3.And(ty == 0, tx < 0), a.t == PI))
        c.add(term(s) * term(s) + term(k) * term(k) == 1)
        st.define(a.t, s, k)
        c.cache[ck] = a
        return a
    r = c.fresh('hyp')
    s, k = c.fresh('sin'), c.fresh('cos')
    c.add(r.t > 0)
    c.add(r.t * r.t == tx * tx + ty * ty)
    c.add(r.t * s.t == ty)
    c.add(r.t * k.t == tx)
    c.add(s.t * s.t + k.t * k.t == 1)
    c.add(z3.Implies(ty > 0, z3.And(a.t > 0, a.t < PI)))
    c.add(z3.Implies(ty < 0, a.t < 0))
    c.add(z3.Implies(z3.And(ty == 0, tx > 0), a.t == 0))
    c.add(z3.Implies(z3.And(ty == 0, tx < 0), a.t == PI))
    st.define(a.t, s, k)
    c.cache[ck] = a
    return a
