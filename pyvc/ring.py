"""Equational back end: normal forms of algebraic expressions.

A value is a fraction  polynomial / product of factors  over the rationals in the path's variables.
Definitional equalities of the path are rewrite rules, kept eagerly applied:
    quotients          q = a / b            (b != 0 is on the path)
    square roots       r^2 -> radicand
    unit circles       s^2 -> 1 - c^2
    half angles        s'^2 -> (1 - c)/2,  c'^2 -> (1 + c)/2,  s' c' -> s/2
An equation is proved when the difference of its sides has the normal form 0 (each rule is an equality
that holds on the path, so this is sound; failure to reach 0 proves nothing).
"""
from fractions import Fraction
from math import isqrt
import z3

ONE = Fraction(1)


class TooBig(Exception):
    pass


def pconst(q):
    return {(): q} if q else {}


def padd(a, b, k=ONE):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def freeze(p):
    return frozenset(p.items())


class Frac(object):
    """num / prod(factor^e);  factor is a frozen polynomial"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}


class Ring(object):
    LIMIT = 4000

    def __init__(self):
        self.names = {}         # variable key -> index
        self.terms = []         # index -> z3 term
        self.rules = {}         # index -> polynomial its square equals
        self.pairs = {}         # (i, j) -> polynomial their product equals
        self.inpair = {}
        self.defs = {}          # z3 const id -> ('quot', a, b) | ('sqrt', t) | ('is', t)
        self.memo = {}
        self.keep = []
        self.work = 0
        self.fracrules, self.fracpairs = {}, {}
        self.roots = set()

    # ---------------------------------------------------------------- variables
    def var(self, t):
        k = t.get_id()
        if k not in self.names:
            self.names[k] = len(self.terms)
            self.terms.append(t)
        return self.names[k]

    def define(self, t, *d):
        self.keep.append((t, d))
        self.defs.setdefault(t.get_id(), d)

    def unit(self, s, c):
        """s^2 + c^2 == 1"""
        i, j = self.var(s), self.var(c)
        if i not in self.rules:
            self.rules[i] = padd(pconst(ONE), {((j, 2),): ONE}, -ONE)

    def square(self, t, value):
        """t^2 == value (a z3 term)"""
        i = self.var(t)
        f = self.value(value)
        if f.den or i in self.rules:
            return
        self.rules[i] = f.num

    def halves(self, s2, c2, s, c):
        fs, fc = self.value(s), self.value(c)
        if fs.den or fc.den:
            # fractions: clear by naming
            return self._halves_frac(s2, c2, fs, fc)
        self._halves(s2, c2, fs.num, fc.num)

    def _halves(self, s2, c2, s, c):
        i, j = self.var(s2), self.var(c2)
        if (min(i, j), max(i, j)) in self.pairs or (min(i, j), max(i, j)) in self.fracpairs:
            return
        self.rules.pop(i, None)
        h = Fraction(1, 2)
        self.rules[i] = padd(pconst(h), c, -h)
        self.rules[j] = padd(pconst(h), c, h)
        self.pairs[(min(i, j), max(i, j))] = {m: k * h for m, k in s.items()}
        self.inpair[i] = j
        self.inpair[j] = i

    def _halves_frac(self, s2, c2, fs, fc):
        # name sine and cosine as ring variables with their own rules
        i, j = self.var(s2), self.var(c2)
        if (min(i, j), max(i, j)) in self.pairs or (min(i, j), max(i, j)) in self.fracpairs:
            return
        self.rules.pop(i, None)
        half = Frac(pconst(Fraction(1, 2)))
        self.fracrules[i] = self.mul(half, self.add(Frac(pconst(ONE)), fc, -ONE))
        self.fracrules[j] = self.mul(half, self.add(Frac(pconst(ONE)), fc))
        self.fracpairs[(min(i, j), max(i, j))] = self.mul(half, fs)

    # ---------------------------------------------------------------- polynomials
    def mono(self, m):
        """normal form of a monomial -> polynomial (None: already normal)"""
        for idx, (v, e) in enumerate(m):
            if e >= 2 and v in self.rules:
                rest = m[:idx] + (((v, e - 2),) if e > 2 else ()) + m[idx + 1:]
                return self.pmul({rest: ONE}, self.rules[v])
        if self.pairs:
            vs = [v for v, e in m]
            for v in vs:
                w = self.inpair.get(v)
                if w is not None and w > v and w in vs:
                    rest = tuple((x, e - (x in (v, w))) for x, e in m)
                    rest = tuple((x, e) for x, e in rest if e)
                    return self.pmul({rest: ONE}, self.pairs[(v, w)])
        return None

    def pmul(self, a, b):
        if len(a) * len(b) > self.LIMIT * 50:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                self.work += 1
                mn = mmul(m, n)
                k = c * d
                red = self.mono(mn)
                if red is None:
                    v = r.get(mn, 0) + k
                    if v:
                        r[mn] = v
                    else:
                        r.pop(mn, None)
                else:
                    for x, y in red.items():
                        v = r.get(x, 0) + k * y
                        if v:
                            r[x] = v
                        else:
                            r.pop(x, None)
        if len(r) > self.LIMIT:
            raise TooBig()
        return r

    # ---------------------------------------------------------------- fractions
    def add(self, a, b, k=ONE):
        if a.den == b.den:
            return self.cancel(self.fix(Frac(padd(a.num, b.num, k), dict(a.den))))
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = max(den.get(f, 0), e)
        na, nb = a.num, b.num
        for f, e in den.items():
            for _ in range(e - a.den.get(f, 0)):
                na = self.pmul(na, dict(f))
            for _ in range(e - b.den.get(f, 0)):
                nb = self.pmul(nb, dict(f))
        return self.cancel(self.fix(Frac(padd(na, nb, k), den)))

    def mul(self, a, b):
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
        return self.cancel(self.fix(Frac(self.pmul(a.num, b.num), den)))

    def fix(self, f):
        """rules whose right side is a fraction"""
        rules = self.fracrules
        if not rules:
            return f
        while True:
            hit = None
            for m in f.num:
                for v, e in m:
                    if e >= 2 and v in rules:
                        hit = (m, 'sq', v)
                        break
                if hit:
                    break
                vs = set(v for v, e in m)
                for (v, w) in self.fracpairs:
                    if v in vs and w in vs:
                        hit = (m, 'pair', (v, w))
                        break
                if hit:
                    break
            if not hit:
                return f
            m, kind, v = hit
            k = f.num[m]
            rest = {x: y for x, y in f.num.items() if x != m}
            d = dict(m)
            if kind == 'sq':
                d[v] -= 2
                rep = rules[v]
            else:
                d[v[0]] -= 1
                d[v[1]] -= 1
                rep = self.fracpairs[v]
            mono = tuple(sorted((x, e) for x, e in d.items() if e))
            part = Frac(self.pmul({mono: k}, rep.num), dict(rep.den))
            for g, e in f.den.items():
                part.den[g] = part.den.get(g, 0) + e
            f = self.add(Frac(rest, dict(f.den)), part)

    def cancel(self, f):
        if not f.num:
            return Frac({})
        if not f.den:
            return f
        den = {}
        num = f.num
        for g, e in f.den.items():
            if len(g) == 1:
                (m, c), = g
                while e:
                    # monomial factor: cancel if it divides every term
                    if all(self._mdiv(x, m) is not None for x in num):
                        num = {self._mdiv(x, m): y / c for x, y in num.items()}
                        e -= 1
                    else:
                        break
            else:
                while e:
                    q = self._exact(num, dict(g))
                    if q is None:
                        break
                    num = q
                    e -= 1
            if e:
                den[g] = e
        return Frac(num, den)

    @staticmethod
    def _mdiv(x, m):
        if not m:
            return x
        d = dict(x)
        for v, e in m:
            k = d.get(v, 0) - e
            if k < 0:
                return None
            d[v] = k
        return tuple(sorted((v, e) for v, e in d.items() if e))

    def _exact(self, num, g):
        """num / g when the division is exact (plain polynomial division, graded order)"""
        if len(num) < len(g) or len(num) > 400:
            return None
        key = lambda m: (sum(e for _, e in m), [(-v, e) for v, e in m])
        lg = max(g, key=key)
        q = {}
        r = dict(num)
        for _ in range(200):
            if not r:
                # the rules may have merged terms: confirm
                return q if self.pmul(q, g) == num else None
            lr = max(r, key=key)
            m = self._mdiv(lr, lg)
            if m is None:
                return None
            c = r[lr] / g[lg]
            q[m] = q.get(m, 0) + c
            for x, y in g.items():
                mm = mmul(m, x)
                v = r.get(mm, 0) - c * y
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        return None

    def inverse(self, f):
        """1/f  (f != 0)"""
        if not f.num:
            raise ZeroDivisionError()
        num = pconst(ONE)
        for g, e in f.den.items():
            for _ in range(e):
                num = self.pmul(num, dict(g))
        p = f.num
        # common monomial content becomes separate factors
        den = {}
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            common = {v: min(e, d.get(v, 0)) for v, e in common.items() if d.get(v, 0)}
        cont = tuple(sorted((v, e) for v, e in common.items() if e))
        lead = p[max(p)]
        rest = {self._mdiv(m, cont): c / lead for m, c in p.items()}
        num = {m: c / lead for m, c in num.items()}
        for v, e in cont:
            if v in self.rules:
                # 1/r = r / r^2
                sq = self.rules[v]
                num = self.pmul(num, {((v, 1),): ONE})
                k = self.inverse(Frac(dict(sq)))
                num = self.pmul(num, k.num)
                for g, ge in k.den.items():
                    den[g] = den.get(g, 0) + ge
            else:
                g = frozenset({(((v, 1),), ONE)})
                den[g] = den.get(g, 0) + e
        if rest != {(): ONE}:
            # a + b r with one root r:  multiply by the conjugate
            g = freeze(rest)
            den[g] = den.get(g, 0) + 1
        return self.cancel(Frac(num, den))

    # ---------------------------------------------------------------- from z3
    def value(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._value(t)
            self.memo[k] = r
            self.keep.append(t)
        return r

    def _value(self, t):
        if z3.is_rational_value(t):
            return Frac(pconst(Fraction(t.numerator_as_long(), t.denominator_as_long())))
        if z3.is_int_value(t):
            return Frac(pconst(Fraction(t.as_long())))
        if z3.is_add(t):
            r = self.value(t.arg(0))
            for x in t.children()[1:]:
                r = self.add(r, self.value(x))
            return r
        if z3.is_sub(t):
            r = self.value(t.arg(0))
            for x in t.children()[1:]:
                r = self.add(r, self.value(x), -ONE)
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            f = self.value(t.arg(0))
            return Frac({m: -c for m, c in f.num.items()}, f.den)
        if z3.is_mul(t):
            r = self.value(t.arg(0))
            for x in t.children()[1:]:
                r = self.mul(r, self.value(x))
            return r
        if z3.is_div(t):
            return self.mul(self.value(t.arg(0)), self.inverse(self.value(t.arg(1))))
        if z3.is_app_of(t, z3.Z3_OP_POWER):
            e = t.arg(1)
            if (z3.is_rational_value(e) and e.denominator_as_long() == 1) or z3.is_int_value(e):
                n = e.numerator_as_long() if z3.is_rational_value(e) else e.as_long()
                if 0 <= n <= 8:
                    r = Frac(pconst(ONE))
                    for _ in range(n):
                        r = self.mul(r, self.value(t.arg(0)))
                    return r
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            x = t.arg(0)
            if z3.is_add(x) or z3.is_sub(x) or z3.is_mul(x) or z3.is_app_of(x, z3.Z3_OP_UMINUS) or z3.is_int_value(x) or x.get_id() in self.defs:
                return self.value(x)
        d = self.defs.get(t.get_id())
        if d is not None:
            if d[0] == 'quot':
                return self.mul(self.value(d[1]), self.inverse(self.value(d[2])))
            if d[0] == 'is':
                return self.value(d[1])
            if d[0] == 'sqrt':
                f = self.value(d[1])
                # sqrt(n/d) = sqrt(n d) / d
                num = f.num
                for g, e in f.den.items():
                    for _ in range(e):
                        num = self.pmul(num, dict(g))
                i = self.var(t)
                self.rules.setdefault(i, num)
                if not f.den:
                    self.roots.add(i)
                r = Frac({((i, 1),): ONE})
                if not f.den:
                    return r
                # the variable stands for sqrt(n d) = d sqrt(n / d)
                x = t
                for g, e in f.den.items():
                    for _ in range(e):
                        x = x * self.pterm(dict(g))
                self.terms[i] = x
                return Frac(r.num, dict(f.den))
        if z3.is_int(t):
            t = z3.ToReal(t)
            self.keep.append(t)
        i = self.var(t)
        return Frac({((i, 1),): ONE})

    # ---------------------------------------------------------------- to z3
    def pterm(self, p):
        out = []
        for m, c in sorted(p.items()):
            fs = []
            for v, e in m:
                fs += [self.terms[v]] * e
            k = z3.RealVal(str(c))
            if not fs:
                out.append(k)
            else:
                fs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in fs]
                t = fs[0]
                for x in fs[1:]:
                    t = t * x
                out.append(t if c == 1 else k * t)
        if not out:
            return z3.RealVal(0)
        t = out[0]
        for x in out[1:]:
            t = t + x
        return t

    # ---------------------------------------------------------------- queries
    def is_zero(self, a, b):
        """a == b provable?"""
        try:
            return not self.normal(self.add(self.value(a), self.value(b), -ONE)).num
        except (TooBig, ZeroDivisionError):
            return False

    def normal(self, f):
        """apply rules that arrived after the value was computed"""
        return self.cancel(self.fix(Frac(self.pmul(f.num, {(): ONE}), f.den)))

    def simple(self, t, limit=8):
        """equal, simpler z3 term, or None"""
        try:
            f = self.normal(self.value(t))
        except (TooBig, ZeroDivisionError):
            return None
        if f.den or len(f.num) > limit:
            return None
        return self.pterm(f.num)

    def unsquare(self, f, op):
        """k r - q op 0 with a square root r >= 0:  compare r^2 with (q/k)^2 instead"""
        vs = [m for m in f.num if m]
        if len(vs) != 1 or len(f.num) != 2 or vs[0][0][0] not in self.roots or vs[0] != ((vs[0][0][0], 1),):
            return f
        k, q = f.num[vs[0]], -f.num[()]
        if q / k < 0:
            return f
        sq = self.rules[vs[0][0][0]]
        r = padd(sq, pconst((q / k) ** 2), -ONE)
        return Frac(r if k > 0 else {m: -x for m, x in r.items()})

    def rel(self, t):
        """simplify an (in)equality between reals: returns True / False / equivalent term"""
        ops = {z3.Z3_OP_EQ: '==', z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}
        if z3.is_not(t):
            r = self.rel(t.arg(0))
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if z3.is_and(t) or z3.is_or(t):
            rs = [self.rel(x) for x in t.children()]
            dom = z3.is_or(t)
            if any(x is dom for x in rs):
                return dom
            rs = [x for x in rs if not isinstance(x, bool)]
            if not rs:
                return not dom
            return (z3.Or if dom else z3.And)(*rs)
        k = t.decl().kind() if z3.is_app(t) else None
        if k not in ops or t.arg(0).sort() != z3.RealSort():
            return t
        try:
            f = self.normal(self.add(self.value(t.arg(0)), self.value(t.arg(1)), -ONE))
        except (TooBig, ZeroDivisionError):
            return t
        op = ops[k]
        q = self.const(f)
        if q is not None:
            return {'==': q == 0, '<=': q <= 0, '<': q < 0, '>=': q >= 0, '>': q > 0}[op]
        if not f.num:
            return op in ('==', '<=', '>=')
        if op == '==' and len(f.num) == 1:
            (m, _), = f.num.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.roots and self.rules[m[0][0]]:
                return self.pterm(self.rules[m[0][0]]) == 0
        if op == '==' and len(f.num) <= 60:
            return self.pterm(f.num) == 0
        if f.den or len(f.num) > 60:
            return t
        f = self.unsquare(f, op)
        x = self.pterm(f.num)
        return {'<=': x <= 0, '<': x < 0, '>=': x >= 0, '>': x > 0}[op]

    def const(self, f):
        if f.den:
            return None
        if not f.num:
            return Fraction(0)
        if len(f.num) == 1 and () in f.num:
            return f.num[()]
        return None

    def root(self, f):
        """f = p^2 / d^2 -> (p, [factors of d]) if recognisably a square"""
        den = []
        for g, e in f.den.items():
            if e % 2:
                return None
            den += [g] * (e // 2)
        p = self._proot(f.num)
        return None if p is None else (p, den)

    def _qroot(self, q):
        if q < 0:
            return None
        a, b = isqrt(q.numerator), isqrt(q.denominator)
        return Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else None

    def _proot(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            q = self._qroot(c)
            if q is None or any(e % 2 for _, e in m):
                return self._unroot(p)
            return {tuple((v, e // 2) for v, e in m): q}
        r = self._unroot(p)
        if r is not None:
            return r
        return self._fact(p)

    def _unroot(self, p):
        """undo a rule:  k * rule(v) = (sqrt(k) v)^2"""
        for v, sq in self.rules.items():
            if not sq or len(sq) > len(p):
                continue
            q = self._exact2(p, sq)
            if q is not None:
                r = self._proot(q) if q != p else None
                if r is not None:
                    return self.pmul(r, {((v, 1),): ONE})
        return None

    def _exact2(self, p, g):
        if len(g) == 1 and () in g:
            return None
        return self._exact(p, g)

    def _fact(self, p):
        if len(p) > 60:
            return None
        try:
            import sympy
        except ImportError:
            return None
        vs = sorted(set(v for m in p for v, e in m))
        syms = {v: sympy.Symbol('v%d' % v) for v in vs}
        e = sympy.Add(*[sympy.Rational(c.numerator, c.denominator) * sympy.Mul(*[syms[v] ** k for v, k in m]) for m, c in p.items()])
        try:
            c, fs = sympy.factor_list(e)
        except Exception:
            return None
        c = Fraction(int(sympy.numer(c)), int(sympy.denom(c)))
        r = {(): ONE}
        back = {s: v for v, s in syms.items()}
        neg = 1
        for f, k in fs:
            q = sympy.Poly(f, *[syms[v] for v in vs])
            poly = {}
            for mono, co in q.terms():
                poly[tuple(sorted((vs[i], x) for i, x in enumerate(mono) if x))] = Fraction(int(co.p), int(co.q))
            if k % 2:
                # an odd factor may itself be the square of a rule
                u = self._unroot(poly)
                if u is None:
                    u = self._unroot({m: -x for m, x in poly.items()})
                    neg = -neg
                if u is None:
                    return None
                for _ in range(k):
                    r = self.pmul(r, u)
            else:
                for _ in range(k // 2):
                    r = self.pmul(r, poly)
        q = self._qroot(c * neg)
        if q is None:
            return None
        return {m: x * q for m, x in r.items()}
