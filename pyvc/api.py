"""What specification files import; free of solver dependencies (also used under /repo's own interpreter)."""
import math


class Ob(object):
    def __init__(self, fn, name, kind, functions, bound, weight, sym, conc, covers, opts, trials):
        self.fn, self.name, self.kind, self.functions = fn, name, kind, list(functions)
        self.bound, self.weight, self.sym, self.conc = bound, weight, sym, conc
        self.covers = list(covers)
        self.opts = dict(opts or {})
        self.trials = trials


class Spec(object):
    """All obligations of one property"""
    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.assumptions = []
        self.trusted = []

    def ob(self, name, functions=(), kind='proof', bound=None, weight=1.0, sym=True, conc=True, covers=(), opts=None, trials=None):
        """kind: 'proof' (all inputs, discharged) | 'bounded' (same engine, stated bound) | 'sample' (concrete runs only)"""
        def deco(fn):
            if kind == 'bounded':
                assert bound
            self.obs.append(Ob(fn, name, kind, functions, bound, weight, sym and kind != 'sample', conc, covers, opts, trials))
            return fn
        return deco

    def assume(self, text):
        self.assumptions.append(text)


class Reject(BaseException):
    """input outside the contract's precondition"""


class Broken(BaseException):
    def __init__(self, label, detail=''):
        BaseException.__init__(self, label)
        self.label, self.detail = label, detail


POOL = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 10.0, -10.0, 0.001, -0.001, 0.1, 25.4, 100.0, 7.25, -3.75, 1e-5, 12345.678]


class Reader(object):
    """left to right reading for oracles"""
    def __init__(self, t):
        self.t, self.i = t, 0

    def at_end(self):
        return self.i >= len(self.t)

    def see(self, chars):
        return self.i < len(self.t) and self.t[self.i] in chars

    def one(self, chars):
        if not self.see(chars):
            return ''
        self.i += 1
        return self.t[self.i - 1]

    def run(self, chars):
        j = self.i
        while self.see(chars):
            self.i += 1
        return self.t[j:self.i]

    def tail(self):
        j, self.i = self.i, len(self.t)
        return self.t[j:]

    def pos(self):
        return self.i

    def mark(self):
        return self.i

    def reset(self, m):
        self.i = m


class Conc(object):
    """Concrete context: same interface as the symbolic one, on real CPython values and the unmodified code"""
    symbolic = False

    def __init__(self, pg, rng=None, values=None, fixed=None):
        self.pg, self.rng = pg, rng
        self.given = values         # replay: every input
        self.fixed = fixed or {}    # guided search: some inputs
        self.values = {}
        self.covers = set()
        self.opts = {}
        self.nchecks = 0

    # inputs
    def _draw(self, name, f):
        assert name not in self.values, name
        v = None
        if self.given is not None:
            v = self.given.get(name)
        elif name in self.fixed:
            v = self.fixed[name]
        if v is None:
            v = f()
        self.values[name] = v
        return v

    def real(self, name, lo=None, hi=None, gen=None):
        def f():
            r = self.rng
            if gen is not None:
                return float(gen(r))
            for _ in range(50):
                k = r.random()
                if k < 0.35:
                    v = r.choice(POOL)
                elif k < 0.5 and self.values:
                    prev = [x for x in self.values.values() if isinstance(x, float)]
                    v = r.choice(prev) if prev else 1.0
                elif k < 0.75:
                    v = round(r.uniform(-50, 50), r.choice((0, 1, 2, 3)))
                elif lo is not None and hi is not None:
                    v = r.uniform(lo, hi)
                else:
                    v = r.uniform(-1, 1) * 10 ** r.randint(-3, 4)
                if (lo is None or v >= lo) and (hi is None or v <= hi):
                    return float(v)
            l, h = (lo if lo is not None else (hi - 10)), (hi if hi is not None else (lo + 10))
            return float(r.uniform(l, h))
        return float(self._draw(name, f))

    def unit(self, name, n):
        vs = [self.real('%s.%d' % (name, i), -1, 1, gen=lambda r: r.choice([0, 0, 1, -1, r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)])) for i in range(n)]
        m = math.sqrt(sum(v * v for v in vs))
        if m < 1e-3:
            raise Reject()
        return [v / m for v in vs]

    def int(self, name, lo=None, hi=None, gen=None):
        def f():
            r = self.rng
            if gen is not None:
                return int(gen(r))
            l = lo if lo is not None else -20
            h = hi if hi is not None else max(l, 0) + 20
            return r.randint(l, min(h, l + 40)) if r.random() < 0.8 else r.randint(l, h)
        return int(self._draw(name, f))

    def choice(self, name, options):
        options = list(options)
        i = self._draw(name, lambda: self.rng.randrange(len(options)))
        return options[i % len(options)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def subset(self, name, items):
        return [x for x in items if self.bool('%s.%s' % (name, x))]

    # text
    def run(self, name, chars, gen=None):
        chars = sorted(chars)
        if gen is not None:
            return self._draw(name, lambda: gen(self.rng))
        return self._draw(name, lambda: ''.join(self.rng.choice(chars) for _ in range(self.rng.choice([1, 1, 2, 3, 5, 17]))))

    def char(self, name, chars):
        chars = sorted(chars)
        return self._draw(name, lambda: self.rng.choice(chars))

    def decimal(self, name, prec=3, gen=None):
        n = self.int(name, gen=gen or (lambda r: r.choice([0, 1, -1, r.randint(-99, 99), r.randint(-10 ** 5, 10 ** 5), 10 ** prec * r.randint(-50, 50)])))
        t = str(abs(n)).zfill(prec + 1)
        if prec:
            t = (t[:-prec] + '.' + t[-prec:]).rstrip('0').rstrip('.')
        t = ('-' if n < 0 else '') + t
        return t, float(t)

    def lazy(self, name, options, gen=None):
        return self._draw(name, lambda: gen(self.rng))

    def str(self, x):
        return str(x)

    def reader(self, t):
        return Reader(t)

    def number(self, t, how='float'):
        return float(t) if how == 'float' else int(t)

    def script(self, name, argv, lines):
        """run a command line tool on a program -> printed lines"""
        from . import scripts
        return scripts.run(name, argv, lines)

    def tool(self, name, argv, step):
        """run a command line tool, its main loop doing one arbitrary iteration"""
        from . import scripts
        return scripts.tool(self, name, argv, step)

    def fullmatch(self, pattern, text):
        import re
        return re.fullmatch(pattern, text) is not None

    def obj(self, name, gen):
        """concrete-only structured input: gen(rng) -> JSON value"""
        return self._draw(name, lambda: gen(self.rng))

    # logic
    def lit(self, x):
        return x

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or b

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def tol(self, a, b, tol):
        return tol if tol is not None else 1e-7 * (1 + abs(a) + abs(b))

    def eq(self, a, b, tol=None):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= self.tol(a, b, tol)
        return a == b

    def le(self, a, b, tol=None):
        return a <= b + self.tol(a, b, tol)

    def lt(self, a, b, tol=None):
        return a < b + self.tol(a, b, tol)

    def gap(self, *xs):
        """concrete runs only: keep clear of a rounding-sensitive boundary (exact arithmetic has none)"""
        return all(abs(x) > 1e-6 for x in xs)

    def sure(self, b):
        return bool(b)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def sqrt(self, x):
        return math.sqrt(x) if x > 0 else 0.0

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    pi = math.pi

    # obligations
    def assume(self, cond):
        if not cond:
            raise Reject()

    def cover(self, label):
        self.covers.add(label)

    def note(self, s):
        pass

    def check(self, label, cond, lemma=False, hint=None):
        self.nchecks += 1
        if not cond:
            raise Broken(label)
        return True

    def outside(self, why):
        raise Reject()

    def let(self, x):
        return x

    def by(self, label, goal, *hyps):
        return self.check(label, goal)

    def loop(self, lid, spec):
        pass
