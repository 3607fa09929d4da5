"""Symbolic text.

A text is a sequence of cells:
  Ch   one known character
  Cl   one character out of a set (refined by case split when the code tests it)
  Rn   a run of n >= 1 characters out of a set, n unbounded; digit runs know the number they spell
  Fx   decimal notation of an integer number of 1/10**prec (what "%.{prec}f" prints), possibly with trailing zeros / point stripped
  In   decimal notation of an integer ("%d")
  Lz   the rest of an arbitrary text: its next cell is chosen (case split) only when something looks at it
`Opaque` is text no contract looks at (messages, reprs).
"""
from fractions import Fraction
import z3
from . import sym
from .sym import Num, SymBool, Unsupported, PathEnd

ASCII = frozenset(chr(i) for i in range(128))
DIGITS = frozenset('0123456789')
BLANK = frozenset(' \t')
SPACE = frozenset(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f')


class Opaque(object):
    """Text whose content no contract looks at (messages, reprs)"""
    _pyvc_sstr = True

    def __init__(self, what='?'):
        self.what = what

    def __str__(self):
        return '<opaque>'
    __repr__ = __str__

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of opaque text")

    def __hash__(self):
        return 0

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('strip', 'rstrip', 'lstrip', 'replace', 'lower', 'upper', 'format', 'ljust', 'rjust', 'join', 'expandtabs'):
            return lambda *a, **k: self
        raise Unsupported("opaque text used (.%s)" % n)

    def __add__(self, o):
        return self
    __radd__ = __add__

    def __bool__(self):
        return True


# ------------------------------------------------------------------ cells
class Cell(object):
    expanded = None         # list of cells this one turned out to be
    value = None

    def length(self):
        raise NotImplementedError


class Ch(Cell):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def length(self):
        return 1


class Cl(Cell):
    def __init__(self, chars, val=None):
        self.chars = frozenset(chars)
        self.val = val          # Num, for digits

    def length(self):
        return 1

    def refine(self, chars):
        self.chars = frozenset(chars)
        if not self.chars:
            raise PathEnd()
        if self.val is not None and len(self.chars) < 10:
            c = sym.ctx()
            c.assume(c.Or(*[c.eq(self.val, int(x)) for x in sorted(self.chars)]))


class Rn(Cell):
    def __init__(self, chars, n, val=None, frac=None, canon=False):
        self.chars = frozenset(chars)
        self.n = n              # number of characters, >= 1
        self.val, self.frac, self.canon = val, frac, canon

    def length(self):
        return self.n


class Fx(Cell):
    """n / 10**prec with `prec` decimals; stage 1: trailing zeros of the fraction removed, stage 2: and the point with them"""
    def __init__(self, n, prec, stage=0, neg=None):
        self.n, self.prec, self.stage, self.neg = n, prec, stage, neg
        self._len = None

    def length(self):
        if self.expanded is not None:
            return total(flat(self.expanded))
        if self._len is None:
            c = sym.ctx()
            self._len = c.fresh('len', True)
            c.add(self._len.t >= 1)
        return self._len

    def value(self):
        r = sym.toreal(self.n) * Num(q=Fraction(1, 10 ** self.prec))
        if self.neg is not None:
            r.neg = self.neg
        return r

    def shapes(self):
        if self.stage == 0:
            ks = [self.prec]
        else:
            ks = list(range(self.prec + 1))
        return [(s, k) for s in ('', '-') for k in ks]

    def build(self, shape, commit):
        """cells of a shape; commit: assert that the number has it"""
        (s, k) = shape
        c = sym.ctx()
        out = []
        neg = self.neg if self.neg is not None else c.lt(self.n, 0)
        if commit:
            c.assume(neg if s else c.Not(neg))
        if s:
            out.append(Ch('-'))
        a = -self.n if s else self.n
        p = 10 ** self.prec
        if commit:
            ip = c.fresh('ip', True)
            c.add(ip.t >= 0)
            ds = []
            rest = a - ip * p
            tot = 0
            for i in range(self.prec):
                if i < k:
                    d = c.fresh('d', True)
                    c.add(z3.And(d.t >= 0, d.t <= 9))
                    ds.append(d)
                    tot = tot + d * 10 ** (self.prec - 1 - i)
            c.assume(c.eq(rest, tot))
            if k and self.stage:
                c.assume(c.Not(c.eq(ds[-1], 0)))
        else:
            ip, ds = None, [None] * k
        n = c.fresh('n', True)
        c.add(n.t >= 1)
        if commit:
            c.add(z3.And((n.t == 1) == (ip.t < 10), (n.t == 2) == z3.And(ip.t >= 10, ip.t < 100)))
        out.append(Rn(DIGITS, n, val=ip, canon=True))
        if k or self.stage < 2 and self.prec:
            out.append(Ch('.'))
        for d in ds:
            out.append(Cl(DIGITS, d))
        return out

    def chars(self):
        return frozenset('-.0123456789')


class In(Fx):
    """decimal notation of an integer"""
    def __init__(self, n, neg=None):
        Fx.__init__(self, n, 0, 2, neg)


class Lz(Cell):
    """arbitrary rest of a text; options(prev) -> list of alternatives, each a function returning a list of cells"""
    def __init__(self, options, state=None):
        self.options, self.state = options, state
        self._len = None

    def length(self):
        if self.expanded is not None:
            return total(flat(self.expanded))
        if self._len is None:
            c = sym.ctx()
            self._len = c.fresh('len', True)
            c.add(self._len.t >= 0)
        return self._len

    def force(self):
        if self.expanded is None:
            alts = self.options(self.state)
            f = sym.ctx().pick(alts)
            self.expanded = list(f())


def expand(cell, shape=None):
    if cell.expanded is not None:
        return
    if isinstance(cell, Lz):
        cell.force()
    elif isinstance(cell, Fx):
        if shape is None:
            shape = sym.ctx().pick(cell.shapes())
        cell.expanded = cell.build(shape, True)
    else:
        return
    if cell._len is not None:
        same_length(cell._len, total(cell.expanded))


def same_length(var, n):
    """positions written with the length variable mean the same as with n"""
    c = sym.ctx()
    n = n if isinstance(n, Num) else Num(q=Fraction(n))
    c.assume(c.eq(var, n))
    t = var.t
    w = z3.IntVal(int(n.q)) if n.q is not None else n.t
    if z3.is_const(t):
        c.lengths.append((t, w))
        return
    vs = variables(t)
    if len(vs) == 1:
        rest = z3.simplify(t - vs[0])
        if not variables(rest):
            c.lengths.append((vs[0], z3.simplify(w - rest)))


def variables(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
        else:
            todo.extend(x.children())
    return out


def flat(cells):
    out = []
    for x in cells:
        if x.expanded is not None:
            out.extend(flat(x.expanded))
        else:
            out.append(x)
    return out


# ------------------------------------------------------------------ texts
def mk(cells):
    cells = flat(cells)
    if all(isinstance(x, Ch) for x in cells):
        return ''.join(x.c for x in cells)
    return SText(cells)


def cells_of(x):
    if isinstance(x, str):
        return [Ch(ch) for ch in x]
    if isinstance(x, SText):
        return x.cells()
    raise Unsupported("text of %r" % type(x))


def total(cells):
    n = 0
    for x in cells:
        n = n + x.length()
    return n


class SText(object):
    _pyvc_sstr = True

    def __init__(self, cells):
        self._cells = list(cells)

    def __contains__(self, a):
        return bool(contains(a, self))

    def cells(self):
        """current cells (expansions followed)"""
        return flat(self._cells)

    # ---- basics
    def __add__(self, o):
        if isinstance(o, Opaque):
            return o
        if not isinstance(o, (str, SText)):
            return NotImplemented
        return mk(self.cells() + cells_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(cells_of(o) + self.cells())

    def __mul__(self, k):
        if isinstance(k, int):
            return mk(self.cells() * k)
        raise Unsupported("repeated symbolic text")

    def _pyvc_len(self):
        n = total(self._cells)
        return n

    def __len__(self):
        n = self._pyvc_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        while True:
            cs = self.cells()
            if not cs:
                return False
            if isinstance(cs[0], Lz):
                expand(cs[0])
                continue
            return True

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if isinstance(o, (str, SText)):
            return equal(self, o)
        if isinstance(o, Opaque):
            return o == self
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else sym.ctx().Not(r)

    def __lt__(self, o):
        raise Unsupported("order of symbolic text")
    __le__ = __gt__ = __ge__ = __lt__

    def __str__(self):
        return self.show()

    def __repr__(self):
        return 'SText(%s)' % self.show()

    def show(self):
        out = []
        for x in self.cells():
            if isinstance(x, Ch):
                out.append(x.c)
            elif isinstance(x, Cl):
                out.append('<1:%s>' % ''.join(sorted(x.chars))[:12])
            elif isinstance(x, Rn):
                out.append('<n:%s>' % ''.join(sorted(x.chars))[:12])
            else:
                out.append('<%s>' % type(x).__name__)
        return ''.join(out)

    def __iter__(self):
        i = 0
        while True:
            cs = self.cells()
            if i >= len(cs):
                return
            x = cs[i]
            if isinstance(x, (Fx, Lz)):
                expand(x)
                continue
            if isinstance(x, Rn):
                raise Unsupported("iteration over text of unbounded length")
            yield mk([x])
            i += 1

    # ---- positions
    def boundary(self, pos, what='index'):
        """(cells before, cells after) the position"""
        if isinstance(pos, Num) and pos.q is not None:
            pos = int(pos.q)
        if isinstance(pos, int) and pos < 0:
            return self._from_end(-pos)
        off = 0
        before, todo = [], self.cells()
        while True:
            d = diff(pos, off)
            if not isinstance(d, int) and sym.ctx().sure(sym.ctx().eq(d, 0)):
                d = 0
            if isinstance(d, int) and d == 0:
                return before, todo
            if not todo:
                if isinstance(d, int) and d > 0:
                    return before, []     # beyond the end
                raise Unsupported("text position not at a cell boundary")
            x = todo[0]
            if isinstance(d, int) and not isinstance(x.length(), int):
                # a known number of characters into text of unknown length
                if isinstance(x, Rn):
                    head, rest = split_run(x)
                    x.expanded = head + rest
                else:
                    expand(x)
            elif isinstance(x, Rn) and not isinstance(d, int) and isinstance(diff(pos, off + x.length()), int) and diff(pos, off + x.length()) < 0:
                # inside the run, a known number of characters before its end
                k = -diff(pos, off + x.length())
                first = Rn(x.chars, x.n - k)
                x.expanded = [first] + [Cl(x.chars) for _ in range(k)]
                sym.ctx().assume(sym.ctx().le(1, first.n))
                if x.val is not None or x.frac is not None:
                    raise Unsupported("position inside a number")
            if x.expanded is not None:
                todo = flat([x]) + todo[1:]
                continue
            before.append(x)
            off = off + x.length()
            todo = todo[1:]

    def _from_end(self, k):
        after = []
        while True:
            cs = self.cells()
            rest = cs[:len(cs) - len(after)]
            if len(after) == k or not rest:
                return rest, after
            x = rest[-1]
            if isinstance(x, (Fx, Lz)):
                expand(x)
                continue
            if isinstance(x, Rn):
                raise Unsupported("character before the end of an unbounded run")
            after = [x] + after

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("text slice with a step")
            if k.stop is None and k.start is None:
                return self
            if k.stop is None:
                return mk(self.boundary(k.start)[1])
            head = mk(self.boundary(k.stop)[0])
            if k.start is None or (isinstance(k.start, int) and k.start == 0):
                return head
            if isinstance(head, str):
                s = k.start if isinstance(k.start, int) else None
                if s is None:
                    raise Unsupported("slice")
                return head[s:]
            return mk(head.boundary(k.start)[1])
        i = int(k.q) if isinstance(k, Num) and k.q is not None else k
        if not isinstance(i, int):
            rest = mk(self.boundary(i)[1])
            i = 0
        elif i < 0:
            rest = mk(self._from_end(-i)[1])
            i = 0
        else:
            rest = mk(self.boundary(i)[1])
        for ch in rest:
            return ch
        raise IndexError("string index out of range")

    # ---- methods
    def _strip(self, chars, left, right):
        if chars is None:
            chars = SPACE
        elif not isinstance(chars, str):
            raise Unsupported("strip symbolic characters")
        chars = frozenset(chars)
        cells = self.cells()
        if left:
            while cells:
                x = cells[0]
                if isinstance(x, Fx) and not (x.chars() & chars):
                    break
                if isinstance(x, (Fx, Lz)):
                    expand(x)
                    cells = flat(cells)
                    continue
                if not inset(x, chars):
                    break
                cells = cells[1:]
        if right:
            while cells:
                x = cells[-1]
                if isinstance(x, Fx):
                    if not (x.chars() & chars):
                        break
                    if x.prec and x.stage == 0 and chars == frozenset('0'):
                        cells[-1] = Fx(x.n, x.prec, 1, x.neg)
                        break
                    if x.prec and x.stage == 1 and chars in (frozenset('.'), frozenset('0')):
                        if chars == frozenset('.'):
                            cells[-1] = Fx(x.n, x.prec, 2, x.neg)
                        break
                    if x.prec and x.stage == 2 and chars == frozenset('.'):
                        break
                if isinstance(x, (Fx, Lz)):
                    expand(x)
                    cells = flat(cells)
                    continue
                if isinstance(x, Rn) and x.chars & chars and not x.chars <= chars:
                    cells = cells[:-1] + strip_run(x, chars)
                    break
                if not inset(x, chars):
                    break
                cells = cells[:-1]
        return mk(cells)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _map(self, f):
        out = []
        for x in self.cells():
            if isinstance(x, Lz):
                raise Unsupported("case of an arbitrary text")
            if isinstance(x, Ch):
                out.append(Ch(f(x.c)))
            elif isinstance(x, Cl):
                s = frozenset(f(ch) for ch in x.chars)
                if s == x.chars and all(f(ch) == ch for ch in x.chars):
                    out.append(x)
                else:
                    # keep the correspondence by splitting cases
                    v = one(x)
                    out.append(Ch(f(v)))
            elif isinstance(x, Rn):
                if all(f(ch) == ch for ch in x.chars):
                    out.append(x)
                else:
                    out.append(Rn(frozenset(f(ch) for ch in x.chars), x.n))
            else:
                out.append(x)
        return mk(out)

    def upper(self):
        return self._map(lambda ch: ch.upper())

    def lower(self):
        return self._map(lambda ch: ch.lower())

    def _re(self, how, pat, *a):
        from . import symre, strre
        return getattr(strre, how)(symre.compile(pat), self, *a)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        import re
        return self._re('match', re.escape(p)) is not None

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        import re
        return self._re('search', '(?:%s)\\Z' % re.escape(p)) is not None

    def find(self, p, *a):
        import re
        m = self._re('search', re.escape(p), *a)
        return -1 if m is None else m.start()

    def index(self, p, *a):
        r = self.find(p, *a)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def partition(self, p):
        import re
        m = self._re('search', re.escape(p))
        if m is None:
            return (self, '', '')
        return (self[:m.start()], p, self[m.end():])

    def replace(self, a, b, count=0):
        import re
        from . import symre, strre
        return strre.sub(symre.compile(re.escape(a)), (lambda m: b), self, count)

    def split(self, sep=None, maxsplit=-1):
        import re
        from . import symre, strre
        if sep is None:
            t = self.strip()
            return [] if not t else (t.split() if isinstance(t, str) else strre.split(symre.compile(r'\s+'), t))
        return strre.split(symre.compile(re.escape(sep)), self)

    def isdigit(self):
        return bool(self) and self._re('fullmatch', '[0-9]+') is not None

    def isspace(self):
        return bool(self) and self._re('fullmatch', r'\s+') is not None

    def isalpha(self):
        return bool(self) and self._re('fullmatch', '[A-Za-z]+') is not None

    def encode(self, *a):
        raise Unsupported("encoded symbolic text")

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("symbolic text: .%s" % n)

    # ---- counterexamples
    def concrete(self, model):
        return ''.join(concrete_cell(x, model) for x in self._cells)


def concrete_cell(x, model):
    def num(v):
        if not isinstance(v, Num):
            return int(v)
        if v.q is not None:
            return int(v.q)
        return model.eval(v.t, model_completion=True).as_long()
    if x.expanded is not None:
        return ''.join(concrete_cell(y, model) for y in x.expanded)
    if isinstance(x, Ch):
        return x.c
    if isinstance(x, Cl):
        return str(num(x.val)) if x.val is not None else nice(x.chars)
    if isinstance(x, Rn):
        n = max(1, min(num(x.n), 40))
        if x.val is not None:
            s = str(num(x.val))
            return s if x.canon else s.zfill(n)
        return nice(x.chars) * min(n, 6)
    if isinstance(x, Fx):
        v = num(x.n)
        s = str(abs(v)).zfill(x.prec + 1)
        if x.prec:
            s = s[:-x.prec] + '.' + s[-x.prec:]
            if x.stage >= 1:
                s = s.rstrip('0')
            if x.stage >= 2:
                s = s.rstrip('.')
        return ('-' if v < 0 else '') + s
    return ''


def nice(chars):
    for p in ' aA1x':
        if p in chars:
            return p
    return sorted(chars)[0]


def diff(a, b):
    """a - b as an int when it is one for certain, else a Num"""
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    d = (a if isinstance(a, Num) else Num(q=Fraction(a))) - b
    if d.q is not None:
        return int(d.q)
    t = d.t
    for v, w in sym.ctx().lengths:
        t = z3.substitute(t, (v, w))
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return int(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    return d


def one(x):
    """case split a Cl over its characters"""
    ch = sym.ctx().pick(sorted(x.chars))
    x.refine([ch])
    x.expanded = [Ch(ch)]
    return ch


def inset(x, chars):
    """is the (first) character of the cell in the set: case split if it may be either"""
    if isinstance(x, Ch):
        return x.c in chars
    if x.chars <= chars:
        return True
    if not (x.chars & chars):
        return False
    if isinstance(x, Cl):
        if sym.ctx().pick([True, False]):
            x.refine(x.chars & chars)
            return True
        x.refine(x.chars - chars)
        return False
    raise Unsupported("test distinguishes the characters of a run")


def split_run(x):
    """first character of a run, and the rest (case split: is there a rest)"""
    c = sym.ctx()
    first = Cl(x.chars)
    if x.chars <= DIGITS:
        d = c.fresh('d', True)
        c.add(z3.And(d.t >= 0, d.t <= 9))
        first.val = d
    if isinstance(x.n, int):
        if x.n == 1:
            more = False
        else:
            more = True
    else:
        more = bool(c.le(2, x.n))
        if not more:
            same_length(x.n, 1)
    if not more:
        if x.val is not None and first.val is not None:
            c.assume(c.eq(x.val, first.val))
        if x.frac is not None:
            c.assume(c.eq(x.frac * 10, first.val))
        return [first], []
    rest = Rn(x.chars, x.n - 1)
    if x.frac is not None or x.val is not None:
        rest.frac = c.fresh('f')
        c.add(z3.And(rest.frac.t >= 0, rest.frac.t < 1))
        if x.frac is not None:
            c.assume(c.eq(x.frac * 10, first.val + rest.frac))
    return [first], [rest]


def strip_run(x, chars):
    """what is left of a run when trailing characters of the set are stripped"""
    c = sym.ctx()
    if x.val is not None and chars == frozenset('0') and x.canon:
        # the number loses its trailing zeros
        if c.sure(c.eq(x.val, 0)):
            return []
        if c.sure(c.Not(c.eq(x.val % 10, 0))):
            return [x]
        v = c.fresh('v', True)
        c.add(z3.And(v.t >= 1))
        c.assume(c.le(v * 10, x.val))
        n = c.fresh('n', True)
        c.add(n.t >= 1)
        return [Rn(x.chars, n, val=v, canon=True)]
    raise Unsupported("strip distinguishes the characters of a run")


def equal(a, b):
    """content equality -> bool or SymBool"""
    c = sym.ctx()
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    def raw(t):
        return list(t._cells) if isinstance(t, SText) else cells_of(t)
    x, y = raw(a), raw(b)
    # numbers as a whole first, whatever notation they turned out to have
    if len(x) == len(y) and all(p is q or (isinstance(p, Ch) and isinstance(q, Ch)) or samekind(p, q, x[i + 1:], y[i + 1:]) for i, (p, q) in enumerate(zip(x, y))):
        cond = True
        for p, q in zip(x, y):
            if p is q:
                continue
            if isinstance(p, Ch):
                if p.c != q.c:
                    return False
                continue
            cond = c.And(cond, same_number(p, q))
        return cond
    cond = True
    while True:
        x, y = flat(x), flat(y)
        if not x and not y:
            return cond
        if not x or not y:
            z = (x or y)[0]
            if isinstance(z, Lz):
                expand(z)
                continue
            return False
        p, q = x[0], y[0]
        if p is q:
            x, y = x[1:], y[1:]
            continue
        if samekind(p, q, x[1:], y[1:]):
            cond = c.And(cond, same_number(p, q))
            x, y = x[1:], y[1:]
            continue
        if isinstance(p, (Fx, Lz)):
            expand(p)
            continue
        if isinstance(q, (Fx, Lz)):
            expand(q)
            continue
        if isinstance(p, Rn) and isinstance(q, Rn):
            if p.val is not None and q.val is not None and p.canon and q.canon and edge(x[1:], DIGITS) and edge(y[1:], DIGITS):
                cond = c.And(cond, c.eq(p.val, q.val))
                x, y = x[1:], y[1:]
                continue
            if not (p.chars & q.chars):
                return False
            raise Unsupported("equality of two runs")
        if isinstance(p, Rn) or isinstance(q, Rn):
            r, o = (p, q) if isinstance(p, Rn) else (q, p)
            oc = frozenset(o.c) if isinstance(o, Ch) else o.chars
            if not (r.chars & oc):
                return False
            h, t = split_run(r)
            r.expanded = h + t
            continue
        pc = frozenset(p.c) if isinstance(p, Ch) else p.chars
        qc = frozenset(q.c) if isinstance(q, Ch) else q.chars
        if not (pc & qc):
            return False
        if len(pc) == 1 and len(qc) == 1:
            x, y = x[1:], y[1:]
            continue
        pv, qv = getattr(p, 'val', None), getattr(q, 'val', None)
        if isinstance(p, Ch) and p.c in DIGITS:
            pv = int(p.c)
        if isinstance(q, Ch) and q.c in DIGITS:
            qv = int(q.c)
        if pv is not None and qv is not None:
            cond = c.And(cond, c.eq(pv, qv))
            x, y = x[1:], y[1:]
            continue
        for z in (p, q):
            if isinstance(z, Cl):
                one(z)
    return cond


def samekind(p, q, after_p, after_q):
    return isinstance(p, Fx) and isinstance(q, Fx) and (p.prec, p.stage) == (q.prec, q.stage) and edge(after_p) and edge(after_q)


def same_number(p, q):
    """the two numbers are written alike (a negative zero has its sign)"""
    c = sym.ctx()
    a = p.neg if p.neg is not None else c.lt(p.n, 0)
    b = q.neg if q.neg is not None else c.lt(q.n, 0)
    return c.And(c.eq(p.n, q.n), c.Or(c.Not(c.eq(p.n, 0)), c.Iff(a, b)))


def edge(rest, more='0123456789.'):
    """the next character cannot continue a number"""
    if not rest:
        return True
    z = rest[0]
    if isinstance(z, Ch):
        return z.c not in more
    if isinstance(z, (Cl, Rn)):
        return not (z.chars & frozenset(more))
    return False


# ------------------------------------------------------------------ construction used by rt
def opaque(x=None):
    return Opaque()


def concat(parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    if any(isinstance(p, Opaque) for p in parts):
        return Opaque()
    out = []
    for p in parts:
        out += cells_of(p)
    return mk(out)


def join(sep, items):
    out = []
    for i, x in enumerate(items):
        if not (isinstance(x, str) or getattr(type(x), '_pyvc_sstr', False)):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            out.append(sep)
        out.append(x)
    return concat(out)


def from_number(x, conv, prec=None):
    c = sym.ctx()
    if conv in 'di':
        v = c.trunc(x)
        return mk([In(v)]) if isinstance(v, Num) and v.q is None else str(int(v.q if isinstance(v, Num) else v))
    if conv in 'fF':
        prec = 6 if prec is None else prec
        n = scaled(x, prec)
        neg = getattr(x, 'neg', None)       # sign bit, where known
        return mk([Fx(n, prec, 0, c.lt(x, 0) if neg is None else neg)])
    return Opaque()


def scaled(x, prec):
    """nearest integer to x * 10**prec (ties: either)"""
    c = sym.ctx()
    y = sym.toreal(x) * Num(q=Fraction(10 ** prec))
    if y.q is None:
        t = z3.simplify(y.t)
        if z3.is_to_real(t):
            return Num(t=t.arg(0), isint=True)
        # m/10**k times 10**prec
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and z3.is_to_real(t.arg(1)):
            q = Fraction(t.arg(0).numerator_as_long(), t.arg(0).denominator_as_long())
            if q.denominator == 1:
                return Num(t=t.arg(1).arg(0) * int(q), isint=True)
        y = Num(t=t)
    return c._round0(y)


def contains(a, b):
    """a in b"""
    import re
    from . import symre, strre
    if isinstance(b, Opaque) or isinstance(a, Opaque):
        raise Unsupported("opaque text membership")
    if isinstance(a, str):
        if a == '':
            return True
        return strre.search(symre.compile(re.escape(a)), b) is not None
    if isinstance(b, str):
        cs = a.cells()
        if len(cs) == 1 and isinstance(cs[0], Cl):
            return inset(cs[0], frozenset(b))
        if len(cs) == 0:
            return True
    if not isinstance(b, (str, SText)):
        for y in b:
            if y == a:
                return True
        return False
    raise Unsupported("symbolic text in symbolic text")


def lift(obj, name, args):
    if name in ('startswith', 'endswith', 'find', 'index', 'count', 'split', 'partition', 'replace', 'strip', 'rstrip', 'lstrip'):
        raise Unsupported("str.%s with symbolic text" % name)
    raise Unsupported("str.%s" % name)


def s_ord(x):
    raise Unsupported("ord of symbolic text")


# ------------------------------------------------------------------ reading numbers
def to_number(s, how):
    """float(text) / int(text)"""
    c = sym.ctx()
    if isinstance(s, Opaque):
        raise Unsupported("number from opaque text")

    def bad():
        raise ValueError("could not convert string to %s" % how)
    t = s.strip()
    if isinstance(t, str):
        from . import rt
        return rt.to_float(t) if how == 'float' else int(t)
    cells = t.cells()
    if len(cells) == 1 and isinstance(cells[0], Fx):
        x = cells[0]
        if how == 'float':
            return x.value()
        if x.prec == 0:
            return x.n
    # a number written behind zeros
    if how == 'float' and isinstance(cells[-1], Fx) and all(isinstance(x, Ch) and x.c == '0' for x in cells[:-1]):
        x = cells[-1]
        neg = x.neg if x.neg is not None else c.lt(x.n, 0)
        if c.sure(neg):
            bad()
        return x.value()
    while any(isinstance(x, (Fx, Lz)) for x in cells):
        for x in cells:
            if isinstance(x, (Fx, Lz)):
                expand(x)
        cells = flat(cells)
    i = 0
    sign = 1
    if cells and isinstance(cells[0], Rn) and cells[0].chars & frozenset('+-'):
        h, t = split_run(cells[0])
        cells[0].expanded = h + t
        cells = flat(cells)
    if cells and inset(cells[0], frozenset('+-')):
        if isinstance(cells[0], Cl):
            one(cells[0])
            cells = flat(cells)
        sign = -1 if cells[0].c == '-' else 1
        i = 1
    ip, nd = 0, 0
    while i < len(cells) and inset(cells[i], DIGITS):
        ip = add_digits(ip, cells[i], nd)
        nd += 1
        i += 1
    v = ip
    if i < len(cells) and how == 'float' and inset(cells[i], frozenset('.')):
        i += 1
        f, nf, scale = Num(q=Fraction(0)), 0, Fraction(1)
        while i < len(cells) and inset(cells[i], DIGITS):
            x = cells[i]
            if scale is None:
                raise Unsupported("digits behind an unbounded run")
            if isinstance(x, Rn):
                f = f + fracval(x) * Num(q=scale)
                scale = None
            else:
                scale = scale / 10
                f = f + digit(x) * Num(q=scale)
            nf += 1
            i += 1
        if not nd and not nf:
            bad()
        v = sym.toreal(v if isinstance(v, Num) else Num(q=Fraction(v))) + f
    elif not nd:
        bad()
    if i < len(cells):
        if not inset(cells[i], frozenset('eE_')):
            bad()
        raise Unsupported("exponent or underscore in a number")
    r = v * sign if sign != 1 else v
    if how == 'float':
        r = sym.toreal(r if isinstance(r, Num) else Num(q=Fraction(r)))
        if sign == -1:
            r = Num(q=r.q, t=r.t)
            r.neg = True
    return r


def digit(x):
    c = sym.ctx()
    if isinstance(x, Ch):
        return int(x.c)
    if x.val is None:
        d = c.fresh('d', True)
        c.add(z3.And(d.t >= 0, d.t <= 9))
        x.val = d
        if len(x.chars) < 10:
            x.refine(x.chars)
    return x.val


def intval(x):
    """number spelt by a digit run"""
    c = sym.ctx()
    if x.val is None:
        v = c.fresh('v', True)
        c.add(v.t >= 0)
        x.val = v
    return x.val


def fracval(x):
    """number spelt by a digit run behind a decimal point"""
    c = sym.ctx()
    if x.frac is None:
        f = c.fresh('f')
        c.add(z3.And(f.t >= 0, f.t < 1))
        if x.val is not None:
            c.add((f.t == 0) == (x.val.t == 0) if x.val.q is None else z3.BoolVal(True))
        x.frac = f
    return x.frac


def add_digits(v, x, nd):
    if isinstance(x, Rn):
        if nd and not (isinstance(v, int) and v == 0):
            raise Unsupported("unbounded run behind other digits")
        return intval(x)
    return v * 10 + digit(x)


class Reader(object):
    """left to right reading for oracles: same interface as api.Reader on str"""
    def __init__(self, t):
        self.rest = cells_of(t)
        self.done = []

    def _head(self):
        while self.rest:
            x = self.rest[0]
            if x.expanded is not None or isinstance(x, (Lz, Fx)):
                expand(x)
                self.rest[0:1] = flat([x])
                continue
            return x
        return None

    def at_end(self):
        return self._head() is None

    def see(self, chars):
        """is the next character one of these"""
        chars = frozenset(chars)
        x = self._head()
        if x is None:
            return False
        if isinstance(x, Rn) and x.chars & chars and not x.chars <= chars:
            h, t = split_run(x)
            x.expanded = h + t
            x = self._head()
        return inset(x, chars)

    def one(self, chars):
        """the next character if it is one of these, else ''"""
        if not self.see(chars):
            return ''
        x = self.rest[0]
        if isinstance(x, Rn):
            h, t = split_run(x)
            x.expanded = h + t
            x = self._head()
        if isinstance(x, Cl) and not x.chars <= DIGITS:
            one(x)
            x = self._head()
        self.done.append(self.rest.pop(0))
        return mk([x])

    def run(self, chars):
        """all following characters of the set"""
        out = []
        while self.see(chars):
            out.append(self.rest.pop(0))
        self.done += out
        return mk(out)

    def tail(self):
        out, self.rest = self.rest, []
        self.done += out
        return mk(out)

    def pos(self):
        """number of characters read"""
        return total(self.done)

    def mark(self):
        return (list(self.done), list(self.rest))

    def reset(self, m):
        self.done, self.rest = list(m[0]), list(m[1])


# ------------------------------------------------------------------ inputs (PathCtx side; api.Conc has the same methods on str)
def reg(c, name, t):
    c.inputs[name] = ('text', t if isinstance(t, SText) else SText(cells_of(t)))
    return t


def run(c, name, chars, digits=False):
    n = c.fresh('n', True)
    c.add(n.t >= 1)
    return reg(c, name, SText([Rn(frozenset(chars), n)]))


def char(c, name, chars):
    return reg(c, name, SText([Cl(chars)]))


def decimal(c, name, prec=3):
    """number with up to `prec` decimals, shortest notation -> (text, value)"""
    n = c.int(name)
    x = Fx(n, prec, 2)
    return mk([x]), x.value()


def lazy(c, name, options):
    return reg(c, name, SText([Lz(options)]))
