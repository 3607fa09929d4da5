from pyvc.api import Spec
from .common import *

SPEC = Spec('C26')
ob = SPEC.ob
NUM = 'ABCDEFGHIJKMPQRSUVWXYZ'
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
TEXTS = ['0', '1', '01', '12', '2', '10']


def word(c, name, letters=LETTERS, lower=False):
    l = c.choice(name + '.letter', letters)
    if l in 'LN':
        v = c.int(name + '.int')
    elif l in 'TO':
        v = c.choice(name + '.text', TEXTS)
    else:
        v = c.real(name + '.value')
    w = c.pg.words.Word(l.lower() if lower else l, v)
    return w, l, v


def vlt(c, l, a, b):
    return a < b


def veq(c, l, a, b):
    return a == b


@ob('equality', functions=['words:Word.__eq__', 'words:Word.__ne__', 'words:Word.__init__'], covers=['equal', 'different'])
def equality(c):
    a, la, va = word(c, 'a')
    b, lb, vb = word(c, 'b')
    eq, ne = bool(a == b), bool(a != b)
    c.cover('equal' if eq else 'different')
    if la != lb:
        c.check('different letters are different words', not eq)
    else:
        c.check('equal exactly when values are equal', c.Iff(eq, veq(c, la, va, vb)))
    c.check('!= is the negation', eq != ne)
    c.check('symmetric', bool(b == a) == eq)
    c.check('reflexive', bool(a == a))
    if not c.symbolic and eq:
        c.check('equal words have equal hashes', hash(a) == hash(b))
        c.check('equal words are one dictionary key', len({a: 1, b: 2}) == 1)


@ob('order', functions=['words:Word.__lt__', 'words:Word.__le__', 'words:Word.__gt__', 'words:Word.__ge__'])
def order(c):
    a, la, va = word(c, 'a')
    b, lb, vb = word(c, 'b')
    lt, le, gt, ge = bool(a < b), bool(a <= b), bool(a > b), bool(a >= b)
    if la != lb:
        c.check('by letter first', lt == (la < lb) and gt == (la > lb))
    else:
        c.check('then by value', c.Iff(lt, vlt(c, la, va, vb)))
        c.check('greater', c.Iff(gt, vlt(c, la, vb, va)))
    c.check('<= is not >', le == (not gt))
    c.check('>= is not <', ge == (not lt))
    eq = bool(a == b)
    c.check('total: exactly one of <, ==, >', (1 if lt else 0) + (1 if gt else 0) + (1 if eq else 0) == 1)


@ob('transitive', functions=['words:Word.__lt__'])
def transitive(c):
    a, la, va = word(c, 'a', 'XGNT')
    b, lb, vb = word(c, 'b', 'XGNT')
    d, ld, vd = word(c, 'd', 'XGNT')
    if bool(a < b) and bool(b < d):
        c.check('order is transitive', bool(a < d))
    if bool(a == b) and bool(b == d):
        c.check('equality is transitive', bool(a == d))
    c.check('done', True)


@ob('hash', functions=['words:Word.__hash__'], sym=False)
def hashes(c):
    l = c.obj('l', lambda r: r.choice(NUM))
    v = c.obj('v', lambda r: r.choice([0, 1, -1, 2.5, 10, 90.1, 1e9, r.uniform(-9, 9), r.randint(-5, 5)]))
    W = c.pg.words.Word
    forms = [W(l, v), W(l.lower(), v), W(l, float(v)), W(l, repr(float(v)))] + ([W('%s%r' % (l, float(v)))] if 'e' not in repr(float(v)) else [])
    if v == 0:
        forms += [W(l, -0.0), W(l, '-0')]
    if v == int(v):
        forms.append(W(l, int(v)))
    for x in forms:
        for y in forms:
            c.check('equal words', x == y and not (x != y))
            c.check('equal words have equal hashes', hash(x) == hash(y))
    c.check('one dictionary key', len(set(forms)) == 1)
    n = W('N', 7)
    c.check('integer letters', hash(W('n', '7')) == hash(n) and W('N7') == n and len({n, W('N', '07'), W('N', 7.0)}) == 1)


@ob('letter case', functions=['words:Word.__init__'])
def case(c):
    l = c.choice('l', LETTERS)
    v = c.int('i') if l in 'LN' else (c.choice('t', TEXTS) if l in 'TO' else c.real('v'))
    a, b = c.pg.words.Word(l, v), c.pg.words.Word(l.lower(), v)
    c.check('lower case is upper case', bool(a == b) and a.letter == b.letter == l)
    c.check('neither sorts before the other', not bool(a < b) and not bool(b < a))
    c.check('value kept', veq(c, l, a.value, v))


@ob('text operand', functions=['words:Word.__eq__', 'words:str2word'])
def text(c):
    """compared with text: the text is parsed first"""
    t = c.choice('text', [('X1', 'X', 1.0), ('x1.0', 'X', 1.0), ('X-.5', 'X', -0.5), ('G01', 'G', 1.0), ('g1', 'G', 1.0), ('G 38.2', 'G', 38.2), ('N010', 'N', 10), ('T01', 'T', '01'),
                          (' Y 2 ', 'Y', 2.0), ('M3', 'M', 3.0), ('L2', 'L', 2)])
    a, la, va = word(c, 'a', 'XGNTYML')
    eq = bool(a == t[0])
    if la != t[1]:
        c.check('different letter', not eq)
    else:
        c.check('equal exactly when the parsed word is', c.Iff(eq, va == t[2]))
    c.check('!= is the negation', bool(a != t[0]) == (not eq))


@ob('value assignment', functions=['words:Word.value'])
def values(c):
    """a changed word compares by its new value"""
    l = c.choice('l', 'XGFP')
    a, b = c.real('a'), c.real('b')
    w = c.pg.words.Word(l, a)
    o = c.pg.words.Word(l, c.real('other'))
    # used in every way before
    if c.bool('used'):
        c.check('compared before', c.Iff(bool(w == o), w.value == o.value))
        bool(w < o), str(w) if not c.symbolic else None
        if not c.symbolic:
            hash(w), repr(w)
    w.value = b
    c.check('value read back', c.eq(w.value, b))
    c.check('compared by the new value', c.And(c.Iff(bool(w == o), b == o.value), c.Iff(bool(w < o), b < o.value)))
    if not c.symbolic:
        c.check('hash of the new value', hash(w) == hash(c.pg.words.Word(l, b)))
    c.check('equal to a word of that value', bool(w == c.pg.words.Word(l, b)))
    c.check('letter kept', w.letter == l)


@ob('to a dictionary', functions=['words:words2dict'], kind='bounded', bound='lists of up to 4 words over 4 letters')
def dictionary(c):
    n = c.choice('n', [0, 1, 2, 3, 4])
    ws, last = [], {}
    ls = []
    W = c.pg.words.Word
    for i in range(n):
        l = c.choice('l%d' % i, 'XYGT' if n < 4 else 'XYG')
        v = '%d' % i if l == 'T' else c.real('v%d' % i)
        ws.append(W(l, v))
        ls.append((l, v))
    limit = c.choice('limit', [None, 'X', 'XY', 'GZ', '', 'list'])
    lim = ['X', 'T'] if limit == 'list' else limit
    d = c.pg.words.words2dict(ws) if limit is None else c.pg.words.words2dict(ws, limit_word_letters=lim)
    for l, v in ls:
        if lim is None or l in lim:
            last[l] = v
    c.check('each allowed letter once', set(d) == set(last))
    for l in d:
        c.check('last value of the letter', d[l] == last[l] if l == 'T' else c.eq(d[l], last[l]))
    c.check('words untouched', len(ws) == n)


@ob('sorting', functions=['words:Word.__lt__'], sym=False)
def sorting(c):
    ws = c.obj('words', lambda r: [(r.choice('XYGZA'), round(r.uniform(-3, 3), 1)) for _ in range(r.randint(0, 8))])
    W = c.pg.words.Word
    s = sorted(W(l, v) for l, v in ws)
    c.check('sorted by letter then value', [(w.letter, w.value) for w in s] == sorted((l, v) for l, v in ws))
