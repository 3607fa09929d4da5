"""Words printed and read back"""
from pyvc.api import Spec
from .common import *

SPEC = Spec('C01')
ob = SPEC.ob
FUNCS = ['words:Word.__init__', 'words:Word.__str__', 'words:Word.value_str', 'words:text2words', 'words:str2word', 'dialects.linuxcnc:_clean_decimal', 'dialects.linuxcnc:_clean_codestr']
DECIMAL = 'ABCDEFHIJKPQRSUVWXYZ'
SPEC.assume('the sign of a printed zero is not distinguished ("-0" and "0" are the same number)')


def big(r):
    k = r.random()
    if k < 0.3:
        return r.uniform(-1, 1) * 10 ** r.randint(-8, 25)
    if k < 0.5:
        return r.randint(-10 ** 6, 10 ** 6) / 1000.0 + r.choice([0, 0.0005, -0.0005, 0.00049, 0.00051])
    if k < 0.6:
        return r.choice([0.0, -0.0, 1e-9, -1e-9, 0.0005, -0.0005, 0.001, 1e15, -1e15, 1e16, 1e22, 999999.9995, 100.0, 1000.0, -10.0, 1234567.0])
    return round(r.uniform(-2000, 2000), r.randint(0, 5))


def decimal_ok(c, label, v, w, tol=5e-4):
    """within 0.0005 (plus the resolution of a float of that size)"""
    d = tol if c.symbolic else tol + 1e-9 * (1 + abs(v))
    c.check(label, c.And(c.le(w - v, d), c.le(v - w, d)))


def back(c, text, letter):
    W = list(c.pg.words.text2words(text))
    c.check('exactly one word', len(W) == 1)
    w = W[0]
    c.check('same letter', w.letter == letter)
    one = c.pg.words.str2word(text)
    c.check('str2word agrees', one.letter == letter and one == w)
    return w


@ob('decimal letters', functions=FUNCS)
def decimals(c):
    l = c.choice('letter', DECIMAL)
    v = c.real('value', gen=big)
    t = c.str(c.pg.words.Word(l, v))
    c.check('plain decimal notation', c.fullmatch(r'[A-Z]-?[0-9]+(\.[0-9]{0,2}[1-9])?', t))
    w = back(c, t, l)
    decimal_ok(c, 'value within 0.0005', v, w.value)
    c.check('printed again: the same text', c.str(w) == t)


@ob('G and M codes', functions=FUNCS, covers=['below ten', 'ten and up'])
def codes(c):
    l = c.choice('letter', 'GM')
    n = c.int('tenths', 0, gen=lambda r: r.choice([r.randint(0, 999), r.randint(0, 99), 10 * r.randint(0, 100), r.randint(0, 10 ** 9)]))
    v = n * c.lit(1) / 10
    t = c.str(c.pg.words.Word(l, v))
    c.cover('below ten' if bool(v < 10) else 'ten and up')
    c.check('plain decimal notation, at least two digits', c.fullmatch(r'[GM][0-9][0-9]+(\.[1-9])?', t))
    w = back(c, t, l)
    c.check('value exact', c.eq(w.value, v))
    c.check('printed again: the same text', c.str(w) == t)


@ob('whole number letters', functions=FUNCS)
def wholes(c):
    l = c.choice('letter', 'LN')
    v = c.int('value', 0, gen=lambda r: r.choice([0, r.randint(0, 100), r.randint(0, 10 ** 6), r.randint(0, 10 ** 20)]))
    t = c.str(c.pg.words.Word(l, v))
    c.check('digits only', c.fullmatch(r'[LN][0-9]+', t))
    w = back(c, t, l)
    c.check('value exact', w.value == v)
    c.check('printed again: the same text', c.str(w) == t)


@ob('tool numbers', functions=FUNCS)
def tools(c):
    """T keeps its digits as text, leading zeros included"""
    v = c.run('digits', '0123456789')
    t = c.str(c.pg.words.Word('T', v))
    c.check('printed as given', t == 'T' + v)
    w = back(c, t, 'T')
    c.check('value exact', w.value == v)
    c.check('printed again: the same text', c.str(w) == t)


@ob('word from text', functions=FUNCS)
def from_text(c):
    """Word(text) and Word(letter, text) hold the value the text spells"""
    l = c.choice('letter', DECIMAL + 'GM')
    s, v = c.decimal('value', 3) if l not in 'GM' else c.decimal('value', 1)
    if l in 'GM':
        c.assume(v >= 0)
    a = c.pg.words.Word(l + s)
    b = c.pg.words.Word(l.lower(), s)
    for w in (a, b):
        c.check('letter', w.letter == l)
        c.check('value', c.eq(w.value, v))
    c.check('both print alike', c.str(a) == c.str(b))
    w = back(c, c.str(a), l)
    c.check('reads back exactly', c.eq(w.value, v))


@ob('value assigned after printing', functions=FUNCS + ['words:Word.value'])
def assigned(c):
    """what a word printed before leaves no trace"""
    l = c.choice('letter', 'XFGL')
    if l == 'L':
        a, b = c.int('a', 0), c.int('b', 0)
    elif l == 'G':
        a, b = [c.int(n, 0, gen=lambda r: r.randint(0, 999)) * c.lit(1) / 10 for n in ('a', 'b')]
    else:
        a, b = c.real('a', gen=big), c.real('b', gen=big)
    w = c.pg.words.Word(l, a)
    for k in range(c.choice('printed', [0, 1, 2])):
        c.str(w)
    w.value = b
    t = c.str(w)
    r = back(c, t, l)
    if l == 'X' or l == 'F':
        decimal_ok(c, 'value within 0.0005', b, r.value)
    else:
        c.check('value exact', c.eq(r.value, b))
    c.check('printed as a new word of that value', t == c.str(c.pg.words.Word(l, b)))
