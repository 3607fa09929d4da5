"""The tokeniser: block text to words"""
from pyvc.api import Spec
from .common import *

SPEC = Spec('C02')
ob = SPEC.ob
FUNCS = ['words:text2words', 'words:Word.__init__', 'dialects.linuxcnc:WORD_MAP']
LOOP = 'words:text2words#while0'
ASCII = frozenset(chr(i) for i in range(128)) - frozenset('\n')
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LETTER = frozenset(UPPER + UPPER.lower())
DIGIT = frozenset('0123456789')
SPACE = frozenset(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f')
VISIBLE = ASCII - SPACE
BAD = object()
WHOLE, CODE, REST = 'NLT', 'GM', 'O'
SPEC.assume('text of one line (no line feed), ASCII; float() and int() of a decimal literal give the number it spells')


# ---------------------------------------------------------------- oracle: the first word of a text
def first_word(c, r):
    """-> None (no word follows) | 'bad' | (letter, kind, value); r is left behind the word"""
    r.run(ASCII - LETTER)
    l = r.one(LETTER)
    if not l:
        return None
    l = l.upper()
    if l == REST:
        v = r.tail()
        return ('O', 'text', v.strip()) if v else 'bad'
    sign = 1
    r.run(SPACE)
    if l not in WHOLE + CODE and r.one('-'):
        sign = -1
    ds = r.run(DIGIT)
    if l in WHOLE:
        if not ds:
            return 'bad'
        return (l, 'text', ds) if l == 'T' else (l, 'number', c.number(ds, 'int'))
    if l in CODE:
        if not ds:
            return 'bad'
        v = c.number(ds)
        save = peek_fraction(c, r)
        if save is not None:
            v = v + save
        return (l, 'number', v)
    if ds:
        v = c.number(ds)
        if r.one('.'):
            fs = r.run(DIGIT)
            if fs:
                v = c.number(ds + '.' + fs)
        return (l, 'number', sign * v)
    if r.one('.'):
        fs = r.run(DIGIT)
        if fs:
            return (l, 'number', sign * c.number('0.' + fs))
    return 'bad'


def peek_fraction(c, r):
    """.d behind the digits of a G or M code, if there"""
    if not r.see('.'):
        return None
    mark = r.mark()
    r.one('.')
    d = r.one(DIGIT)
    if d:
        return c.number('0.' + d)
    r.reset(mark)
    return None


def words_of(c, text):
    """all words of a text and whether the text is well formed"""
    r = c.reader(text)
    out = []
    while True:
        mark = r.mark()
        w = first_word(c, r)
        if w is None:
            r.reset(mark)
            while not r.at_end():
                if r.see(VISIBLE):
                    return out, False
                r.run(SPACE)
            return out, True
        if w == 'bad':
            return out, False
        out.append(w)


def same_word(c, w, e):
    (l, kind, v) = e
    c.check('letter, upper case', w.letter == l)
    if kind == 'text':
        c.check('text value', w.value == v)
    else:
        c.check('value of the literal', c.eq(w.value, v))


# ---------------------------------------------------------------- arbitrary text, one cell at a time
CLASSES = [('digits', DIGIT), ('blank', SPACE - frozenset('\n')), ('minus', frozenset('-')), ('point', frozenset('.')),
           ('junk', ASCII - DIGIT - SPACE - LETTER - frozenset('-.'))]


def arbitrary(state, letters):
    """options of the next cell of any text: state = class of the previous cell (None: between words, nothing distinguished)"""
    from pyvc.strs import Ch, Cl, Rn, Lz
    from pyvc import sym

    def run(chars):
        c = sym.ctx()
        n = c.fresh('n', True)
        c.add(n.t >= 1)
        return Rn(chars, n)

    def letter(ch):
        if ch in 'Oo':      # takes the rest of the line
            return lambda: [Ch(ch), Lz(line)]
        return lambda: [Ch(ch), Lz(lambda s: arbitrary(s, letters), 'letter')]

    def line(s):
        vis = lambda: Cl(VISIBLE)
        mids = [lambda: [vis()], lambda: [vis(), vis()], lambda: [vis(), run(ASCII), vis()]]
        pads = [lambda: [], lambda: [run(SPACE - frozenset('\n'))]]
        return [lambda: [], pads[1]] + [(lambda a=a, m=m, b=b: a() + m() + b()) for a in pads for m in mids for b in pads]
    ls = [letter(ch) for ch in letters]
    if state is None:
        # no letter: blanks only, or something visible as well
        blank, vis, any_ = (lambda: run(SPACE - frozenset('\n'))), (lambda: Cl(VISIBLE - LETTER)), (lambda: run(ASCII - LETTER))
        skips = [lambda: [blank()], lambda: [vis()], lambda: [blank(), vis()], lambda: [vis(), any_()], lambda: [blank(), vis(), any_()]]
        return [lambda: []] + ls + skips + [lambda: [any_(), Lz(lambda s: arbitrary(s, letters), 'skipped')]]
    if state == 'skipped':
        return ls

    def cls(name, chars):
        return lambda: [run(chars), Lz(lambda s: arbitrary(s, letters), name)]
    # behind the first letter, further letters need not be told apart
    more = lambda: [Cl(LETTER), Lz(lambda s: arbitrary(s, letters), 'letter')]
    return [lambda: [], more] + [cls(n, ch) for n, ch in CLASSES if n != state]


def sample_text(r):
    out = []
    for _ in range(r.randint(0, 6)):
        k = r.random()
        if k < 0.75:
            num = r.choice(['%d' % r.randint(0, 99), '%.3f' % r.uniform(-50, 50), '.5', '-.25', '1.', '-1.', '007', '0', '38.2', '59.3', '61.1', '64.12', '-0', '1.2.3', '5-3', '', '-', '.', '--1', '-5'])
            out.append(r.choice(UPPER.replace('O', '') + 'GMXYZNT' + 'gxyzm') + r.choice(['', '', '', ' ', '  ', '\t']) + num)
        elif k < 0.8:
            out.append(r.choice('Oo') + r.choice(['1000', 'name X1', '', ' ', '1 G0']))
        elif k < 0.9:
            out.append(r.choice([' ', '  ', '\t', '\r', '']))
        else:
            out.append(''.join(chr(r.choice([r.randint(33, 126), r.randint(0, 127), 45, 46])) for _ in range(r.randint(1, 4))).replace('\n', ''))
    return r.choice(['', '', ' ']).join(out) + r.choice(['', '', ' ', '\r'])


def oracle_matches(c, text, fn):
    E, ok = words_of(c, text)
    try:
        W = list(fn(text))
    except c.pg.exceptions.GCodeWordStrError:
        c.check('refused only if malformed', not ok)
        c.cover('refused')
        return
    c.check('accepted only if well formed', ok)
    c.cover('accepted')
    c.check('one word per letter', len(W) == len(E))
    for w, e in zip(W, E):
        same_word(c, w, e)


@ob('an arbitrary step of the scan', functions=FUNCS, covers=['word', 'end', 'refused'])
def step(c):
    """arbitrary text, scanned up to an arbitrary point: the next word, the end or the error is that of the rest"""
    if not c.symbolic:
        t = c.lazy('text', None, gen=sample_text)
        for x in ('word', 'end', 'refused'):
            c.cover(x)
        return oracle_matches(c, t, c.pg.words.text2words)
    from pyvc.strs import SText, Rn, Lz, mk, reg, diff
    from pyvc.loops import LoopSpec
    letters = c.choice('letters', [''.join(sorted(x)) for x in ('ABCDEFH', 'IJKPQRS', 'UVWXYZ', 'gGmM', 'LNTO', 'abcdefh', 'ijkpqrs', 'uvwxyz', 'lnto')])
    rest = SText([Lz(lambda s: arbitrary(s, letters), None)])
    if c.bool('first'):
        prefix, n0 = [], 0
    else:
        n0 = c.fresh('n', True)
        c.add(n0.t >= 1)
        prefix = [Rn(ASCII, n0)]
    text = SText(prefix + rest._cells)
    reg(c, 'text', text)
    G = {'index': n0}

    class Scan(LoopSpec):
        name = 'scan'
        calls = 0

        def havoc(self, c, L, k):
            return {'index': n0}

        def inv(self, c, L, k):
            self.calls += 1
            if self.calls == 1:
                yield ('starts at the beginning', c.eq(L['index'], 0))
            else:
                yield ('goes on right behind the word', c.eq(L['index'], G['index']))

        def variant(self, c, L):
            return L['index']

        def decreases(self, c, a, b):
            return c.lt(a, b)
    c.loops[LOOP] = Scan()
    E = c.pg.exceptions.GCodeWordStrError
    gen = c.pg.words.text2words(text)
    try:
        w = next(gen)
    except StopIteration:
        w = None
    except E:
        w = BAD
    r = c.reader(rest)
    e = first_word(c, r)
    if w is BAD or w is None:
        blank = e is None and not visible(c, rest)
        if w is None:
            c.check('ends only where nothing is left', blank)
            c.cover('end')
        else:
            c.check('refused only if malformed', e == 'bad' or (e is None and not blank))
            c.cover('refused')
        return
    c.check('a word only where there is one', isinstance(e, tuple))
    c.cover('word')
    same_word(c, w, e)
    G['index'] = n0 + r.pos()
    try:
        next(gen)
    except StopIteration:
        pass
    c.check('the loop goes on', False)


def visible(c, text):
    r = c.reader(text)
    while not r.at_end():
        if r.see(VISIBLE):
            return True
        r.run(SPACE)
    return False


@ob('whole texts', functions=FUNCS, kind='sample', weight=3, covers=['accepted', 'refused'])
def whole(c):
    t = c.obj('text', sample_text)
    oracle_matches(c, t, c.pg.words.text2words)


@ob('case and blanks', functions=FUNCS, kind='sample')
def insensitive(c):
    """letter case and blanks between words, letters and numbers make no difference"""
    def gen(r):
        return [[r.choice('GMXYZNFSTPQRLIJKABC'), r.randint(0, 99)] for _ in range(r.randint(0, 5))] + [r.randint(0, 10 ** 6)]
    d = c.obj('words', gen)
    import random
    r = random.Random(d[-1])
    ws = d[:-1]
    plain = ''.join('%s%d' % (l, v) for l, v in ws)
    spaced = ''.join(r.choice(['', ' ', '\t', '  ']) + r.choice([l, l.lower()]) + r.choice(['', ' ', '   ', '\t']) + '%d' % v for l, v in ws) + r.choice(['', ' '])
    A, B = list(c.pg.words.text2words(plain)), list(c.pg.words.text2words(spaced))
    c.check('same words', len(A) == len(B) == len(ws) and all(a.letter == b.letter and str(a.value).strip() == str(b.value).strip() for a, b in zip(A, B)))


@ob('one word from text', functions=['words:str2word'], kind='sample')
def single(c):
    t = c.obj('text', lambda r: r.choice([sample_text(r), 'X1', 'G0X1', '', ' ', 'x-1.5', 'N3', 'junk', '5', 'X']))
    E, ok = words_of(c, t)
    try:
        w = c.pg.words.str2word(t)
    except c.pg.exceptions.GCodeWordStrError:
        c.check('refused only if malformed or several words', not ok or len(E) > 1)
        return
    c.check('accepted only if well formed', ok and len(E) <= 1)
    if E:
        same_word(c, w, E[0])
    else:
        c.check('nothing: None', w is None)
