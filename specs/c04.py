from pyvc.api import Spec
from .common import *
from .tables import CODES, LETTERS, row

SPEC = Spec('C04')
SPEC.level = 'other'     # the core of the property is discharged up to the stated bounds only
ob = SPEC.ob
E_CODES = [('G', 1), ('G', 2), ('G', 4), ('G', 83), ('G', 76), ('G', 90), ('G', 96), ('G', 43), ('G', 10), ('G', 80), ('M', 3), ('M', 6), ('M', 66), ('M', 67), ('G', 5), ('G', 41)]
E_SET = [('F', 12.5), ('S', 900.0), ('T', '3'), ('N', 8)]
E_NOT = [('G', 999), ('M', 199), ('G', 38.7)]
E_PAR = ['X', 'Y', 'P', 'Q', 'R', 'L', 'D', 'E', 'H', 'I', 'J', 'K']


def accepts(letter, value):
    """parameter letters of the code the word identifies, None if it identifies none"""
    r = row(letter, value) if letter in 'GM' else (row(letter, 7) if letter in 'FSTNO' else None)
    return None if r is None else r[5]


def group(ws):
    """the specification: left to right; a word belongs to the nearest code before it that accepts its letter, else defines a code, else is unassigned.
    -> (codes: [(index, [param indices])], unassigned indices, error)"""
    codes, loose = [], []
    for i, (l, v) in enumerate(ws):
        home = None
        for k in range(len(codes) - 1, -1, -1):
            if l in codes[k][2]:
                home = codes[k]
                break
        if home is not None:
            home[1].append(i)
            continue
        a = accepts(l, v)
        if a is None:
            loose.append(i)
        else:
            codes.append((i, [], a))
    bad = any(len(set(ws[j][0] for j in ps)) < len(ps) for _, ps, _ in codes)
    return [(i, ps) for i, ps, _ in codes], loose, bad


def judge(c, ws):
    W = c.pg.words.Word
    words = [W(l, v) for l, v in ws]
    given = list(words)
    codes, loose, bad = group(ws)
    try:
        gs, rest = c.pg.gcodes.words2gcodes(given)
    except c.pg.exceptions.GCodeParameterError:
        c.check('refused exactly when one code would get a letter twice', bad)
        return
    c.check('refused exactly when one code would get a letter twice', not bad)
    c.check('one code per defining word, in text order', [id(g.word) for g in gs] == [id(words[i]) for i, _ in codes])
    for g, (i, ps) in zip(gs, codes):
        c.check('parameters of the code', set(g.params) == set(ws[j][0] for j in ps) and all(g.params[ws[j][0]] is words[j] for j in ps))
        r = row(ws[i][0], ws[i][1] if ws[i][0] in 'GM' else 7)
        c.check('right kind of code', type(g).__name__ == r[2])
    c.check('the others are returned unassigned, in order', [id(w) for w in rest] == [id(words[i]) for i in loose])
    c.check('input not modified', len(given) == len(words) and all(a is b for a, b in zip(given, words)))


def item(c, name, pool):
    e = c.choice(name, pool)
    if isinstance(e, tuple):
        return e
    return (e, c.int(name + '.v', 0, 9) if e == 'L' else c.real(name + '.v'))


@ob('up to two words', functions=['gcodes:words2gcodes', 'gcodes:word_gcode_class', 'gcodes:GCode.add_parameter'], kind='bounded', bound='all lists of up to 2 words over 35 representative words, parameter values symbolic')
def two(c):
    pool = E_CODES + E_SET + E_NOT + E_PAR
    n = c.choice('n', [0, 1, 2])
    judge(c, [item(c, 'w%d' % i, pool) for i in range(n)])


@ob('three words', functions=['gcodes:words2gcodes'], kind='bounded', bound='all lists of 3 words over 20 representative words')
def three(c):
    pool = [('G', 1), ('G', 2), ('G', 4), ('G', 83), ('G', 96), ('M', 6), ('M', 67), ('G', 90), ('F', 12.5), ('S', 900.0), ('T', '3'), ('N', 8), ('G', 999), 'X', 'P', 'Q', 'R', 'D', 'I', 'E']
    judge(c, [item(c, 'w%d' % i, pool) for i in range(3)])


@ob('four words', functions=['gcodes:words2gcodes'], kind='bounded', bound='all lists of 4 words over 9 representative words')
def four(c):
    pool = [('G', 1), ('G', 96), ('G', 4), ('M', 6), ('S', 900.0), ('T', '3'), 'X', 'P', 'D']
    judge(c, [item(c, 'w%d' % i, pool) for i in range(4)])


@ob('every code, every letter', functions=['gcodes:words2gcodes'])
def every(c):
    """code word followed by one word of each letter"""
    r = c.choice('code', CODES)
    l = c.choice('letter', 'ABCDEFGHIJKLMNPQRSTUVWXYZ')
    v = {'G': 90, 'M': 8, 'N': 3, 'T': '4'}.get(l)
    if v is None:
        v = c.int('v', 0, 9) if l == 'L' else c.real('v')
    judge(c, [(r[0], r[1]), (l, v), ('X', c.real('x'))])


@ob('long lists', functions=['gcodes:words2gcodes'], kind='sample')
def long(c):
    def gen(r):
        pool = [(x[0], x[1]) for x in CODES] + E_SET * 6 + E_NOT * 3
        out = []
        for _ in range(r.randint(0, 14)):
            if r.random() < 0.45:
                out.append(list(r.choice(pool)))
            else:
                l = r.choice('ABCDEFHIJKLPQRSTUVWXYZ')
                out.append([l, str(r.randint(0, 9)) if l == 'T' else (r.randint(0, 9) if l == 'L' else round(r.uniform(-9, 9), 2))])
        return out
    ws = [tuple(x) for x in c.obj('words', gen)]
    judge(c, ws)


@ob('text to codes', functions=['gcodes:text2gcodes', 'block:Block.__init__'], kind='sample')
def text(c):
    """through text: same grouping; leftover words become the block's modal parameters, or an error for text2gcodes"""
    def gen(r):
        out = []
        for _ in range(r.randint(1, 8)):
            if r.random() < 0.4:
                x = r.choice(E_CODES + [('F', 12.5), ('S', 900.0), ('T', '3'), ('G', 999)])
                out.append([x[0], x[1]])
            else:
                l = r.choice('XYPQRDEHIJK')
                out.append([l, r.randint(-9, 9)])
        return out
    ws = [tuple(x) for x in c.obj('words', gen)]
    t = ' '.join('%s%s' % x for x in ws)
    codes, loose, bad = group(ws)
    try:
        b = c.pg.block.Block(t, verify=False)
    except c.pg.exceptions.GCodeParameterError:
        c.check('refused exactly when one code would get a letter twice', bad)
        return
    c.check('refused exactly when one code would get a letter twice', not bad)
    c.check('words in text order', [w.letter for w in b.words] == [l for l, _ in ws])
    c.check('codes', [(g.word.letter, sorted(g.params)) for g in b.gcodes] == [(ws[i][0], sorted(ws[j][0] for j in ps)) for i, ps in codes])
    c.check('leftover parameters in order', [id(w) for w in b.modal_params] == [id(b.words[i]) for i in loose])
    try:
        gs = c.pg.gcodes.text2gcodes(t)
        c.check('text2gcodes refuses leftover words', not loose)
        c.check('text2gcodes gives the same codes', [type(g) for g in gs] == [type(g) for g in b.gcodes])
    except c.pg.exceptions.GCodeWordStrError:
        c.check('text2gcodes refuses leftover words', bool(loose))
