from pyvc.api import Spec
from .common import *
from .tables import CODES, LETTERS, DEFAULTS, GROUPS, row

SPEC = Spec('C05')
SPEC.cold = True
ob = SPEC.ob
KEYS = {}
for _r in CODES:
    KEYS.setdefault(_r[0], []).append(_r)


def cls_of(c, r):
    return getattr(c.pg.gcodes, r[2])


def fresh(c):
    """nothing looked up yet"""
    c.pg.gcodes.build_maps()


def find(c, w, exhaustive=False):
    return c.pg.gcodes.word_gcode_class(w, exhaustive) if exhaustive else c.pg.gcodes.word_gcode_class(w)


def expected(c, letter, n):
    """(condition, class) cases for the word letter n/10"""
    return [(n == int(round(r[1] * 10)), r) for r in KEYS.get(letter, [])]


@ob('G and M codes', functions=['gcodes:word_gcode_class', 'gcodes:build_maps', 'gcodes:GCodeStraightProbe.word_matches', 'gcodes:GCodeGotoPredefinedPosition.word_matches',
                                 'gcodes:GCodeSetPredefinedPosition.word_matches', 'gcodes:GCodeResetCoordSystemOffset.word_matches'])
def gm(c):
    """for every value with at most one decimal: identified exactly when listed, as the class listed"""
    letter = c.choice('letter', ['G', 'M'])
    n = c.int('n', 0, 99999, gen=lambda r: r.choice([int(round(x[1] * 10)) for x in CODES]) if r.random() < 0.6 else r.randint(0, 1200))
    c.assume(n >= 0)
    W = c.pg.words.Word
    v = n / 10 if not c.symbolic else n / c.lit(10)
    w = W(letter, v)
    ex = c.bool('exhaustive')
    k = find(c, w, ex)
    cases = expected(c, letter, n)
    if k is None:
        c.check('a value not listed is no code', c.Not(c.Or(*[cond for cond, r in cases])))
    else:
        c.check('a value listed is the code listed', c.Or(*[cond for cond, r in cases if cls_of(c, r) is k]))
    c.check('the same answer again', find(c, w, ex) is k)


@ob('every code listed', functions=['gcodes:word_gcode_class'])
def listed(c):
    r = c.choice('code', CODES)
    W = c.pg.words.Word
    how = c.choice('how', ['number', 'text', 'lower', 'padded', 'int'])
    txt = ('%d' % r[1]) if r[1] == int(r[1]) else '%.1f' % r[1]
    if how == 'number':
        w = W(r[0], r[1])
    elif how == 'text':
        w = W(r[0] + txt)
    elif how == 'lower':
        w = W(r[0].lower(), txt)
    elif how == 'padded':
        w = W(r[0], '0' + txt)
    else:
        w = W(r[0], int(r[1])) if r[1] == int(r[1]) else W(r[0], r[1])
    k = find(c, w)
    c.check('identified as the code listed', k is cls_of(c, r))
    g = k(w)
    if how == 'number':
        c.check('modal group', k.modal_group == r[3] and g.modal_group == r[3])
        c.check('execution rank', g.exec_order == r[4])
        c.check('parameters accepted', set(g.param_letters) == set(r[5]))
        c.check('parameters kept in the modal state', set(g.modal_param_letters) & set(g.param_letters) == set(r[6]))
    c.check('holds its word', g.word == w and g.word.letter == r[0] and c.eq(g.word.value, r[1]))


@ob('letters that are codes for every value', functions=['gcodes:GCodeFeedRate.word_matches', 'gcodes:GCodeSpindleSpeed.word_matches', 'gcodes:GCodeSelectTool.word_matches',
                                                          'gcodes:GCodeLineNumber.word_matches', 'gcodes:GCodeProgramName.word_matches'])
def letters(c):
    l = c.choice('letter', LETTERS)
    if l[0] == 'N':
        v = c.int('n', 0, 10 ** 6)
    elif l[0] == 'T':
        v = c.choice('t', ['0', '1', '05', '123'])
    elif l[0] == 'O':
        v = c.choice('o', ['1000', '<sub> call', 'x'])
    else:
        v = c.real('v')
    w = c.pg.words.Word(l[0], v)
    k = find(c, w, c.bool('exhaustive'))
    c.check('identified', k is getattr(c.pg.gcodes, l[1]))
    c.check('modal group', k.modal_group == l[2])
    c.check('execution rank', k.exec_order == l[3])
    c.check('no parameters', not set(k.param_letters))


@ob('letters that are never codes', functions=['gcodes:word_gcode_class'])
def never(c):
    l = c.choice('letter', list('ABCDEHIJKLPQRUVWXYZ'))
    v = c.int('n', 0) if l == 'L' else c.real('v')
    c.check('no code', find(c, c.pg.words.Word(l, v), c.bool('exhaustive')) is None)


REPS = [('G', 0), ('G', 38.2), ('G', 38.5), ('G', 28.1), ('G', 92.1), ('G', 92.2), ('M', 3), ('F', 12.0), ('T', '3'), ('G', 30), ('G', 91.1), ('N', 4), ('G', 43.2)]


@ob('lookup order does not matter', functions=['gcodes:word_gcode_class', 'gcodes:build_maps'])
def order(c):
    """whatever was looked up (and asked for by default) before"""
    W = c.pg.words.Word
    a, b = c.choice('a', REPS), c.choice('b', REPS + [('G', 999), ('G', 38.6), ('M', 199)])
    fresh(c) if c.bool('fresh') else None
    how = c.choice('between', ['lookup', 'exhaustive', 'construct', 'default', 'text'])
    if how == 'lookup':
        find(c, W(*a))
    elif how == 'exhaustive':
        find(c, W(*a), True)
        find(c, W('X', 5.0), True)
    elif how == 'construct':
        code(c, *a)
    elif how == 'default':
        for n, l, v in DEFAULTS:
            getattr(c.pg.gcodes, n)()
    else:
        list(c.pg.gcodes.text2gcodes('G1 X2 G92.2'))
    w = W(*b)
    k = find(c, w)
    if b in (('G', 999), ('G', 38.6), ('M', 199)):
        c.check('not a code', k is None)
    else:
        c.check('same class', k is getattr(c.pg.gcodes, row(*b)[2]))
    w1 = W(*a)
    c.check('and the earlier one', find(c, w1) is getattr(c.pg.gcodes, row(*a)[2]))


@ob('default words', functions=['gcodes:GCode.__init__', 'gcodes:GCode._default_word'])
def defaults(c):
    """a code built without a word identifies itself; the word is the instance's own"""
    allc = {}
    for r in CODES:
        allc.setdefault(r[2], (r[0], r[1]))
    allc.update({n: (l, v) for n, l, v in DEFAULTS})
    name = c.choice('class', sorted(allc))
    k = getattr(c.pg.gcodes, name)
    l, v = allc[name]
    g = k()
    c.check('default word', g.word.letter == l and (g.word.value == v if l == 'T' else c.eq(g.word.value, v)))
    c.check('identifies the same code', find(c, g.word) is k)
    if l != 'T':
        g.word.value = 77
        h = k()
        c.check('each code has its own default word', h.word.letter == l and c.eq(h.word.value, v))
        c.check('the tables are not affected', find(c, c.pg.words.Word(l, v)) is k)


@ob('configurable words', functions=['gcodes:GCode.__init__'])
def configurable(c):
    n = c.choice('class', ['GCodeFeedRate', 'GCodeSpindleSpeed', 'GCodeLineNumber'])
    v = c.int('n', 0, 9999) if n == 'GCodeLineNumber' else c.real('v')
    k = getattr(c.pg.gcodes, n)
    g = k(v)
    c.check('value is the first argument', c.eq(g.word.value, v) and g.word.letter == {'GCodeFeedRate': 'F', 'GCodeSpindleSpeed': 'S', 'GCodeLineNumber': 'N'}[n])
    c.check('identifies the same code', find(c, g.word) is k)


@ob('group names', functions=['gcodes:MODAL_GROUP_MAP'])
def groups(c):
    name = c.choice('name', sorted(GROUPS))
    c.check('group number', c.pg.gcodes.MODAL_GROUP_MAP[name] == GROUPS[name])
    c.check('no other names', set(c.pg.gcodes.MODAL_GROUP_MAP) == set(GROUPS))
