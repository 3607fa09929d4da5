import itertools
from pyvc.api import Spec
from .common import *
from .tables import CODES, row

SPEC = Spec('C22')
SPEC.level_note = ''
ob = SPEC.ob
POOL = [('G', 1), ('F', 100.0), ('M', 9), ('G', 0), ('G', 90), ('G', 4), ('G', 2), ('M', 3), ('G', 81)]
KINDS = ['GCodeCoolantOff', 'GCodeMotion', 'GCodeLinearMove', 'GCodeArcMove', 'GCode', 'GCodeDrillingCycle', 'GCodeFeedRate', 'GCodeSpindle', 'GCodeToolChange', 'GCodeCannedCycle']


def judge(c, gs, kind, sort, how):
    k = getattr(c.pg.gcodes, kind)
    split = c.pg.gcodes.split_gcodes
    given = list(gs)
    if sort is None:
        parts = split(given, k)
    elif how == 'kw':
        parts = split(given, k, sort_list=sort)
    else:
        parts = split(given, k, sort)
    parts = list(parts)
    c.check('three lists', len(parts) == 3)
    a, b, d = [list(x) for x in parts]
    c.check('input list not modified', len(given) == len(gs) and all(x is y for x, y in zip(given, gs)))
    base = list(gs) if sort is False else sorted(gs, key=lambda g: rank(g))
    cat = a + b + d
    c.check('concatenation is the list (in execution order, stably, unless unsorted)', len(cat) == len(base) and all(x is y for x, y in zip(cat, base)))
    hits = [i for i, g in enumerate(base) if isinstance(g, k)]
    if hits:
        c.check('the middle holds the first code of that kind only', len(b) == 1 and b[0] is base[hits[0]] and len(a) == hits[0])
    else:
        c.check('without such a code the whole list is in the first part', not b and not d)


def rank(g):
    return row(g.word.letter, g.word.value)[4]


def mk(c, p):
    kw = {}
    if p == ('G', 81):
        kw = {'R': 1.0}
    return code(c, *p, **kw)


@ob('lists up to three codes', functions=['gcodes:split_gcodes'], kind='bounded', bound='all lists of up to 3 codes drawn from 9 representative codes, 10 splitting kinds')
def short(c):
    n = c.choice('n', [0, 1, 2, 3])
    kind = c.choice('kind', KINDS)
    sort = c.choice('sort', [None, False])
    gs = [mk(c, c.choice('g%d' % i, POOL[:6] if n == 3 else POOL)) for i in range(n)]
    judge(c, gs, kind, sort, 'kw')


@ob('the same code twice', functions=['gcodes:split_gcodes'], kind='bounded', bound='lists of 4 and 5 codes of equal rank')
def equal(c):
    """stability: codes of equal rank keep the order of the list"""
    n = c.choice('n', [4, 5])
    gs = [mk(c, c.choice('g%d' % i, [('G', 1), ('G', 0)])) for i in range(n)]
    judge(c, gs, c.choice('kind', ['GCodeRapidMove', 'GCodeLinearMove', 'GCodeMotion', 'GCodeCoolantOff']), c.choice('sort', [True, False]), 'pos')


@ob('lists of any length', functions=['gcodes:split_gcodes', 'gcodes:GCode.__lt__'], covers=['split', 'whole'])
def any_length(c):
    """a list of arbitrary length and contents: with an arbitrary code of the kind somewhere in it, or with none"""
    kind = c.choice('kind', KINDS)
    sort = c.choice('sort', [None, True, False])
    k = getattr(c.pg.gcodes, kind)
    some = [p for p in POOL + [('G', 0), ('M', 6), ('M', 5)] if isinstance(mk(c, p), k)]
    rest = [p for p in POOL if not isinstance(mk(c, p), k)]
    found = c.choice('found', [True, False])
    if not (some if found else rest):
        c.assume(False)
    if c.symbolic:
        some, rest = some[:2] + some[-1:], rest[:1] + rest[-1:]
    if not c.symbolic:
        pool = some + rest if found else rest
        gs = [mk(c, c.choice('g%d' % i, pool)) for i in range(c.int('n', 0, 14))]
        return judge(c, gs, kind, sort, 'kw')
    from pyvc.seqs import SymSeq
    n = c.int('n', 0)
    count = [0]

    def element(k):
        count[0] += 1
        return mk(c, c.choice('e%d' % count[0], some + rest if found else rest))
    if found:
        j = c.int('j', 0)
        c.assume(c.lt(j, n))
        w = mk(c, c.choice('w', some))
        seq = SymSeq(n, element, [(j, w)], lambda k: c.le(k, j))
    else:
        seq = SymSeq(n, element)
    # sorting it gives another list of that length, of which the same is said
    asked = []

    def sorting(key, reverse):
        if key is not None:
            c.outside('sorted by another key')
        asked.append(seq)
        c.check('sorted in execution order', not reverse)
        return seq.ordered
    seq.sorting = sorting
    if found:
        j2 = c.int('j2', 0)
        c.assume(c.lt(j2, n))
        seq.ordered = SymSeq(n, element, [(j2, w)], lambda k: c.le(k, j2))
    else:
        seq.ordered = SymSeq(n, element)
    split = c.pg.gcodes.split_gcodes
    parts = split(seq, k) if sort is None else split(seq, k, sort_list=sort)
    base = seq if sort is False else seq.ordered
    c.check('three lists', len(parts) == 3)
    c.check('sorted once, unless sorting is off', len(asked) <= 1)
    at = 0
    for p, name in zip(parts, 'abd'):
        if isinstance(p, SymSeq):
            empty = c.eq(p.n, 0)
            c.check('concatenation is the list (in execution order, stably, unless unsorted)', c.Or(empty, c.And(p.base is base, c.eq(p.lo, at))))
            at, size = at + p.n, p.n
        else:
            for x in p:
                hit = [i for i, e in base.known if e is x]
                c.check('concatenation is the list (in execution order, stably, unless unsorted)', len(hit) == 1 and c.eq(hit[0], at))
                at = at + 1
            size = len(p)
        if name == 'b':
            if found:
                c.cover('split')
                c.check('the middle holds the first code of that kind only', c.And(c.eq(size, 1), c.le(at, (j if sort is False else j2) + 1)))
                c.check('the middle holds a code of that kind', bool(isinstance(base.at(at - 1), k)))
            else:
                c.cover('whole')
                c.check('without such a code the whole list is in the first part', c.eq(size, 0))
    c.check('nothing lost', c.eq(at, n))
    if not found:
        c.check('without such a code the whole list is in the first part', isinstance(parts[0], SymSeq) and c.eq(parts[0].n, n))


@ob('execution order', functions=['gcodes:GCode.__lt__'])
def order(c):
    """what sorting goes by"""
    p, q = c.choice('a', list(range(len(CODES)))), c.choice('b', POOL)
    lo, hi = code(c, CODES[p][0], CODES[p][1]), mk(c, q)
    c.check('ordered by execution rank', bool(lo < hi) == (rank(lo) < rank(hi)))
    c.check('ordered by execution rank', bool(hi < lo) == (rank(hi) < rank(lo)))


@ob('every kind of code', functions=['gcodes:split_gcodes'], kind='sample')
def everything(c):
    idx = c.obj('codes', lambda r: [r.randrange(len(CODES)) for _ in range(r.randint(0, 12))])
    kind = c.obj('kind', lambda r: r.choice(KINDS + [x[2] for x in CODES]))
    sort = c.choice('sort', [None, True, False])
    gs = [code(c, CODES[i][0], CODES[i][1]) for i in idx]
    judge(c, gs, kind, sort, 'kw' if len(idx) % 2 else 'pos')
