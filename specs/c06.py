from pyvc.api import Spec
from .common import *
from .tables import CODES, row

SPEC = Spec('C06')
ob = SPEC.ob
WITH = [r for r in CODES if r[5]]
REPS = [row('G', 1), row('G', 2), row('G', 4), row('G', 83), row('G', 76), row('M', 66), row('M', 6), row('G', 64), row('G', 17), row('M', 3), row('G', 41.1), row('G', 10)]
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def value(c, name, l):
    if l in 'LN':
        return c.int(name, 0, 99)
    if l in 'TO':
        return c.choice(name, ['1', '07'])
    return c.real(name)


def same(c, l, a, b):
    return a == b if l in 'TO' else c.eq(a, b)


def kcls(c, r):
    return getattr(c.pg.gcodes, r[2])


def build(c, r, pairs, how):
    W = c.pg.words.Word
    w = W(r[0], r[1])
    k = kcls(c, r)
    if how == 'words':
        return k(w, *[W(l, v) for l, v in pairs])
    if how == 'keywords':
        return k(w, **dict(pairs))
    g = k(w)
    for l, v in pairs:
        g.add_parameter(W(l, v))
    return g


@ob('one parameter', functions=['gcodes:GCode.__init__', 'gcodes:GCode.add_parameter', 'gcodes:GCode.__getattr__'])
def one(c):
    """every code x every letter: accepted and readable, or refused"""
    r = c.choice('code', CODES)
    l = c.choice('letter', LETTERS)
    v = value(c, 'v', l)
    how = ['words', 'keywords', 'add'][(ord(l) + int(r[1] * 10)) % 3]
    E = c.pg.exceptions.GCodeParameterError
    try:
        g = build(c, r, [(l, v)], how)
        c.check('only parameters of the code are accepted', l in r[5])
    except E:
        c.check('every parameter of the code is accepted', l not in r[5])
        return
    c.check('value reads back', same(c, l, getattr(g, l), v))
    for o in r[5]:
        if o != l:
            c.check('absent parameters read as absent', getattr(g, o) is None)
    for o in ('speed', 'x', 'XY', 'Qq'):
        try:
            getattr(g, o)
            c.check('unknown names raise an attribute error', False)
        except AttributeError:
            c.check('unknown names raise an attribute error', True)
    for o in LETTERS:
        if o not in r[5]:
            try:
                getattr(g, o)
                c.check('letters not accepted raise an attribute error', False)
            except AttributeError:
                c.check('letters not accepted raise an attribute error', True)


@ob('several parameters', functions=['gcodes:GCode.__init__', 'gcodes:GCode.add_parameter', 'gcodes:GCode.get_param_dict'])
def several(c):
    r = c.choice('code', [x for x in REPS if x[5]])
    how = c.choice('how', ['words', 'keywords', 'add'])
    ls = [l for l in r[5] if l in 'XYZPRQLTDKE'][:6]
    present = [l for l in ls if c.bool('has.' + l)]
    vals = {l: value(c, 'v.' + l, l) for l in present}
    g = build(c, r, [(l, vals[l]) for l in present], how)
    c.check('exactly the given letters are present', set(g.params) == set(present))
    d = g.get_param_dict()
    c.check('dictionary lists exactly the present letters', set(d) == set(present))
    for l in present:
        c.check('dictionary value', same(c, l, d[l], vals[l]))
        c.check('value reads back', same(c, l, getattr(g, l), vals[l]))
    flt = c.choice('filter', ['XYZ', 'R', '', 'PQXL', 'list'])
    f = ['X', 'P', 'L'] if flt == 'list' else flt
    d = g.get_param_dict(letters=f)
    c.check('filtered dictionary', set(d) == set(present) & set(f))
    for l in d:
        c.check('filtered value', same(c, l, d[l], vals[l]))
    d = g.get_param_dict(letters=set('XR'), lc=True)
    c.check('lower case dictionary', set(d) == set(l.lower() for l in set(present) & set('XR')))
    for l in d:
        c.check('lower case value', same(c, l.upper(), d[l], vals[l.upper()]))
    d['X'] = 5
    c.check('the dictionary is a copy', set(g.params) == set(present))
    W = c.pg.words.Word
    for l in present:
        try:
            g.add_parameter(W(l, vals[l]))
            c.check('a letter given twice is refused', False)
        except c.pg.exceptions.GCodeParameterError:
            c.check('a letter given twice is refused', True)
        c.check('and the first stays', same(c, l, getattr(g, l), vals[l]) and set(g.params) == set(present))


@ob('given twice', functions=['gcodes:GCode.add_parameter'])
def twice(c):
    r = c.choice('code', WITH)
    l = c.choice('letter', LETTERS)
    c.assume(l in r[5])
    a, b = value(c, 'a', l), value(c, 'b', l)
    W = c.pg.words.Word
    try:
        kcls(c, r)(W(r[0], r[1]), W(l, a), W(l, b))
        c.check('one letter twice is refused', False)
    except c.pg.exceptions.GCodeParameterError:
        c.check('one letter twice is refused', True)


@ob('assignment', functions=['gcodes:GCode.__setattr__'])
def assign(c):
    r = c.choice('code', REPS)
    ls = [l for l in r[5] if l in 'XYPRQLDT'][:5]
    present = [l for l in ls if c.bool('has.' + l)]
    vals = {l: value(c, 'v.' + l, l) for l in present}
    g = build(c, r, [(l, vals[l]) for l in present], 'words')
    if r in REPS[:3] and present and 'L' not in present and c.bool('alike'):
        # every number the same one
        W = c.pg.words.Word
        w = W(r[0], r[1])
        vals = {o: w.value for o in present}
        g = kcls(c, r)(w, *[W(o, vals[o]) for o in present])
    l = c.choice('letter', [x for x in LETTERS if x in 'XYPRQLDTFGSZ'])
    v = value(c, 'new', l)
    # read in every way before
    same_before = build(c, r, [(o, vals[o]) for o in present], 'words')
    c.check('equal before', bool(g == same_before))
    c.check('dictionary before', set(g.get_param_dict()) == set(present) and set(g.get_param_dict('XY')) == set(present) & set('XY'))
    if not c.symbolic:
        str(g), repr(g)
    if l not in r[5]:
        # not a parameter: at most an ordinary attribute, never a parameter
        setattr(g, l, v)
        c.check('parameters stay', set(g.params) == set(present))
    else:
        setattr(g, l, v)
        c.check('created if absent, nothing else', set(g.params) == set(present) | {l})
        c.check('value assigned', same(c, l, getattr(g, l), v))
        now = dict(vals, **{l: v})
        for letters in (None, 'XY', 'R' + l):
            d = g.get_param_dict() if letters is None else g.get_param_dict(letters)
            c.check('dictionary after', set(d) == set(now) & set(letters or now))
            for o in d:
                c.check('dictionary value after', same(c, o, d[o], now[o]))
        c.check('equal to a code built so', bool(g == build(c, r, sorted(now.items()), 'words')))
    for o in present:
        if o != l:
            c.check('other parameters keep their value', same(c, o, getattr(g, o), vals[o]))
    c.check('the word stays', g.word.letter == r[0] and c.eq(g.word.value, r[1]))
    c.check('parameter letters of the words', all(k == w.letter for k, w in g.params.items()))


@ob('equality', functions=['gcodes:GCode.__eq__', 'gcodes:GCode.__ne__'], covers=['equal', 'different'])
def equality(c):
    ra = c.choice('a', [row('G', 1), row('G', 0), row('G', 38.2), row('G', 83)])
    rb = c.choice('b', [row('G', 1), row('G', 38.3), row('G', 83), row('G', 38.2)])
    pa = [l for l in 'XYR' if l in ra[5] and c.bool('a.' + l)]
    pb = [l for l in 'XYR' if l in rb[5] and c.bool('b.' + l)]
    va = {l: c.real('va.' + l) for l in pa}
    vb = {l: c.real('vb.' + l) for l in pb}
    a = build(c, ra, sorted(va.items()), 'words')
    b = build(c, rb, sorted(vb.items(), reverse=True), 'words')
    exp = ra[1] == rb[1] and set(pa) == set(pb)
    if exp:
        exp = c.And(*[va[l] == vb[l] for l in pa])
    eq, ne = bool(a == b), bool(a != b)
    c.cover('equal' if eq else 'different')
    c.check('equal exactly when words and parameters are', c.Iff(eq, exp))
    c.check('!= is the negation', eq != ne)
    eq2 = bool(b == a)
    c.check('symmetric', eq == eq2)


@ob('own parameters', functions=['gcodes:GCode.__init__'])
def own(c):
    """parameters of one code are not shared with another of its class"""
    r = c.choice('code', [x for x in REPS if 'X' in x[5] or 'P' in x[5]])
    l = 'X' if 'X' in r[5] else 'P'
    a, b = build(c, r, [], 'words'), build(c, r, [], 'words')
    v = c.real('v')
    setattr(a, l, v)
    c.check('other code unaffected', getattr(b, l) is None and not b.params)
    n = build(c, r, [], 'words')
    c.check('new code unaffected', getattr(n, l) is None)
    c.check('tables unaffected', set(n.param_letters) == set(r[5]))
