"""Redundant motion codes: what omit_redundant_modes yields, executed, does what the original sequence does"""
from copy import copy
from pyvc.api import Spec
from .common import *
from .tables import CODES, MOVES, CANNED, LETTERS, row

SPEC = Spec('C21')
ob = SPEC.ob
FUNCS = ['utils:omit_redundant_modes', 'machine:Machine.modal_gcode', 'gcodes:GCode.__str__', 'machine:Machine.process_gcodes']
SPEC.assume('the original sequence runs without error on the machine (a canned cycle under G99 has a return level)')
SPEC.assume('the text of a line of bare parameters reads back as those parameters (C01, C02, C08); the sampled obligation prints and parses')
LOOP = 'utils:omit_redundant_modes#for0'


def letters(c, name, r, pool=('', 'X', 'RXZ', 'RYZP', 'RYZQ', 'RXYZPQ', 'LRXZ')):
    """some of the parameter letters the code takes"""
    if r in CANNED:
        opts = []
        for p in pool:
            p = ''.join(l for l in p if l in r[5])
            if p not in opts:
                opts.append(p)
    else:
        opts = ['', 'X', 'XYZ', ''.join(l for l in 'YAIJKPRQ' if l in r[5])]
    return c.choice(name, opts)


def make(c, name, r, ls):
    kw = {}
    for l in ls:
        kw[l] = c.choice(name + '.L', [0, 1, 2]) if l == 'L' else c.real(name + '.' + l)
    return code(c, r[0], r[1], **kw)


def blanked(o):
    """the code's own word prints as blanks"""
    w = copy(o)
    w.params = {}
    return not str(w).strip()


def contents(g):
    return (g.__class__, g.word.letter, g.word.value, dict((k, w.value) for k, w in g.params.items()))


def same_contents(c, label, a, b):
    c.check(label, a[0] is b[0] and a[1] == b[1] and c.eq(a[2], b[2]) and set(a[3]) == set(b[3]))
    for k in sorted(a[3]):
        c.check(label, c.eq(a[3][k], b[3][k]))


def execute(c, m, o):
    """a line holding just this code, as printed"""
    if not c.symbolic:
        m.process_block(c.pg.line.Line(str(o)).block)
    elif blanked(o):
        m.process_gcodes(modal_params=[copy(o.params[k]) for k in sorted(o.params)])
    else:
        m.process_gcodes(o)


def pair(c, active, kept, ret, dist, plane, cs):
    """two machines in the same arbitrary state"""
    a = machine(c, cs=cs, dist=dist)
    if ret:
        a.set_mode(code(c, 'G', ret))
    if plane:
        a.set_mode(code(c, 'G', plane))
    if active is None:
        a.mode.motion = None
    else:
        a.set_mode(active)
    return a, copy(a)


def follow(c, g, a, b, o):
    before = contents(g)
    text = str(g) if not c.symbolic else None
    had = a.mode.motion
    c.check('equal to the original code', o == g if not c.symbolic else True)
    same_contents(c, 'equal to the original code', contents(o), before)
    if not blanked(g) and blanked(o):
        c.check('blanked only if the same motion is active already', had is not None and had.word.letter == g.word.letter and c.sure(c.eq(had.word.value, g.word.value)))
        c.check('only motion codes are blanked', row(g.word.letter, g.word.value)[3] == 1)
    a.process_gcodes(g)
    execute(c, b, o)
    same_contents(c, 'the original is unchanged', contents(g), before)
    c.check('the original still prints in full', not blanked(g) and (text is None or str(g) == text))


@ob('anywhere in a sequence', functions=FUNCS, weight=2)
def step(c):
    """arbitrary position in a sequence of any length: loop invariant = both machines are in the same state, and the motion the
    function believes active is none or the active one, with the parameters the machine retains"""
    from_start = c.bool('first') if not c.symbolic else False
    r = c.choice('code', MOVES + CANNED)
    ls = letters(c, 'named', r)
    kinds = ['same', 'other', 'none']
    active_kind = c.choice('active', kinds)
    if r in CANNED:
        dist, ret, plane = c.choice('modes', [('abs', None, 19), ('inc', 99, None), ('abs', 99, None), ('inc', None, 18)])
    else:
        dist, ret, plane = c.choice('dist', ['abs', 'inc']), None, None
    if ret == 99 and 'R' not in ls:
        raise_reject(c)
    cs = 3
    act = None
    if active_kind == 'same':
        act = make(c, 'active', r, [l for l in letters(c, 'kept', r, ('', 'XZ', 'RXYZPQ')) if l != 'L'])
    elif active_kind == 'other':
        r2 = c.choice('other', [row('G', v) for v in (0, 81, 83, 38.4)])
        if r2 is r:
            raise_reject(c)
        act = make(c, 'active', r2, {0: '', 81: 'RXYP', 83: 'RXYQ', 38.4: 'X'}[r2[1]])
    a, b = pair(c, act, None, ret, dist, plane, cs)
    g = make(c, 'g', r, ls)
    known = c.choice('known', ['all', 'motion', 'nothing'])
    seq = [g]
    if c.symbolic:
        from pyvc.loops import LoopSpec

        class Any(LoopSpec):
            name = 'sequence'

            def applies(self, c, it):
                return it is seq

            def sequence(self, c, it):
                n = c.fresh('n', True)
                c.assume(n >= 0)
                return n, (lambda k: g)

            def null(self, L):
                ms = [v for v in L.values() if isinstance(v, c.pg.machine.Machine)]
                assert len(ms) == 1
                return ms[0]

            def havoc(self, c, L, k):
                m = self.null(L)
                seen[0] = k
                if known != 'nothing' and act is not None:
                    m.set_mode(act)
                else:
                    m.mode.motion = None
                if known == 'all':
                    m.set_mode(*[x for x in a.mode.gcodes if x.modal_group in (2, 3, 10)])
                x = {ax: c.fresh('x') for ax in 'XYZ'}
                m.abs_pos.update(**x)
                return {}

            def inv(self, c, L, k):
                m = self.null(L)
                yield ('one result per code', c.eq(seen[0], k))
                mine, theirs = m.mode.motion, a.mode.motion
                if mine is not None:
                    yield ('the motion believed active is active', theirs is not None and contents(mine)[:2] == contents(theirs)[:2] and c.eq(mine.word.value, theirs.word.value))
                    x, y = contents(mine)[3], contents(theirs)[3]
                    yield ('with the retained parameters', set(x) == set(y))
                    for l in sorted(x):
                        yield ('with the retained parameters', c.eq(x[l], y[l]))
        seen = [0]
        c.loop(LOOP, Any())
        for o in c.pg.utils.omit_redundant_modes(seq):
            follow(c, g, a, b, o)
            same_state(c, 'same effect as the original', state_of(b), state_of(a))
            seen[0] = seen[0] + 1
        return
    # concrete runs: the same step, reached by a real prefix
    prefix = []
    if active_kind != 'none' and known != 'nothing':
        prefix.append(act)
    out = list(c.pg.utils.omit_redundant_modes(prefix + seq))
    c.check('same number of codes', len(out) == len(prefix) + 1)
    if known == 'nothing' or not prefix:
        follow(c, g, a, b, out[-1])
        near(c, a, b, 3)


def near(c, a, b, n=1):
    """printed numbers have three decimals"""
    for ax in sorted(a.axes):
        c.check('same effect as the original: position', c.eq(getattr(a.pos, ax), getattr(b.pos, ax), 0.0006 * n))
    ma, mb = state_of(a)['modes'], state_of(b)['modes']
    c.check('same effect as the original: modes', set(ma) == set(mb) and all(ma[k][0] is mb[k][0] and set(ma[k][3]) == set(mb[k][3]) for k in ma))


def raise_reject(c):
    c.assume(False)


NOTMOTION = [r for r in CODES if r[3] != 1]


@ob('codes of other groups', functions=FUNCS)
def others(c):
    """codes that are not motion codes pass unchanged and are never blanked, whatever mode is active already"""
    r = c.choice('code', NOTMOTION + [(l, v, None, None, None, '', '') for l, v in (('F', 100.0), ('S', 1200.0), ('N', 7), ('T', '3'))])
    g = code(c, r[0], r[1], **{l: c.int('p.' + l, 0, 3) if l == 'L' else ('5' if l in 'TO' else c.real('p.' + l)) for l in (r[5] if c.bool('params') else '')})
    again = code(c, r[0], r[1])
    seq = c.choice('seq', [[g], [g, again], [again, g]])
    shape = len(seq)
    text = [str(x) for x in seq] if not c.symbolic else None
    before = [contents(x) for x in seq]
    out = list(c.pg.utils.omit_redundant_modes(iter(seq)))
    c.check('same number of codes in the same order', len(out) == shape)
    for x, o, bf in zip(seq, out, before):
        same_contents(c, 'equal to the original code', contents(o), bf)
        same_contents(c, 'the original is unchanged', contents(x), bf)
        if r[0] in 'GM':
            c.check('only motion codes are blanked', not blanked(o) and not blanked(x))
    if text:
        c.check('the originals print unchanged', [str(x) for x in seq] == text)
        c.check('other codes print unchanged', [str(x) for x in out] == text)


def program(rng):
    out = []
    motions = rng.sample([0, 1, 2, 81, 83, 38.2, 38.3, 33, 73, 89, 5.1, 76], 3)
    for _ in range(rng.randint(1, 12)):
        k = rng.random()
        if k < 0.7:
            v = rng.choice(motions)
            r = row('G', v)
            ls = ''.join(l for l in r[5] if rng.random() < 0.3)
            if r in CANNED:
                ls = ''.join(sorted(set(ls) | set('RZ') - (set('R') if rng.random() < .1 else set())))
                ls = ''.join(l for l in ls if l in r[5])
            out.append(['G', v, [[l, rng.randint(0, 3) if l == 'L' else round(rng.uniform(-20, 20), 3)] for l in ls]])
        elif k < 0.95:
            out.append(['G', rng.choice([90, 91, 98, 99, 80, 80, 17, 18, 19, 54, 55, 59.2]), []])
        else:
            out.append(rng.choice([['M', 3, []], ['F', 100, []], ['S', 1000, []], ['M', 6, [['T', '3']]], ['G', 4, [['P', 2.5]]], ['N', 10, []]]))
    return out


@ob('printed sequences', functions=FUNCS, kind='sample', weight=2)
def printed(c):
    """whole sequences, printed and parsed line by line, on two machines in the same arbitrary state"""
    prog = c.obj('program', program)
    gs = [code(c, l, v, **dict(ps)) for l, v, ps in prog]
    a = machine(c, cs=4, dist=c.choice('dist', ['abs', 'inc']))
    b = copy(a)
    texts = [str(g) for g in gs]
    before = [contents(g) for g in gs]
    try:
        x = copy(a)
        for g in gs:
            x.process_gcodes(g)
    except TypeError:
        c.assume(False)
    out = list(c.pg.utils.omit_redundant_modes(gs))
    c.check('same number of codes', len(out) == len(gs))
    for i, (g, o) in enumerate(zip(gs, out)):
        follow(c, g, a, b, o)
        near(c, a, b, 3 * (i + 1))
    c.check('the originals print unchanged', [str(g) for g in gs] == texts)
    for g, bf in zip(gs, before):
        same_contents(c, 'the original is unchanged', contents(g), bf)
