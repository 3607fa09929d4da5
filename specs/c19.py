import sys
from copy import copy
from pyvc.api import Spec
from .common import *
from .tables import CANNED
from .loopspecs import repeat_contract

SPEC = Spec('C19')
ob = SPEC.ob
FUNCS = ['transform:simplify_canned_cycle', 'gcodes:_gcodes_abs2rel', 'gcodes:GCodeCannedCycle._process']
CYCLES = [r for r in CANNED if r[1] != 76]
PECK = (73, 83)
SPEC.assume('hole depth below the retract level (drilling upwards is refused as not implemented)')
SPEC.assume('the machine has the same axes as its position; plane XY (other planes are refused as not implemented)')
CLEAR = 1e-7        # concrete runs only


class Tool(object):
    """follows the expansion, in work coordinates, and checks what each move may do"""
    def __init__(self, c, start, dist, level, depth, q):
        self.c, self.dist = c, dist
        self.p = {a: getattr(start, a) for a in 'XYZ'}
        self.start = dict(self.p)
        self.level, self.depth, self.q = level, depth, q
        self.deep = level       # bottom of what is cut in the current hole
        self.fresh = True       # nothing cut in the current hole yet
        self.holes = 0
        self.hole_xy = None     # k -> coordinates of hole k

    def step(self, g):
        c = self.c
        tol = None if c.symbolic else 1e-6
        c.check('only rapid moves, feed moves and dwells', g.word.letter == 'G' and c.sure(c.Or(*[c.eq(g.word.value, v) for v in (0, 1, 4)])))
        if c.sure(c.eq(g.word.value, 4)):
            c.check('a dwell has a time', set(g.params) == {'P'} and c.le(0, g.P))
            return
        feed = c.sure(c.eq(g.word.value, 1))
        new = dict(self.p)
        for k, w in g.params.items():
            c.check('moves only in X, Y and Z', k in 'XYZ')
            new[k] = w.value if self.dist == 'abs' else self.p[k] + w.value
        side = c.Not(c.And(c.eq(new['X'], self.p['X'], tol), c.eq(new['Y'], self.p['Y'], tol)))
        down = c.lt(new['Z'], self.p['Z']) if c.symbolic else new['Z'] < self.p['Z'] - CLEAR
        if feed:
            c.check('feed moves go straight down', c.And(c.Not(side), c.le(new['Z'], self.p['Z'], tol)))
            c.check('a peck advances at most the peck increment', True if self.q is None else c.le(self.deep - new['Z'], abs(self.q), tol))
            c.check('never below the programmed depth', c.le(self.depth, new['Z'], tol))
            c.check('feeds to below what is cut already', c.lt(new['Z'], self.deep, tol))
            x, y = self.hole_xy(self.holes)
            c.check('hole at the programmed place', c.And(c.eq(new['X'], x, tol), c.eq(new['Y'], y, tol)))
            self.deep = new['Z']
            self.fresh = False
            if c.sure(c.eq(new['Z'], self.depth, tol)):
                self.holes = self.holes + 1
                self.deep = self.level
                self.fresh = True
                self.full = True
        else:
            low = c.min(self.level, self.start['Z'])
            c.check('rapids travel sideways only at or above the retract level or the starting height',
                    c.Implies(side, c.And(c.le(low, self.p['Z'], tol), c.le(low, new['Z'], tol))))
            c.check('sideways travel only between holes', c.Implies(side, self.fresh))
            c.check('rapids never go below material already cut', c.Implies(down, c.le(self.deep if not self.fresh else low, new['Z'], tol)))
        self.p = new


def machines_on_stack(c):
    """machines held by the frames of the code being executed (to follow a cut loop)"""
    out = []
    f = sys._getframe(1)
    while f is not None:
        if '/repo/' in f.f_code.co_filename:
            for v in list(f.f_locals.values()):
                if isinstance(v, c.pg.machine.Machine) and not any(v is o for o in out):
                    out.append(v)
        f = f.f_back
    return out


def contracts(c, t, dist, d, final, peck, start):
    if not c.symbolic:
        return
    from pyvc.loops import LoopSpec
    V = c.pg.utils.Vector3

    def set_machines():
        for m in machines_on_stack(c):
            m.pos = c.pg.machine.Position(axes=set(m.axes), unit=m.abs_pos.unit, **{a: t.p.get(a, getattr(start, a)) for a in m.axes})

    def machines_agree():
        for m in machines_on_stack(c):
            for a in m.axes:
                yield ('internal position is the position reached', c.eq(getattr(m.pos, a), t.p[a] if a in t.p else getattr(start, a)))

    class Pecks(LoopSpec):
        name = 'pecks'

        def inv(self, c, L, k):
            cur, last = L['cur_depth'], L['last_depth']
            yield ('depth reached is the bottom of the cut', c.And(c.eq(cur, t.deep), c.eq(last, cur)))
            yield ('between retract level and full depth', c.And(c.lt(t.depth, cur), c.le(cur, t.level)))
            up = cur + c.lit(0.5) if peck == 73 else t.level
            yield ('height between pecks', c.eq(t.p['Z'], c.ite(k >= 1, up, t.level) if not isinstance(k, int) else (up if k >= 1 else t.level)))
            yield ('first peck starts at the retract level', c.Or(k >= 1, c.eq(cur, t.level)))
            x, y = t.hole_xy(t.holes)
            yield ('above the hole', c.And(c.eq(t.p['X'], x), c.eq(t.p['Y'], y)))
            for r in machines_agree():
                yield r

        def havoc(self, c, L, k):
            first = c.sure(c.eq(k, 0))
            cur = t.level if first else c.fresh('cur')
            t.deep = cur
            t.fresh = first
            t.p['Z'] = t.level if first else (cur + c.lit(0.5) if peck == 73 else t.level)
            set_machines()
            return {'cur_depth': cur, 'last_depth': cur}

        def variant(self, c, L):
            return L['cur_depth']

        def decreases(self, c, a, b):
            return c.And(c.le(b, a - abs(t.q)), c.lt(t.depth, b))

    class Repeats(LoopSpec):
        name = 'repeats'
        peel = 1

        def applies(self, c, it):
            return True

        def inv(self, c, L, k):
            yield ('one hole per repeat', c.eq(t.holes, k))
            yield ('no hole half done', t.fresh is True)
            for i, a in enumerate('XY'):
                if dist == 'inc':
                    yield ('sideways position', c.eq(t.p[a], t.start[a] + d[a] * k))
                    yield ('hole coordinate', c.eq(L['cur_hole_p_axis'].xyz[i], t.p[a]))
                else:
                    yield ('sideways position', c.eq(t.p[a], d[a]))
            yield ('height between repeats', c.eq(t.p['Z'], final))
            for r in machines_agree():
                yield r

        def havoc(self, c, L, k):
            t.holes = k
            t.fresh = True
            t.deep = t.level
            t.p = {a: (t.start[a] + d[a] * k if dist == 'inc' else d[a]) for a in 'XY'}
            t.p['Z'] = final
            set_machines()
            return {'cur_hole_p_axis': V(t.p['X'], t.p['Y'], t.start['Z'])}
    c.loop('transform:simplify_canned_cycle.inner#for0', Repeats())
    if peck:
        c.loop('transform:simplify_canned_cycle.inner#while0', Pecks())


def cycle(c, rows, L=None, axes='XYZ', cut=True, subsets=('', 'X', 'XY', 'Y'), cs=7):
    r = c.choice('code', rows)
    dist = c.choice('dist', ['abs', 'inc'])
    ret = c.choice('ret', [98, 99])
    m = machine(c, axes=axes, cs=cs, dist=dist, plain=False)
    m.set_mode(code(c, 'G', ret))
    kw = {a: c.real('g.' + a) for a in c.choice('named', list(subsets))}
    kw['R'] = c.real('R')
    start = m.pos
    level = kw['R'] if dist == 'abs' else start.Z + kw['R']
    if c.symbolic:
        kw['Z'] = c.real('Z')
    else:
        kw['Z'] = (kw['R'] if dist == 'abs' else 0) - c.real('deep', 0.001, 60)
    depth = kw['Z'] if dist == 'abs' else level + kw['Z']
    c.assume(depth < level)
    q = None
    if r[1] in PECK:
        q = kw['Q'] = c.real('Q', gen=None if c.symbolic else (lambda rng: rng.choice([1, -1]) * rng.uniform(0.5, 30)))
        c.assume(c.Not(c.eq(q, 0)))
        if not c.symbolic:
            c.assume(abs(q) > 0.3)
            # a depth that is a multiple of the increment but for rounding leaves a last peck of no depth
            x = (level - depth) / abs(q)
            c.assume(abs(x - round(x)) * abs(q) > 1e-5 or all(float(v * 1024).is_integer() for v in (level, depth, q, start.Z)))
    elif c.bool('withP'):
        kw['P'] = c.real('P', 0, 100)
    n = 1
    if L is not None:
        n = kw['L'] = L
    g = code(c, r[0], r[1], **kw)
    before = (state_of(m), dict((k, w.value) for k, w in g.params.items()))
    t = Tool(c, start, dist, level, depth, q)
    d = {a: kw.get(a, 0 if dist == 'inc' else getattr(start, a)) for a in 'XY'}
    if dist == 'inc':
        t.hole_xy = lambda k: tuple(t.start[a] + d[a] * (k + 1) for a in 'XY')
    else:
        t.hole_xy = lambda k: (d['X'], d['Y'])
    final = level if ret == 99 else start.Z
    if cut:
        contracts(c, t, dist, d, final, r[1] if r[1] in PECK else None, start)
    moves = c.pg.transform.simplify_canned_cycle(g, m.pos, m.mode.plane_selection, m.mode.distance, m.mode.canned_cycles_return, m.axes)
    if not (cut and c.symbolic):
        moves = list(moves)     # (codes given earlier stay as they are)
    for o in moves:
        t.step(o)
    c.check('one hole for each repeat', c.eq(t.holes, n))
    c.check('no hole is left unfinished', t.fresh)
    same_state(c, 'machine is only read', state_of(m), before[0])
    c.check('the cycle itself is not changed', set(before[1]) == set(g.params) and c.And(*[c.eq(g.params[k].value, v) for k, v in before[1].items()]))
    if cut:
        moves = {a: kw[a] for a in 'XY' if a in kw}
        fixed = {}
        if ret == 99:
            (fixed if dist == 'inc' else moves)['Z'] = kw['R']
        if dist == 'abs':
            off = offsets(m)
            moves = {a: v + off[a] for a, v in moves.items()}
        repeat_contract(c, m, dist, moves, fixed)
    m.process_gcodes(g)
    for a in 'XYZ':
        c.check('ends where the machine is after the cycle', c.eq(t.p[a], getattr(m.pos, a), None if c.symbolic else 1e-5))


@ob('single cycle', functions=FUNCS, weight=2)
def single(c):
    """any cycle, any start, any depth, level and peck: any number of pecks"""
    cycle(c, CYCLES, axes=c.choice('axes', ['XYZ', 'XYZA']))


@ob('repeated cycle', functions=FUNCS, weight=3)
def repeated(c):
    """any number of repeats, any number of pecks"""
    cycle(c, CYCLES, L=c.int('L', 1, None if c.symbolic else 12), subsets=('', 'XY', 'Y'))


@ob('two repeats, followed without loop contracts', functions=FUNCS, kind='bounded', bound='2 repeats; at most 3 pecks', opts={'unroll': 3})
def two(c):
    cycle(c, [r for r in CYCLES if r[1] in (81, 82, 89)], L=2, cut=False, subsets=('X', 'XY'))


@ob('no repeats given', functions=FUNCS)
def zero(c):
    """L of 0 drills one hole, as the machine does"""
    r = c.choice('code', CYCLES)
    dist = c.choice('dist', ['abs', 'inc'])
    m = machine(c, dist=dist, plain=True)
    kw = dict(Z=-3, R=1, X=5)
    if r[1] in PECK:
        kw['Q'] = 2
    a = list(c.pg.transform.simplify_canned_cycle(code(c, r[0], r[1], **kw), m.pos, None, m.mode.distance, None, m.axes))
    b = list(c.pg.transform.simplify_canned_cycle(code(c, r[0], r[1], L=0, **kw), m.pos, None, m.mode.distance, None, m.axes))
    c.check('same as without L', len(a) == len(b))
    for x, y in zip(a, b):
        c.check('same as without L', x.word == y.word and set(x.params) == set(y.params) and c.And(*[c.eq(x.params[k].value, y.params[k].value) for k in x.params]))
    from copy import copy
    n = copy(m)
    m.process_gcodes(code(c, r[0], r[1], **kw))
    n.process_gcodes(code(c, r[0], r[1], L=0, **kw))
    c.check('the machine too takes a cycle of no repeats as one', c.And(*[c.eq(getattr(m.pos, a), getattr(n.pos, a)) for a in 'XYZ']))
