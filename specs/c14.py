from pyvc.api import Spec
from .common import *
from .tables import MOVES, CANNED
from .loopspecs import repeat_contract

SPEC = Spec('C14')
ob = SPEC.ob
FUNCS = ['machine:Machine._update_abs_range', 'machine:Machine.pos', 'machine:Position._cmp', 'machine:Position.min', 'machine:Position.max']


def box(m, axes):
    return ({a: getattr(m.abs_range_min, a) for a in axes}, {a: getattr(m.abs_range_max, a) for a in axes})


@ob('one move', functions=FUNCS + ['machine:Machine.move_to'], weight=2)
def one(c):
    """from any state whose range encloses the position: the new range is the old one extended to the new position, nothing more"""
    axes = c.choice('axes', ['XYZ', 'XYZAC', 'XY'])
    r = c.choice('code', [('G', 0), ('G', 1), ('G', 2), ('G', 38.4), ('G', 5.2), ('G', 33.1)])
    m = machine(c, axes=axes, cs=c.choice('cs', [1, 8]), dist=c.choice('dist', ['abs', 'inc']))
    lo, hi = box(m, axes)
    given = {a: c.real('g.' + a) for a in c.choice('named', ['', 'X', 'YZ', 'XYZ', 'Y'])}
    m.process_gcodes(code(c, r[0], r[1], **given))
    lo2, hi2 = box(m, axes)
    for a in axes:
        p = getattr(m.abs_pos, a)
        c.check('minimum is the smaller of the old minimum and the new position', c.eq(lo2[a], c.min(lo[a], p)))
        c.check('maximum is the larger of the old maximum and the new position', c.eq(hi2[a], c.max(hi[a], p)))
        c.check('range encloses the position', c.And(c.le(lo2[a], p), c.le(p, hi2[a])))
    c.check('unit of the range', m.abs_range_min.unit == m.abs_pos.unit and m.abs_range_max.unit == m.abs_pos.unit)


@ob('setting the position', functions=FUNCS)
def setpos(c):
    unit = c.choice('unit', [0, 1])
    m = machine(c, cs=c.choice('cs', [1, 8]), unit=unit, plain=(unit == 0))
    lo, hi = box(m, 'XYZ')
    p = pos(c, 'p', 'XYZ', c.choice('pu', [unit, 1 - unit]))
    m.pos = p
    # compare in mm whatever unit the machine now keeps
    def mm(x, u):
        return x if u == 1 else x * c.lit(25.4)
    lo2, hi2 = box(m, 'XYZ')
    for a in 'XYZ':
        q = mm(getattr(m.abs_pos, a), m.abs_pos.unit)
        c.check('minimum is the smaller of the old minimum and the new position', c.eq(mm(lo2[a], m.abs_range_min.unit), c.min(mm(lo[a], unit), q)))
        c.check('maximum is the larger of the old maximum and the new position', c.eq(mm(hi2[a], m.abs_range_max.unit), c.max(mm(hi[a], unit), q)))


@ob('start', functions=['machine:Machine.__init__'])
def start(c):
    M0 = c.choice('cls', [c.pg.machine.Machine, c.pg.machine.NullMachine])
    axes = c.choice('axes', ['XYZ', 'XYZABCUVW', 'X'])
    m = type('M', (M0,), {'axes': set(axes)})()
    lo, hi = box(m, axes)
    for a in axes:
        c.check('range of a new machine is its position', c.And(c.eq(lo[a], getattr(m.abs_pos, a)), c.eq(hi[a], getattr(m.abs_pos, a))))


@ob('codes that do not move', functions=['machine:Machine.set_mode', 'gcodes:GCode.process'])
def still(c):
    from .tables import NOT_MOVES, LETTERS
    r = c.choice('code', list(NOT_MOVES) + [(l, 7, k, g, e, '', '') for (l, k, g, e) in LETTERS])
    m = machine(c, cs=c.choice('cs', [1, 3]), dist=c.choice('dist', ['abs', 'inc']))
    lo, hi = box(m, 'XYZ')
    m.process_gcodes(code(c, r[0], r[1]))
    lo2, hi2 = box(m, 'XYZ')
    for a in 'XYZ':
        c.check('range unchanged', c.And(c.eq(lo2[a], lo[a]), c.eq(hi2[a], hi[a])))


@ob('canned cycle', functions=FUNCS + ['gcodes:GCodeCannedCycle._process'], kind='bounded', bound='at most 3 repeats (L)')
def canned(c):
    """the range still encloses the position, never shrinks, and stretches no further than the old range and the cycle's own levels"""
    r = c.choice('code', [x for x in CANNED if x[1] != 76])
    dist = c.choice('dist', ['abs', 'inc'])
    m = machine(c, cs=c.choice('cs', [1, 8]), dist=dist)
    ret = c.choice('ret', [None, 98, 99])
    if ret:
        m.set_mode(code(c, 'G', ret))
    L = c.choice('L', [None, 1, 2, 3])
    lo, hi = box(m, 'XYZ')
    kw = {a: c.real('g.' + a) for a in c.choice('named', ['XZ', 'XYZ'])}
    kw['R'] = c.real('R')
    if 'Q' in r[5]:
        kw['Q'] = c.real('Q')
    if L is not None:
        kw['L'] = L
    # record every position the machine passes through
    seen = []
    spy(m, lambda p: seen.append({a: getattr(p, a) for a in 'XYZ'}))
    m.process_gcodes(code(c, r[0], r[1], **kw))
    lo2, hi2 = box(m, 'XYZ')
    for a in 'XYZ':
        p = getattr(m.abs_pos, a)
        c.check('range encloses the position', c.And(c.le(lo2[a], p), c.le(p, hi2[a])))
        c.check('range never shrinks', c.And(c.le(lo2[a], lo[a]), c.le(hi[a], hi2[a])))
        l, h = lo[a], hi[a]
        for s in seen:
            l, h = c.min(l, s[a]), c.max(h, s[a])
        c.check('range is the box of all positions visited', c.And(c.eq(lo2[a], l), c.eq(hi2[a], h)))


@ob('canned cycle repeated', functions=FUNCS + ['gcodes:GCodeCannedCycle._process'])
def canned_any(c):
    """as above for any repeat count: the range is the box of the start and the end (the way is straight per axis)"""
    r = c.choice('code', [x for x in CANNED if x[1] != 76])
    dist = c.choice('dist', ['abs', 'inc'])
    m = machine(c, cs=c.choice('cs', [1, 8]), dist=dist)
    ret = c.choice('ret', [98, 99])
    m.set_mode(code(c, 'G', ret))
    n = c.choice('plane', [17, 18, 19])
    m.set_mode(code(c, 'G', n))
    normal = {17: 'Z', 18: 'Y', 19: 'X'}[n]
    L = c.int('L', 1, None if c.symbolic else 40)
    lo, hi = box(m, 'XYZ')
    start = {a: getattr(m.abs_pos, a) for a in 'XYZ'}
    off = offsets(m)
    kw = {a: c.real('g.' + a) for a in c.choice('named', ['XZ', 'XYZ', 'Y'])}
    kw['R'] = c.real('R')
    moves = {a: v for a, v in kw.items() if a in 'XYZ' and a != normal}
    fixed = {}
    if ret == 99:
        (fixed if dist == 'inc' else moves)[normal] = kw['R']
    if dist == 'abs':
        moves = {a: v + off[a] for a, v in moves.items()}
    if 'Q' in r[5]:
        kw['Q'] = c.real('Q')
    repeat_contract(c, m, dist, moves, fixed)
    m.process_gcodes(code(c, r[0], r[1], L=L, **kw))
    lo2, hi2 = box(m, 'XYZ')
    for a in 'XYZ':
        p = start[a] + (moves.get(a, 0) * L + fixed.get(a, 0)) if dist == 'inc' else moves.get(a, start[a])
        c.check('position after all repeats', c.eq(getattr(m.abs_pos, a), p, 1e-6 * (1 + abs(p)) * 40 if not c.symbolic else None))
        t = 1e-4 * (1 + abs(p)) if not c.symbolic else None
        c.check('range is the box of start and end', c.And(c.eq(lo2[a], c.min(lo[a], p), t), c.eq(hi2[a], c.max(hi[a], p), t)))


@ob('several moves', functions=FUNCS, kind='bounded', bound='sequences of 3 moves (any longer sequence follows from one move, by induction)')
def history(c):
    m = machine(c, dist='abs')
    lo, hi = box(m, 'XYZ')
    for i in range(3):
        d = c.choice('d%d' % i, [90, 91])
        a = c.choice('a%d' % i, ['X', 'YZ'])
        given = {x: c.real('g%d.%s' % (i, x)) for x in a}
        m.process_gcodes(code(c, 'G', d), code(c, 'G', i % 2, **given))
        for x in 'XYZ':
            p = getattr(m.abs_pos, x)
            lo[x], hi[x] = c.min(lo[x], p), c.max(hi[x], p)
    lo2, hi2 = box(m, 'XYZ')
    for x in 'XYZ':
        c.check('range is the box of all positions visited', c.And(c.eq(lo2[x], lo[x]), c.eq(hi2[x], hi[x])))
