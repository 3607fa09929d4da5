from pyvc.api import Spec
from .common import *
from .tables import MOVES, NOT_MOVES, CANNED, LETTERS

SPEC = Spec('C12')
ob = SPEC.ob
FUNCS = ['machine:Machine.process_gcodes', 'machine:Machine.move_to', 'machine:Machine.pos', 'machine:Machine.abs2work', 'machine:Machine.work2abs',
         'gcodes:GCode.process', 'gcodes:GCode._process_mode', 'gcodes:GCodeMotion._process', 'gcodes:GCodeRapidMove._process', 'gcodes:GCode.get_param_dict']
CYC_MOVES = [r for r in MOVES]
EXTRA = 'FSEHIJKLPQRD'


def check_move(c, m, given, dist, before_abs, off, axes):
    """the machine moved as the contract says"""
    for a in axes:
        now = getattr(m.abs_pos, a)
        if a in given:
            if dist == 'inc':
                c.check('named axis moved by the amount given (incremental)', c.eq(now, before_abs[a] + given[a]))
            else:
                c.check('named axis is at the work coordinate given (absolute)', c.eq(now, given[a] + off[a]))
                c.check('reported work position of a named axis', c.eq(getattr(m.pos, a), given[a]))
        else:
            c.check('axis not named stays', c.eq(now, before_abs[a]))
    c.check('machine axes unchanged', set(m.abs_pos.axes) == set(axes))


@ob('move', functions=FUNCS, covers=['inc', 'abs'], weight=2)
def move(c):
    r = c.choice('code', CYC_MOVES)
    dist = c.choice('dist', ['abs', 'inc'])
    cs = c.choice('cs', [1, 4, 9])
    m = machine(c, cs=cs, dist=dist)
    named = subset_of(c, 'named', 'XYZ')
    given = {a: c.real('g.' + a) for a in named}
    before, off = coords(m.abs_pos), offsets(m)
    g = code(c, r[0], r[1], **given)
    m.process_gcodes(g)
    c.cover(dist)
    check_move(c, m, given, dist, before, off, 'XYZ')


@ob('other axes', functions=FUNCS)
def other_axes(c):
    axes = c.choice('axes', ['XY', 'XYZA', 'XYZABCUVW', 'XZ'])
    dist = c.choice('dist', ['abs', 'inc'])
    r = c.choice('code', [('G', 0), ('G', 1), ('G', 2), ('G', 38.3), ('G', 33)])
    m = machine(c, axes=axes, cs=c.choice('cs', [1, 7]), dist=dist)
    named = c.choice('named', ['X', 'A', 'XA', 'ZBW', 'XYZABCUVW', 'YU', ''])
    given = {a: c.real('g.' + a) for a in named}
    before, off = coords(m.abs_pos), offsets(m, axes)
    g = code(c, r[0], r[1], **given)
    m.process_gcodes(g)
    check_move(c, m, {a: v for a, v in given.items() if a in axes}, dist, before, off, axes)


@ob('arc and spline words', functions=FUNCS)
def arcs(c):
    """parameters that are not axes (I J K R P Q L) never move the machine"""
    r = c.choice('code', [x for x in MOVES if set(x[5]) & set('IJKRPQL')])
    dist = c.choice('dist', ['abs', 'inc'])
    m = machine(c, cs=c.choice('cs', [1, 2]), dist=dist)
    named = c.choice('named', ['', 'X', 'YZ', 'XYZ'])
    given = {a: c.real('g.' + a) for a in named}
    extra = {}
    for p in sorted(set(r[5]) & set('IJKRPQL')):
        extra[p] = c.int('e.' + p, 0, 50) if p == 'L' else c.real('e.' + p)
    before, off = coords(m.abs_pos), offsets(m)
    g = code(c, r[0], r[1], **dict(given, **extra))
    m.process_gcodes(g)
    check_move(c, m, given, dist, before, off, 'XYZ')


@ob('units of the machine', functions=FUNCS)
def units(c):
    """a machine whose position is kept in inches moves by the same rules"""
    dist = c.choice('dist', ['abs', 'inc'])
    r = c.choice('code', [('G', 0), ('G', 1), ('G', 3)])
    m = machine(c, unit=0, dist=dist, plain=True)
    named = subset_of(c, 'named', 'XYZ')
    given = {a: c.real('g.' + a) for a in named}
    before, off = coords(m.abs_pos), {a: 0 for a in 'XYZ'}
    m.process_gcodes(code(c, r[0], r[1], **given))
    c.check('unit unchanged', m.abs_pos.unit == 0)
    check_move(c, m, given, dist, before, off, 'XYZ')


@ob('codes that do not move', functions=['gcodes:GCode.process', 'gcodes:GCodeDwell._process', 'gcodes:GCodeCancelCannedCycle._process', 'machine:Machine.set_mode'])
def still(c):
    r = c.choice('code', [x for x in NOT_MOVES] + [(l, 7, k, g, e, '', '') for (l, k, g, e) in LETTERS])
    cs = c.choice('cs', [1, 3])
    m = machine(c, cs=cs, dist=c.choice('dist', ['abs', 'inc']), motion=c.choice('motion', [None, 1, 81]))
    with_params = c.bool('params')
    params = {p: (c.int('p.' + p, 0, 50) if p == 'L' else ('3' if p == 'T' else c.real('p.' + p))) for p in (r[5] if with_params else '')}
    before = coords(m.abs_pos)
    offs = state_of(m)
    g = code(c, r[0], r[1], **params)
    m.process_gcodes(g)
    for a in 'XYZ':
        c.check('machine does not move', c.eq(getattr(m.abs_pos, a), before[a]))
    after = state_of(m)
    same_state(c, 'nothing but the mode changes', after, offs, ignore=('modes', 'cur'))


@ob('several codes on a line', functions=FUNCS)
def line(c):
    """the distance mode and coordinate system given on the same line apply to the move of that line"""
    d0, d1 = c.choice('d0', ['abs', 'inc']), c.choice('d1', ['abs', 'inc', None])
    s0, s1 = c.choice('s0', [1, 5]), c.choice('s1', [None, 2, 9])
    m = machine(c, cs=s0, dist=d0)
    r = c.choice('code', [('G', 0), ('G', 1), ('G', 2)])
    named = c.choice('named', ['X', 'YZ', 'XYZ'])
    given = {a: c.real('g.' + a) for a in named}
    gs = [code(c, r[0], r[1], **given)]
    if d1:
        gs.append(code(c, 'G', 91 if d1 == 'inc' else 90))
    if s1:
        gs.append(code(c, 'G', CS_CODES[s1]))
    gs.append(code(c, 'F', 100))
    before = coords(m.abs_pos)
    m.process_gcodes(*gs)
    c.check('selected system', m.state.cur_coord_sys == (s1 or s0))
    check_move(c, m, given, d1 or d0, before, offsets(m), 'XYZ')
