from pyvc.api import Spec
from .common import *

SPEC = Spec('C13')
ob = SPEC.ob
CONV = ['machine:Machine.abs2work', 'machine:Machine.work2abs', 'machine:State.coord_sys', 'machine:Position.__add__', 'machine:Position.__sub__']
AXES = ['XYZ', 'XY', 'XYZABCUVW']


@ob('machine = work + offsets', functions=CONV + ['machine:Machine.pos'])
def formula(c):
    axes = c.choice('axes', AXES)
    cs = c.choice('cs', sorted(CS_CODES))
    m = machine(c, axes=axes, cs=cs)
    st = state_of(m)
    off = offsets(m, axes)
    w = m.pos
    for a in axes:
        c.check('machine coordinate = work coordinate + system offset + temporary offset', c.eq(getattr(m.abs_pos, a), getattr(w, a) + off[a]))
    p = pos(c, 'p', axes, 1)
    sp = snap(p)
    q = m.work2abs(p)
    for a in axes:
        c.check('work to machine adds the offsets', c.eq(getattr(q, a), sp[2][a] + off[a]))
    r = m.abs2work(p)
    for a in axes:
        c.check('machine to work subtracts the offsets', c.eq(getattr(r, a), sp[2][a] - off[a]))
    frozen(c, 'converted position', p, sp)
    same_state(c, 'converting and reading leave the machine alone', state_of(m), st)


@ob('inverse', functions=CONV)
def inverse(c):
    axes = c.choice('axes', AXES)
    m = machine(c, axes=axes, cs=c.choice('cs', sorted(CS_CODES)))
    unit = c.choice('unit', [0, 1])
    p = pos(c, 'p', axes, unit)
    sp = snap(p)
    a1 = m.abs2work(m.work2abs(p))
    b1 = m.work2abs(m.abs2work(p))
    c.check('unit kept', a1.unit == unit and b1.unit == unit)
    same_coords(c, 'work -> machine -> work', a1, sp[2])
    same_coords(c, 'machine -> work -> machine', b1, sp[2])


@ob('no coordinate system selected', functions=CONV)
def unselected(c):
    """only the temporary offset counts"""
    axes = c.choice('axes', AXES)
    m = machine(c, axes=axes)
    m.state.cur_coord_sys = c.choice('selected', [None, 0, 10])
    tmp = {a: getattr(m.state.offset, a) for a in axes}
    st = state_of(m)
    p = pos(c, 'p', axes, 1)
    q, r, w = m.work2abs(p), m.abs2work(p), m.pos
    for a in axes:
        x = getattr(p, a)
        c.check('work to machine adds the temporary offset', c.eq(getattr(q, a), x + tmp[a]))
        c.check('machine to work subtracts the temporary offset', c.eq(getattr(r, a), x - tmp[a]))
        c.check('machine coordinate = work coordinate + temporary offset', c.eq(getattr(m.abs_pos, a), getattr(w, a) + tmp[a]))
    same_state(c, 'converting and reading leave the machine alone', state_of(m), st)


@ob('setting the work position', functions=['machine:Machine.pos', 'machine:Machine.work2abs', 'machine:Machine._update_abs_range'])
def setter(c):
    axes = c.choice('axes', AXES)
    m = machine(c, axes=axes, cs=c.choice('cs', sorted(CS_CODES)))
    off = offsets(m, axes)
    st = state_of(m)
    unit = c.choice('unit', [0, 1])
    p = pos(c, 'p', axes, unit)
    sp = snap(p)
    m.pos = p
    ab = m.abs_pos
    f = c.lit(25.4) if unit == 0 else 1
    if ab.unit == unit:
        k, o = 1, (1 / c.lit(25.4) if unit == 0 else 1)
    else:
        k, o = (f, 1) if ab.unit == 1 else (1 / c.lit(25.4), 1 / c.lit(25.4))
    for a in axes:
        c.check('machine position is the matching one', c.eq(getattr(ab, a), sp[2][a] * k + off[a] * o))
    for a in axes:
        c.check('the work position reads back', c.eq(getattr(m.pos, a), sp[2][a] * k))
    frozen(c, 'assigned position', p, sp)
    same_state(c, 'stored offsets and modes stay', state_of(m), st, ignore=('pos', 'min', 'max'))


@ob('selecting a coordinate system', functions=['machine:Machine.set_mode', 'gcodes:GCodeSelectCoordinateSystem1', 'gcodes:GCodeSelectCoordinateSystem2', 'gcodes:GCodeSelectCoordinateSystem3',
    'gcodes:GCodeSelectCoordinateSystem4', 'gcodes:GCodeSelectCoordinateSystem5', 'gcodes:GCodeSelectCoordinateSystem6', 'gcodes:GCodeSelectCoordinateSystem7',
    'gcodes:GCodeSelectCoordinateSystem8', 'gcodes:GCodeSelectCoordinateSystem9'])
def select(c):
    s0 = c.choice('s0', sorted(CS_CODES))
    s1 = c.choice('s1', sorted(CS_CODES))
    how = c.choice('how', ['code', 'set_mode', 'text'])
    m = machine(c, cs=s0, cls=c.choice('cls', [c.pg.machine.Machine, c.pg.machine.NullMachine]) if how == 'code' else None)
    st = state_of(m)
    exp = {a: getattr(m.state.coord_systems[s1].offset, a) for a in 'XYZ'}
    tmp = {a: getattr(m.state.offset, a) for a in 'XYZ'}
    if how == 'code':
        m.process_gcodes(code(c, 'G', CS_CODES[s1]))
    elif how == 'set_mode':
        m.set_mode(code(c, 'G', CS_CODES[s1]))
    else:
        m.process_str('G%s' % CS_CODES[s1])
    c.check('the system is selected', m.state.cur_coord_sys == s1)
    act = m.state.coord_sys.offset
    for a in 'XYZ':
        c.check('active offset is the stored offset of that system', c.eq(getattr(act, a), exp[a]))
        c.check('work position follows', c.eq(getattr(m.pos, a), getattr(m.abs_pos, a) - exp[a] - tmp[a]))
    same_state(c, 'machine does not move, no stored offset changes', state_of(m), st, ignore=('cur', 'modes'))


@ob('selection stays', functions=['machine:Machine.set_mode'])
def stays(c):
    """codes of other groups never change the selected system (inductive step for histories)"""
    from .tables import CODES
    s0 = c.choice('s0', [1, 2, 6, 9])
    m = machine(c, cs=s0)
    r = c.choice('code', [x for x in CODES if x[3] != 12])
    params = {'X': 1.0} if 'X' in r[5] else {}
    if 'R' in r[5] and 'Q' in r[5]:
        params['Q'] = 1.0
    if r[2].startswith('GCodeDrill') or r[2].startswith('GCodeBor'):
        params.update(Z=0.0, R=1.0)
    st = state_of(m)
    m.process_gcodes(code(c, r[0], r[1], **params))
    c.check('selected system stays', m.state.cur_coord_sys == s0)
    same_state(c, 'stored offsets', state_of(m), st, ignore=('pos', 'min', 'max', 'modes'))
