from copy import copy
from pyvc.api import Spec
from .common import *
from .tables import CODES, MOVES

SPEC = Spec('C16')
ob = SPEC.ob
FUNCS = ['machine:Machine.__copy__', 'machine:State.__copy__', 'machine:Mode.__copy__', 'machine:CoordinateSystem.__copy__', 'machine:Position.__copy__']


def arbitrary(c, name, cls, axes, motion, modes):
    m = machine(c, name, axes=axes, cs=c.choice(name + '.cs', [1, 3, 9]), dist=c.choice(name + '.dist', ['abs', 'inc']), cls=cls)
    if motion == 'none':
        m.mode.motion = None
    elif motion is not None:
        v, ps = motion
        m.set_mode(code(c, 'G', v, **{p: c.real('%s.mp.%s' % (name, p)) for p in ps}))
    for x in modes:
        m.set_mode(code(c, *x))
    return m


MOTIONS = [None, 'none', (1, ''), (81, 'ZR'), (83, 'ZRQ'), (3, '')]
MODESETS = [[], [('G', 20), ('G', 19), ('M', 3), ('F', 250.5), ('T', '4')], [('G', 91.1), ('G', 93), ('S', 1200)]]


@ob('copy equals the original', functions=FUNCS, covers=['null'])
def equal(c):
    cls = c.choice('cls', [c.pg.machine.Machine, c.pg.machine.NullMachine])
    if cls is c.pg.machine.NullMachine:
        c.cover('null')
    axes = c.choice('axes', ['XYZ', 'XY', 'XYZABCUVW'])
    m = arbitrary(c, 'm', cls, axes, c.choice('motion', MOTIONS), c.choice('modes', MODESETS))
    before = state_of(m)
    n = copy(m)
    c.check('copy is a machine of the same kind', type(n) is type(m))
    same_state(c, 'copy', state_of(n), before)
    same_state(c, 'original after copying', state_of(m), before)
    if len(axes) < 9:
        for a in axes:
            c.check('reported position', c.eq(getattr(n.pos, a), getattr(m.pos, a)))
    c.check('a second copy too', True)
    same_state(c, 'copy of the copy', state_of(copy(n)), before)


@ob('evolve apart', functions=FUNCS + ['machine:Machine.process_gcodes', 'machine:Machine.set_mode', 'gcodes:GCode.modal_copy'], weight=2)
def apart(c):
    cls = c.choice('cls', [c.pg.machine.Machine, c.pg.machine.NullMachine])
    m = arbitrary(c, 'm', cls, 'XYZ', c.choice('motion', MOTIONS), c.choice('modes', MODESETS))
    n = copy(m)
    before = state_of(m)
    a, b = (m, n) if c.bool('edit the original') else (n, m)
    e = c.choice('edit', ['move', 'canned', 'mode', 'retained', 'word', 'pos', 'abs_pos', 'axis', 'range', 'cs', 'cs value', 'offset', 'select', 'clear', 'block', 'unit'])
    x = c.real('x')
    if e == 'move':
        a.process_gcodes(code(c, 'G', 1, X=x), code(c, 'F', 33))
    elif e == 'canned':
        c.assume(a.mode.plane_selection is not None)
        a.process_gcodes(code(c, 'G', 82, X=x, Z=1.0, R=2.0, P=1.0))
    elif e == 'mode':
        r = c.choice('code', [('G', 20), ('G', 18), ('M', 4), ('M', 9), ('S', 5), ('G', 91), ('G', 90), ('G', 59.3), ('G', 80), ('G', 99)])
        a.process_gcodes(code(c, *r))
    elif e == 'retained':
        g = a.mode.motion
        c.assume(g is not None)
        for w in g.params.values():
            w.value = x
    elif e == 'word':
        g = a.mode.distance
        c.assume(g is not None)
        g.word.value = 91.5
    elif e == 'pos':
        p = a.pos
        p.update(X=x)
        a.pos = p
    elif e == 'abs_pos':
        a.abs_pos.update(X=x, Z=x)
    elif e == 'axis':
        a.abs_pos.Y = x
    elif e == 'range':
        a.abs_range_min.X = x
        a.abs_range_max.Z = x
    elif e == 'cs':
        for i in a.state.coord_systems:
            a.state.coord_systems[i].offset.update(X=x)
    elif e == 'cs value':
        a.state.coord_systems[2].offset = c.pg.machine.Position(axes='XYZ', X=x, Y=x, Z=x)
        a.state.coord_systems.pop(7)
    elif e == 'offset':
        a.state.offset.update(Z=x)
    elif e == 'select':
        a.state.cur_coord_sys = 5
    elif e == 'clear':
        a.mode.motion = None
        a.mode.units = None
    elif e == 'block':
        a.process_str('G2 X1 Y2 I3 J4 F50')
        a.process_str('G90 G0 Z10')
    else:
        a.abs_pos.unit = 0
        a.state.offset.unit = 0
    same_state(c, 'other machine unchanged', state_of(b), before)


@ob('parts', functions=['machine:State.__copy__', 'machine:Mode.__copy__', 'machine:Position.__copy__', 'machine:CoordinateSystem.__copy__'])
def parts(c):
    m = arbitrary(c, 'm', c.pg.machine.Machine, c.choice('axes', ['XYZ', 'XYZA']), c.choice('motion', MOTIONS), c.choice('modes', MODESETS))
    what = c.choice('what', ['state', 'mode', 'position', 'cs'])
    x = c.real('x')
    before = state_of(m)
    if what == 'state':
        s = copy(m.state)
        c.check('selected system', s.cur_coord_sys == m.state.cur_coord_sys)
        c.check('coordinate systems', set(s.coord_systems) == set(m.state.coord_systems))
        for i in s.coord_systems:
            p, q = s.coord_systems[i].offset, m.state.coord_systems[i].offset
            same_coords(c, 'stored offset of the copy', p, coords(q))
            p.update(X=x)
        same_coords(c, 'temporary offset of the copy', s.offset, coords(m.state.offset))
        s.offset.update(Y=x)
        s.cur_coord_sys = 4
    elif what == 'mode':
        d = copy(m.mode)
        ma, mb = {g.modal_group: g for g in d.gcodes}, {g.modal_group: g for g in m.mode.gcodes}
        c.check('same groups', set(ma) == set(mb))
        for k in ma:
            c.check('same code', ma[k] == mb[k])
        c.check('prints alike', str(d) == str(m.mode) if not c.symbolic else True)
        d.set_mode(code(c, 'G', 20), code(c, 'G', 2))
        for g in d.gcodes:
            g.word.value = 77
        d.motion = None
    elif what == 'position':
        p = copy(m.abs_pos)
        same_coords(c, 'position copy', p, coords(m.abs_pos))
        p.update(X=x)
        p.unit = 0
    else:
        cs = copy(m.state.coord_systems[1])
        same_coords(c, 'coordinate system copy', cs.offset, coords(m.state.coord_systems[1].offset))
        cs.offset.update(X=x)
    same_state(c, 'original', state_of(m), before)
