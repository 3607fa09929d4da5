from copy import copy
from pyvc.api import Spec
from .common import *
from .tables import MOVES, CANNED, row
from .loopspecs import repeat_contract

SPEC = Spec('C11')
ob = SPEC.ob
FUNCS = ['machine:Machine.modal_gcode', 'machine:Machine.process_gcodes', 'machine:Machine.process_block', 'gcodes:words2gcodes', 'gcodes:GCode.add_parameter']
MOTION = [r for r in MOVES if r[1] != 33.1] + [r for r in CANNED if r[1] != 76]


def words(c, vals):
    W = c.pg.words.Word
    return [W(k, v) for k, v in vals]


def block_of(c, vals):
    b = c.pg.block.Block()
    b.words = words(c, vals)
    b.modal_params = list(b.words)
    return b


def setup(c, r, dist=None, ret=None):
    """machine whose active motion is r, with arbitrary remembered parameters (for cycles, the depth, retract level and peck)"""
    m = machine(c, cs=c.choice('cs', [1, 6]), dist=dist or c.choice('dist', ['abs', 'inc']))
    if ret:
        m.set_mode(code(c, 'G', ret))
    kw = {}
    if r in CANNED:
        for l in sorted(set(r[6]) & set('ZRQP')):
            kw[l] = c.real('keep.' + l)
        if c.bool('keep.X'):
            kw['X'] = c.real('keep.x')
    m.set_mode(code(c, r[0], r[1], **kw))
    return m, kw


def given_words(c, r, subsets):
    named = c.choice('named', subsets)
    named = [p for p in named if p in r[5]]
    return [(p, c.int('g.' + p, 1, 2) if p == 'L' else c.real('g.' + p)) for p in named]


@ob('same as with the code written out', functions=FUNCS, kind='proof', weight=2, opts={'unroll': 2})
def same(c):
    r = c.choice('code', MOTION)
    m, kept = setup(c, r, ret=c.choice('ret', [None, 99]) if r in CANNED else None)
    vals = given_words(c, r, ['X', 'YX', 'XYZ', 'ZPR', 'IJX', 'RXA', 'YQK'])
    if not vals:
        vals = [('X', c.real('gx'))]
    twin = copy(m)
    blk = block_of(c, vals)
    if (len(vals) + int(r[1])) % 2:
        # asked before what it would do (leaves no trace)
        m.block_modal_gcodes(blk)
        m.modal_gcode(blk.modal_params)
    m.process_block(blk)
    full = dict((k, v) for k, v in kept.items())
    full.update(dict(vals))
    twin.process_gcodes(code(c, r[0], r[1], **full))
    same_state(c, 'same effect as the explicit line', state_of(m), state_of(twin))


@ob('repeated cycle', functions=FUNCS + ['gcodes:GCodeCannedCycle._process'], opts={'unroll': 2})
def repeated(c):
    """any repeat count (L)"""
    r = c.choice('code', [x for x in CANNED if x[1] != 76])
    dist = c.choice('dist', ['abs', 'inc'])
    ret = c.choice('ret', [98, 99])
    m, kept = setup(c, r, dist=dist, ret=ret)
    vals = [(p, c.real('g.' + p)) for p in c.choice('named', ['X', 'YX', 'ZR', 'R', ''])] + [('L', c.int('L', 1, None if c.symbolic else 30))]
    twin = copy(m)
    full = dict(kept)
    full.update(dict(vals))
    moves = {a: v for a, v in full.items() if a in 'XY'}
    fixed = {}
    if ret == 99:
        (fixed if dist == 'inc' else moves)['Z'] = full['R']
    off = offsets(m)
    if dist == 'abs':
        moves = {a: v + off[a] for a, v in moves.items()}
    repeat_contract(c, m, dist, moves, fixed)
    repeat_contract(c, twin, dist, moves, fixed)
    m.process_block(block_of(c, vals))
    twin.process_gcodes(code(c, r[0], r[1], **full))
    same_state(c, 'same effect as the explicit line', state_of(m), state_of(twin))


@ob('made code', functions=['machine:Machine.modal_gcode', 'machine:Machine.block_modal_gcodes'])
def made(c):
    """the code a machine makes of bare words: the active motion, remembered parameters filled in, given ones as given"""
    r = c.choice('code', MOTION)
    m, kept = setup(c, r, dist='abs')
    vals = given_words(c, r, ['X', 'ZX', 'RXY', 'Q', 'PIJ', 'LX'])
    before = state_of(m)
    if not vals:
        c.check('no words make no code', m.modal_gcode([]) is None)
        return
    if c.bool('via block'):
        gs = m.block_modal_gcodes(block_of(c, vals))
        c.check('one code', len(gs) == 1)
        g = gs[0]
    else:
        g = m.modal_gcode(words(c, vals))
    exp = dict(kept)
    exp.update(dict(vals))
    c.check('the active motion code', type(g) is type(m.mode.motion) and g.word == m.mode.motion.word)
    c.check('parameters: those given and those remembered', set(g.params) == set(exp))
    for k in sorted(exp):
        c.check('parameter value', c.eq(g.params[k].value, exp[k]))
    same_state(c, 'machine is only read', state_of(m), before)


@ob('refused', functions=FUNCS, covers=['no motion', 'bad'])
def refused(c):
    """no active motion, or a parameter it does not accept: state error, nothing happens"""
    E = c.pg.exceptions.MachineInvalidState
    r = c.choice('code', [None] + MOTION)
    if r is None:
        m = machine(c, cs=2, dist=c.choice('dist', ['abs', 'inc']))
        how = c.choice('clear', ['G80', 'assign', 'null'])
        if how == 'G80':
            m.process_gcodes(code(c, 'G', 80))
        elif how == 'assign':
            m.mode.motion = None
        else:
            m = machine(c, 'n', cls=c.pg.machine.NullMachine, cs=2, dist='abs')
        c.cover('no motion')
        accepted = ''
    else:
        m, _ = setup(c, r)
        accepted = r[5]
    letters = c.choice('letters', ['X', 'XE', 'D', 'HX', 'XYQ', 'PJ', 'L', 'R', 'IX', 'ZK'])
    vals = [(l, c.int('g.' + l, 0, 2) if l == 'L' else c.real('g.' + l)) for l in letters]
    bad = [l for l in letters if l not in accepted]
    c.assume(bool(bad))
    c.cover('bad')
    before = state_of(m)
    via = c.choice('via', ['process', 'gcodes', 'modal'])
    try:
        if via == 'process':
            m.process_block(block_of(c, vals))
        elif via == 'gcodes':
            m.block_modal_gcodes(block_of(c, vals))
        else:
            m.modal_gcode(words(c, vals))
        c.check('refused with the machine state error', False)
    except E:
        c.check('refused with the machine state error', True)
    same_state(c, 'machine after a refused line', state_of(m), before)


@ob('ignored', functions=FUNCS, opts={'unroll': 2})
def ignored(c):
    """told to ignore such parameters: exactly those have no effect"""
    r = c.choice('code', MOTION)
    m, kept = setup(c, r)
    letters = c.choice('letters', ['XE', 'DX', 'HY', 'XYQ', 'XPJ', 'D', 'EH', 'IXD', 'ZK', 'RX'])
    vals = [(l, c.real('g.' + l)) for l in letters]
    good = [(l, v) for l, v in vals if l in r[5]]
    c.assume(len(good) < len(vals))
    twin = copy(m)
    m.ignore_invalid_modal = True
    if r[2] == 'GCodeThreadingCycle' and not good:
        return
    m.process_block(block_of(c, vals))
    full = dict(kept)
    full.update(dict(good))
    twin.process_gcodes(code(c, r[0], r[1], **full))
    same_state(c, 'same effect as without the invalid parameters', state_of(m), state_of(twin))


@ob('ignored without motion', functions=FUNCS)
def ignored_none(c):
    m = machine(c, cs=2, dist='abs')
    m.mode.motion = None
    m.ignore_invalid_modal = True
    vals = [(l, c.real('g.' + l)) for l in c.choice('letters', ['X', 'XYZ', 'DE', 'R'])]
    before = state_of(m)
    b = block_of(c, vals)
    b.gcodes = [code(c, 'F', 12)] if c.bool('F') else []
    m.process_block(b)
    same_state(c, 'machine', state_of(m), before, ignore=('modes',))


@ob('clean block', functions=['machine:Machine.clean_block'])
def clean(c):
    r = c.choice('code', [None] + MOTION)
    m = machine(c, plain=True)
    if r is None:
        m.mode.motion = None
    else:
        m.set_mode(code(c, r[0], r[1]))
    own = c.choice('own', [None, ('G', 1), ('M', 3), ('G', 90), ('G', 83), ('G', 80)])
    letters = c.choice('letters', ['', 'X', 'XE', 'DX', 'HYE', 'XYQ', 'PJX', 'D', 'IXD', 'ZKR', 'LX'])
    vals = [(l, c.int('g.' + l, 0, 2) if l == 'L' else c.real('g.' + l)) for l in letters]
    b = block_of(c, vals)
    ws = list(b.modal_params)
    if own:
        b.gcodes = [code(c, *own)]
    gc = list(b.gcodes)
    before = state_of(m)
    m.clean_block(b)
    if r is None or (own and row(*own)[3] == 1):
        exp = []
    else:
        exp = [w for w in ws if w.letter in r[5]]
    c.check('exactly the parameters the active motion accepts stay, in order', len(b.modal_params) == len(exp) and all(a is e for a, e in zip(b.modal_params, exp)))
    c.check('codes of the block stay', len(b.gcodes) == len(gc) and all(a is e for a, e in zip(b.gcodes, gc)))
    same_state(c, 'machine is only read', state_of(m), before)


@ob('repeated parameter', functions=['machine:Machine.modal_gcode'])
def twice(c):
    """a letter given twice is refused, as on the line with the code written out"""
    r = c.choice('code', MOTION)
    m, kept = setup(c, r)
    l = c.choice('letter', ['X', 'Z', 'Y'])
    c.assume(l in r[5])
    vals = [(l, c.real('a')), ('Y' if l != 'Y' else 'X', c.real('o')), (l, c.real('b'))]
    before = state_of(m)
    try:
        m.process_block(block_of(c, vals))
        c.check('refused', False)
    except c.pg.exceptions.GCodeParameterError:
        c.check('refused', True)
    same_state(c, 'machine after a refused line', state_of(m), before)


TEXTS = ['X1 Y2', 'X-3.5', 'Z2', 'Y.5 A3', 'X1 Z-1 R3', 'Z-4']


@ob('whole program text', functions=['machine:Machine.process_str', 'line:Line.__init__', 'block:Block.__init__'])
def text(c):
    """through program text: 'X..' after 'G.. ...' against the line written out"""
    first = c.choice('first', ['G0 X1', 'G1 X1 Y1 F10', 'G2 X2 Y2 I1 J0', 'G81 X1 Z-1 R2', 'G83 X0 Y1 Z-2 R1 Q0.5', 'G38.2 Z-1', 'G82 Z-3 R2 P1', 'G91 G1 X1', 'G91 G85 X1 Z-1 R1'])
    t = c.choice('text', TEXTS)
    pre = {'G81': 'G81', 'G83': 'G83', 'G82': 'G82', 'G85': 'G85'}
    head = [w for w in first.split() if w[0] == 'G' and w != 'G91'][0]
    rest = dict((w[0], w) for w in first.split() if w[0] in 'ZRQPXY')
    r = row('G', float(head[1:]))
    given = t.split()
    c.assume(all(w[0] in r[5] for w in given))
    fill = [rest[k] for k in rest if k in r[6] and k not in [w[0] for w in given]]
    m = machine(c, cs=1, dist='abs')
    twin = copy(m)
    for x in (m, twin):
        x.process_str(first)
    m.process_str(t)
    twin.process_str(' '.join([head] + given + fill))
    same_state(c, 'same effect as the explicit line', state_of(m), state_of(twin))
