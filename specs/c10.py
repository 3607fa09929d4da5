from pyvc.api import Spec
from .common import *
from .tables import CODES, LETTERS, GROUPS, MOVES, CANNED, row

SPEC = Spec('C10')
ob = SPEC.ob
ALL = list(CODES) + [('F', None, 'GCodeFeedRate', 201, 40, '', ''), ('S', None, 'GCodeSpindleSpeed', 202, 50, '', ''), ('T', '12', 'GCodeSelectTool', 203, 60, '', ''),
                     ('N', 5, 'GCodeLineNumber', None, 0, '', ''), ('O', 'prog', 'GCodeProgramName', None, 1, '', '')]
NAME_OF = {v: k for k, v in GROUPS.items()}
PRIOR = ['default', 'null', 'busy', 'cycle']


def prior(c):
    """machine in one of several mode states (every group set / unset / with retained parameters)"""
    k = c.choice('prior', PRIOR)
    if k == 'null':
        m = machine(c, cls=c.pg.machine.NullMachine, dist=None, plain=True)
        m.set_mode(code(c, 'G', 17))    # cycles need a plane
        return m
    m = machine(c, plain=True)
    if k == 'busy':
        for x in [('G', 2), ('G', 19), ('G', 91), ('G', 90.1), ('G', 93), ('G', 20), ('G', 41), ('G', 43), ('G', 99), ('G', 57), ('G', 64), ('G', 96), ('G', 7),
                  ('M', 1), ('M', 4), ('M', 7), ('M', 49), ('F', 10.5), ('S', 20.5), ('T', '3')]:
            m.set_mode(code(c, *x))
    elif k == 'cycle':
        m.set_mode(code(c, 'G', 83, X=c.real('pc.X'), Z=c.real('pc.Z'), R=c.real('pc.R'), Q=c.real('pc.Q')))
    return m


def pvalue(c, l):
    return c.int('p.' + l, 0, 3) if l == 'L' else ('7' if l == 'T' else c.real('p.' + l))


def build(c, r, full):
    ps = ''
    if full == 'all':
        ps = r[5]
    elif full == 'some':
        ps = [x for x in r[5] if x in 'XZRPQ']
    if r in CANNED and 'R' not in ps:
        ps = [x for x in r[5] if x in 'ZR']
    value = r[1] if r[1] is not None else c.real('v')
    given = {p: pvalue(c, p) for p in ps}
    return value, given, code(c, r[0], value, **given)


def modes(m):
    return state_of(m)['modes']


@ob('one code', functions=['gcodes:GCode.process', 'gcodes:GCode._process_mode', 'machine:Machine.set_mode', 'machine:Mode.set_mode', 'gcodes:GCode.modal_copy',
                           'machine:Mode.__getattr__', 'machine:Mode.gcodes', 'gcodes:GCodeCancelCannedCycle._process'], weight=2)
def one(c):
    r = c.choice('code', ALL)
    how = c.choice('how', ['process', 'process', 'set_mode'])
    m = prior(c)
    value, given, g = build(c, r, c.choice('params', ['none', 'some', 'all']))
    before = modes(m)
    if how == 'process':
        m.process_gcodes(g)
    else:
        m.set_mode(g)
    after = modes(m)
    grp = r[3]
    for k in sorted(set(before) | set(after)):
        if k == grp:
            continue
        if r[1] == 80 and r[0] == 'G' and k == 1 and how == 'process':
            c.check('G80 clears the motion mode', k not in after and m.mode.motion is None)
            continue
        same_mode(c, 'modes of other groups stay', after.get(k), before.get(k))
    if grp is not None:
        c.check('the code\'s group holds a mode', grp in after)
        got = after[grp]
        c.check('mode is the code', got[0] is type(g) and got[1] == r[0] and c.eq(got[2], value) if r[0] not in 'TO' else got[2] == value)
        retained = {p: v for p, v in given.items() if p in r[6]}
        c.check('mode keeps the retained parameters only', set(got[3]) == set(retained))
        for p in retained:
            c.check('retained parameter value', c.eq(got[3][p], retained[p]))
        named = getattr(m.mode, NAME_OF[grp])
        c.check('mode read by name', named is not None and named.word == g.word)


@ob('independence', functions=['gcodes:GCode.modal_copy', 'machine:Mode.set_mode', 'machine:Mode.__setattr__'])
def independent(c):
    r = c.choice('code', [x for x in ALL if x[3] is not None])
    m = prior(c)
    value, given, g = build(c, r, c.choice('params', ['none', 'all']))
    how = c.choice('how', ['process', 'set_mode', 'assign', 'returned'])
    if how == 'process':
        m.process_gcodes(g)
    elif how == 'set_mode':
        m.set_mode(g)
    elif how == 'assign':
        setattr(m.mode, NAME_OF[r[3]], g)
    else:
        m.mode.set_mode(g)
    before = state_of(m)
    what = c.choice('edit', ['word', 'params', 'delete', 'parameter word'])
    if what == 'word':
        g.word.value = '9' if r[0] in 'TO' else 5
    elif what == 'params':
        for p in given:
            setattr(g, p, '1' if p == 'T' else 1)
    elif what == 'delete':
        g.params.clear()
    else:
        for w in g.params.values():
            w.value = '2' if w.letter == 'T' else 2
            w.letter = 'A'
    same_state(c, 'machine after editing the code', state_of(m), before)


@ob('block edits', functions=['machine:Machine.process_block', 'machine:Machine.modal_gcode', 'machine:Machine.block_modal_gcodes'])
def block_edits(c):
    text = c.choice('text', ['G1 X1 Y2', 'G81 X1 Z-2 R3', 'F100 S200 M3 G2 X1 I1 J0', 'X5 Y6', 'G90 G20 T3', 'G83 X1 Z-1 R1 Q1'])
    m = prior(c)
    if text.startswith('X'):
        m.set_mode(code(c, 'G', 82, Z=1.5, R=2.5, P=0.5))
    b = c.pg.block.Block(text)
    extra = m.block_modal_gcodes(b) if c.bool('expand') else []
    m.process_block(b)
    before = state_of(m)
    x = c.real('x')
    for g in list(b.gcodes) + list(extra):
        g.word.value = '4' if g.word.letter == 'T' else 4
        for w in g.params.values():
            w.value = x
    for w in b.words + b.modal_params:
        w.value = '4' if w.letter == 'T' else 6
    same_state(c, 'machine after editing the block it ran', state_of(m), before)


@ob('modal code edits', functions=['machine:Machine.modal_gcode'])
def modal_edits(c):
    """the code made of bare parameters is independent of the mode too"""
    m = prior(c)
    v = c.choice('motion', [1, 81, 83, 2])
    kw = {'Z': c.real('Z'), 'R': c.real('R')} if v in (81, 83) else {}
    m.set_mode(code(c, 'G', v, **kw))
    before = state_of(m)
    g = m.modal_gcode([c.pg.words.Word('X', c.real('X'))])
    g.word.value = 3
    for w in g.params.values():
        w.value = 9
    same_state(c, 'machine after editing the modal code', state_of(m), before)


@ob('wrong slot', functions=['machine:Mode.__setattr__'])
def slots(c):
    m = machine(c, plain=True, motion=81)
    before = state_of(m)
    bad = c.choice('value', ['code', 'none', 'text', 'word'])
    r = c.choice('code', ALL) if bad == 'code' else ALL[1]
    slot = c.choice('slot', sorted(GROUPS))
    E = c.pg.exceptions.MachineInvalidState
    if bad == 'none':
        setattr(m.mode, slot, None)
        after = modes(m)
        c.check('cleared', GROUPS[slot] not in after and getattr(m.mode, slot) is None)
        for k in sorted(before['modes']):
            if k != GROUPS[slot]:
                same_mode(c, 'other modes stay', after.get(k), before['modes'][k])
        return
    value, given, g = build(c, r, 'none')
    v = {'code': g, 'text': 'G1', 'word': g.word}[bad]
    ok = bad == 'code' and r[3] == GROUPS[slot]
    try:
        setattr(m.mode, slot, v)
        raised = False
    except E:
        raised = True
    c.check('a code is accepted exactly in its own group\'s slot', raised == (not ok))
    if raised:
        same_state(c, 'machine after a refused mode', state_of(m), before)
    else:
        after = modes(m)
        c.check('mode is the code', after[GROUPS[slot]][0] is type(g))
        for k in sorted(set(before['modes']) | set(after)):
            if k != GROUPS[slot]:
                same_mode(c, 'other modes stay', after.get(k), before['modes'].get(k))


@ob('G80', functions=['gcodes:GCodeCancelCannedCycle._process', 'machine:Machine.process_gcodes'])
def g80(c):
    """alone it clears the motion mode, with a motion on the line that motion is the mode"""
    m = prior(c)
    v = c.choice('with', [None, 0, 1, 2, 81, 38.2])
    order = c.bool('first')
    gs = [code(c, 'G', 80)]
    if v is not None:
        kw = {'R': 1.0, 'Z': 0.0} if v == 81 else {}
        gs.insert(0 if order else 1, code(c, 'G', v, **kw))
    m.process_gcodes(*gs)
    if v is None:
        c.check('G80 alone clears the motion mode', m.mode.motion is None)
        m.process_gcodes(code(c, 'M', 5), code(c, 'G', 21))
        c.check('and it stays cleared', m.mode.motion is None)
    else:
        c.check('motion on the same line is active afterwards', m.mode.motion is not None and m.mode.motion.word.value == v)


@ob('line of codes', functions=['machine:Machine.process_gcodes', 'machine:Mode.set_mode'])
def line(c):
    """codes of different groups on one line each set their own group"""
    m = prior(c)
    picks = [c.choice('g1', [('G', 0), ('G', 3), ('G', 38.5)]), c.choice('g2', [('G', 18), ('G', 17)]), c.choice('g3', [('M', 3), ('M', 5)]), ('F', 123.5),
             c.choice('g4', [('G', 59.1), ('G', 54)]), c.choice('g5', [('G', 98), ('M', 9)])]
    rev = c.bool('reversed')
    before = modes(m)
    gs = [code(c, *p) for p in picks]
    m.process_gcodes(*(gs[::-1] if rev else gs))
    after = modes(m)
    mine = {}
    for p in picks:
        mine[row(*p)[3]] = p
    for k in sorted(set(before) | set(after)):
        if k in mine:
            c.check('each group has its code', after[k][1] == mine[k][0] and after[k][2] == mine[k][1])
        else:
            same_mode(c, 'other modes stay', after.get(k), before.get(k))
