import itertools
from copy import copy
from pyvc.api import Spec
from .common import *
from .tables import CODES, LETTERS, row

SPEC = Spec('C09')
ob = SPEC.ob
ALL = list(CODES) + [('F', 100, 'GCodeFeedRate', 201, 40, '', ''), ('S', 1000, 'GCodeSpindleSpeed', 202, 50, '', ''), ('T', '12', 'GCodeSelectTool', 203, 60, '', ''),
                     ('N', 5, 'GCodeLineNumber', None, 0, '', ''), ('O', 'prog', 'GCodeProgramName', None, 1, '', '')]
RANKS = sorted(set(r[4] for r in ALL))


def build(c, r, **kw):
    if r[2].startswith(('GCodeDrilling', 'GCodeBoring', 'GCodeThreading')):
        kw.setdefault('Z', 0.0)
        kw.setdefault('R', 1.0)
    return code(c, r[0], r[1], **kw)


def record(gs, log):
    """note the order in which the machine executes codes (through the public process method)"""
    for g in gs:
        def f(machine, g=g, run=g.process):
            log.append(g)
            return run(machine)
        g.__dict__['process'] = f


def run(c, m, gs, how):
    if how == 'gcodes':
        m.process_gcodes(*gs)
    else:
        b = c.pg.block.Block()
        b.gcodes = list(gs)
        m.process_block(b)


@ob('two codes', functions=['machine:Machine.process_gcodes', 'gcodes:GCode.__lt__', 'gcodes:GCode.__le__', 'gcodes:GCode.__gt__', 'gcodes:GCode.__ge__'])
def pairs(c):
    """every ordered pair of codes executes in the order of execution, equal ranks in text order"""
    a, b = c.choice('a', ALL), c.choice('b', ALL)
    m = shared(c)
    gs = [build(c, a), build(c, b)]
    log = []
    record(gs, log)
    run(c, m, gs, 'block' if (a[4] + b[4]) % 2 else 'gcodes')
    c.check('each code is executed once', len(log) == 2 and {id(g) for g in log} == {id(g) for g in gs})
    exp = gs if a[4] <= b[4] else gs[::-1]
    c.check('executed in the order of execution (ties: text order)', log[0] is exp[0] and log[1] is exp[1])
    x, y = gs
    c.check('comparison follows the order of execution', (x < y) == (a[4] < b[4]) and (x <= y) == (a[4] <= b[4]) and (x > y) == (a[4] > b[4]) and (x >= y) == (a[4] >= b[4]))


_machine = {}


def shared(c):
    from copy import copy
    m = c.pg.machine.Machine()
    return m


@ob('rank order', functions=['machine:Machine.process_gcodes', 'machine:Machine.block_modal_gcodes'], kind='bounded',
    bound='all permutations of 4 codes drawn from 9 groups (longer lines: random, up to 8 codes)')
def quads(c):
    pool = [('F', 100), ('M', 3), ('G', 4), ('G', 18), ('G', 20), ('G', 55), ('G', 91), ('G', 1), ('M', 2)]
    ranks = [row(*p)[4] for p in pool]
    i = c.choice('set', list(itertools.combinations(range(9), 4))[::4])
    p = c.choice('perm', list(itertools.permutations(range(4))))
    m = shared(c)
    kw = {}
    gs = [build(c, row(*pool[k]) if pool[k][0] != 'F' else ALL[-5]) for k in i]
    perm = [gs[k] for k in p]
    log = []
    record(perm, log)
    run(c, m, perm, 'block')
    c.check('executed in the order of execution', [id(g) for g in log] == [id(g) for g in gs] if [ranks[k] for k in i] == sorted(ranks[k] for k in i) else True)
    b = c.pg.block.Block()
    b.gcodes = list(perm)
    c.check('listed in the order of execution too', [id(g) for g in m.block_modal_gcodes(b)] == [id(g) for g in log])


@ob('bare words take their place', functions=['machine:Machine.process_gcodes'])
def modal(c):
    """the move made of bare axis words runs at the rank of motion, after the settings of the line whatever the order"""
    m = machine(c, cs=1, dist='abs', motion=1)
    twin = copy(m)
    x = c.real('x')
    pick = c.choice('codes', [[('G', 91)], [('G', 55), ('M', 2)], [('M', 2)], [('G', 59.3), ('G', 91), ('F', 10)]])
    b = c.pg.block.Block()
    b.gcodes = [code(c, *p) for p in pick]
    b.modal_params = [c.pg.words.Word('X', x)]
    m.process_block(b)
    for p in [q for q in pick if row(*q)[4] < 242]:
        twin.process_gcodes(code(c, *p))
    twin.process_gcodes(code(c, 'G', 1, X=x))
    for p in [q for q in pick if row(*q)[4] > 242]:
        twin.process_gcodes(code(c, *p))
    same_state(c, 'same as running the codes in order of execution', state_of(m), state_of(twin))


@ob('permutations leave the same state', functions=['machine:Machine.process_gcodes'])
def perms(c):
    sets = [[('G', 91), ('G', 1, 'X'), ('G', 55)], [('G', 80), ('G', 1, 'Y'), ('G', 90)], [('F', 7), ('G', 0, 'Z'), ('M', 30)],
            [('G', 20), ('G', 59.2), ('G', 91), ('G', 2, 'X')], [('G', 99), ('G', 19), ('G', 81, 'X'), ('G', 91)]]
    s = c.choice('set', sets)
    m = machine(c, cs=2, dist='abs')
    v, r = c.real('v'), c.real('r')

    def mk(p):
        kw = {p[2]: v} if len(p) > 2 else {}
        if p[1] == 81:
            kw['R'] = r
        return code(c, p[0], p[1], **kw)
    gs = [mk(p) for p in s]
    twin = copy(m)
    for g in sorted(gs, key=lambda g: row(g.word.letter, g.word.value)[4]):
        twin.process_gcodes(g)
    k = c.choice('perm', list(itertools.permutations(range(len(s)))))
    m.process_gcodes(*[gs[i] for i in k])
    same_state(c, 'same final state for every order of the text', state_of(m), state_of(twin))


@ob('long lines', functions=['machine:Machine.process_gcodes'], kind='sample')
def long(c):
    rng = c.rng
    gs = c.obj('codes', lambda r: [r.randrange(len(ALL)) for _ in range(r.randint(2, 9))])
    gs = [i for i in gs if ALL[i][1] not in (17.1, 18.1, 19.1)]      # cycles need an XYZ plane
    m = shared(c)
    objs = [build(c, ALL[i]) for i in gs]
    log = []
    record(objs, log)
    run(c, m, objs, 'block' if len(gs) % 2 else 'gcodes')
    exp = [o for _, o in sorted(zip(gs, objs), key=lambda t: ALL[t[0]][4])]
    c.check('executed in the order of execution (ties: text order)', len(log) == len(exp) and all(a is b for a, b in zip(log, exp)))


@ob('stable order of text', functions=['line:Line.__init__', 'block:Block.__init__', 'machine:Machine.process_str'], kind='sample')
def text(c):
    """through program text: permuted codes leave the machine in the same state"""
    k = c.obj('line', lambda r: r.sample(['G1 X%d Y2' % r.randint(-5, 5), 'F%d' % r.randint(1, 99), 'S%d' % r.randint(1, 9), 'M3', 'M8', 'G91', 'G20', 'G55', 'G18', 'G4', 'M6', 'G93', 'G41.1', 'G99', 'G61'], r.randint(2, 6)))
    # G1's words end where the next code begins, so order within the line is free except that the move keeps its words
    perm = c.obj('perm', lambda r: r.sample(range(len(k)), len(k)))
    a, b = c.pg.machine.Machine(), c.pg.machine.Machine()
    words = [t for t in k if not t.startswith('M6')]
    a.process_str(' '.join(k))
    b.process_str(' '.join(k[i] for i in perm))
    same_state(c, 'same final state', state_of(a), state_of(b))
