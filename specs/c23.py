"""The normalising tool"""
from pyvc.api import Spec
from .common import *

SPEC = Spec('C23')
SPEC.level = 'other'     # the core of the property is discharged up to the stated bounds only
ob = SPEC.ob
SPEC.conc_s = 40
TOOL = ['scripts/pygcode-norm:main loop', 'scripts/pygcode-norm:write', 'scripts/pygcode-norm:split_and_process', 'utils:split_gcodes', 'machine:Machine.block_modal_gcodes']
SPEC.assume('the input program runs on the library machine without errors; values of at most three decimals')
MODE = 'G0 G54 G17 G21 G90 G94 M5 M9 T0 F0 S0'


# ---------------------------------------------------------------- sample programs
def val(r, lo=-20, hi=20):
    return r.choice(['%d', '%d', '%.1f', '%.3f']) % r.uniform(lo, hi)


def arc_line(r, plane, pos, inc, absolute=False):
    """quarter / half / full circle around a centre next to the position -> text, new position"""
    a, b, i, j = {17: 'XYIJ', 18: 'ZXKI', 19: 'YZJK'}[plane]
    q = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    k = r.randrange(4)
    rad = r.choice([1, 2, 2.5, 5, 0.25])
    turn = r.choice([1, 2, 3, 0])
    cw = r.random() < 0.5
    e = q[(k + (-turn if cw else turn)) % 4]
    s = q[k]
    ci, cj = -s[0] * rad, -s[1] * rad
    da, db = (e[0] - s[0]) * rad, (e[1] - s[1]) * rad
    n = 'Z' if plane == 17 else ('Y' if plane == 18 else 'X')
    dn = r.choice([None, None, 1, -2.5])
    f = lambda v: ('%.3f' % v).rstrip('0').rstrip('.')
    base = {x: 0 for x in 'XYZ'} if inc else pos
    t = 'G%d' % (2 if cw else 3)
    t += ' %s%s %s%s' % (a, f(base[a] + da), b, f(base[b] + db))
    if dn is not None:
        t += ' %s%s' % (n, f(base[n] + dn))
    if turn in (1,) and r.random() < 0.4:
        t += ' R%s' % f(rad)
    elif turn == 3 and r.random() < 0.4:
        t += ' R%s' % f(-rad)
    else:
        if absolute:
            ci, cj = ci + pos[a], cj + pos[b]
        t += ' %s%s %s%s' % (i, f(ci), j, f(cj))
    new = dict(pos)
    new[a] += da
    new[b] += db
    new[n] += dn or 0
    return t, new


def sample_program(r, arcs=True, cycles=True, n=6, planes=(17, 18, 19)):
    """lines of a program the machine accepts; the position is tracked so that arcs are well formed"""
    out = []
    pos = {a: 0.0 for a in 'XYZ'}
    inc, plane, motion, centre = False, 17, 'move', arcs and r.random() < 0.2
    if centre:
        out.append('G90.1')
    for _ in range(r.randint(1, n)):
        k = r.random()
        t = ''
        if k < 0.35 or (motion == 'none'):
            ax = r.sample('XYZ', r.randint(1, 3))
            t = r.choice(['G0', 'G1', 'G1', 'G00', 'g1'] if motion != 'none' else ['G0', 'G1'])
            d = {a: float(val(r)) for a in ax}
            t += ''.join(r.choice(['', ' ']) + a + ('%.3f' % d[a]).rstrip('0').rstrip('.') for a in ax)
            for a in ax:
                pos[a] = pos[a] + d[a] if inc else d[a]
            motion = 'move'
            if r.random() < 0.3:
                t = r.choice(['F100 ', 'S2000 M3 ', 'M8 ', 'N10 ']) + t
            elif r.random() < 0.2:
                t += r.choice([' F150', ' M3', ' S100', ' M9', ' F10 S20'])
            if r.random() < 0.15:
                g = r.choice(['G90', 'G91'])
                t += ' ' + g if r.random() < 0.5 else ''
                if g in t.split():
                    # applies to the move itself
                    was, inc = inc, g == 'G91'
                    if was != inc:
                        for a in ax:
                            pos[a] = (pos[a] - d[a]) + d[a] if False else (None)
                        out.append(t)
                        pos = None
                        break
        elif k < 0.55 and motion == 'move':
            ax = r.sample('XYZ', r.randint(1, 3))
            d = {a: float(val(r)) for a in ax}
            t = ' '.join(a + ('%.3f' % d[a]).rstrip('0').rstrip('.') for a in ax)
            for a in ax:
                pos[a] = pos[a] + d[a] if inc else d[a]
            if r.random() < 0.2:
                t = r.choice(['F120 ', 'M8 ', 'S50 M4 ', 'G17 ' if plane == 17 else 'M9 ']) + t
        elif k < 0.7 and arcs:
            t, pos = arc_line(r, plane, pos, inc, centre)
            motion = 'arc'
            if r.random() < 0.3:
                t = r.choice(['F100 ', 'M3 ', 'N7 ']) + t
            if r.random() < 0.2:
                t += r.choice([' M8', ' S200'])
        elif k < 0.8 and cycles and plane == 17:
            g = r.choice(['G81', 'G82', 'G83', 'G73', 'G85', 'G89'])
            x, y = float(val(r)), float(val(r))
            z, rr = r.choice([-1.0, -2.5]), r.choice([1.0, 2.0])
            if inc:
                z = -3.0
            q = r.choice(['0.5', '1'])
            t = '%s X%g Y%g Z%g R%g' % (g, round(x, 3), round(y, 3), z, rr)
            if g in ('G83', 'G73'):
                t += ' Q' + q
            if g in ('G82', 'G89'):
                t += ' P0.5'
            if r.random() < 0.3:
                t += ' L%d' % r.choice([1, 2, 3])
            if r.random() < 0.3:
                t = r.choice(['G98 ', 'G99 ', 'F50 ']) + t
            out.append(t)
            for _ in range(r.choice([0, 1, 2])):
                out.append('X%g Y%g' % (round(float(val(r)), 3), round(float(val(r)), 3)))
            out.append('G80')
            out.append(('G90 ' if inc else '') + 'G0 X1 Y2 Z5')
            inc = False
            pos = {'X': 1.0, 'Y': 2.0, 'Z': 5.0}
            motion = 'move'
            continue
        elif k < 0.86:
            t = r.choice(['G90', 'G91'])
            inc = t == 'G91'
        elif k < 0.875 and arcs:
            centre = r.random() < 0.6
            t = 'G90.1' if centre else 'G91.1'
        elif k < 0.91 and len(planes) > 1:
            plane = r.choice(planes)
            t = 'G%d' % plane
        else:
            t = r.choice(['', '', 'M3 S1000', 'F200', 'G4 P1', 'M5', 'T2 M6', 'N5', 'G94', 'G55', 'G54', 'M9', 'G98', 'G99', '%', 'S10 F20 M3'])
        c = r.random()
        if c < 0.15:
            t += ' (note %d)' % r.randint(0, 9)
        elif c < 0.25:
            t += ' ; note G1 X%d' % r.randint(0, 9)
        out.append(t)
    return out


def machine_for(c, mode=MODE):
    pg = c.pg
    Mode = type('TheMode', (pg.machine.Mode,), {'default_mode': mode})
    return type('TheMachine', (pg.machine.Machine,), {'MODE_CLASS': Mode})()


def walk(c, lines, mode=MODE):
    """positions after each line"""
    m = machine_for(c, mode)
    out = [dict(m.abs_pos.values)]
    m.kinds = [None]
    for t in lines:
        m.process_block(c.pg.line.Line(t).block)
        out.append(dict(m.abs_pos.values))
        m.kinds.append(str(m.mode.motion.word) if m.mode.motion else None)
    return out, m


def squeeze(ps, kinds):
    """changes of position, with the motion code in force"""
    out = []
    for p, k in zip(ps, kinds):
        if not out or any(abs(out[-1][0][a] - p[a]) > 1e-6 for a in p):
            out.append((p, k))
    return out


def legal(c, prog):
    """the machine runs the program; nothing else is claimed"""
    try:
        return walk(c, prog)
    except Exception:
        return None


def near(c, label, a, b, tol):
    c.check(label, all(abs(a[x] - b[x]) <= tol for x in a))


PLAIN = ['--singles', '--full', '--rm_comments', '--rm_blanks', '--rm_whitespace']


@ob('same moves', functions=TOOL, kind='sample', weight=2, covers=['options'])
def plain(c):
    """without expansions: the same sequence of positions"""
    prog = c.obj('program', sample_program)
    was = legal(c, prog)
    if was is None:
        c.assume(False)
    opts = [o for o in PLAIN if c.bool(o)]
    if opts:
        c.cover('options')
    out = c.script('pygcode-norm', opts + ['-'], prog)
    ps, m = walk(c, out)
    a, b = squeeze(was[0], was[1].kinds), squeeze(ps, m.kinds)
    c.check('as many different positions in a row', len(a) == len(b))
    for (p, k), (q, l) in zip(a, b):
        near(c, 'position', p, q, 1e-6)
        c.check('motion code', k == l)
    c.check('final modal state', sorted(str(g) for g in was[1].mode.gcodes) == sorted(str(g) for g in m.mode.gcodes))
    near(c, 'final position', was[0][-1], ps[-1], 1e-6)


# ---------------------------------------------------------------- the main loop: one arbitrary line from an arbitrary state
# line shapes: pieces are texts, or letters that get any number of up to three decimals
SHAPES = [
    ['G0 ', 'X', ' ', 'Y'], ['G1', 'Z'], ['g1 ', 'X', 'Y', 'Z'], ['X', ' ', 'Y'], ['Z'], ['N10 ', 'Y'],
    ['F', ' ', 'X'], ['G91 G1 ', 'X', ' F150'], ['G1 ', 'Y', ' G90'], ['G90 ', 'X'], ['M3 S1000 G0 ', 'Z', ' M8'],
    ['G2 ', 'X', ' ', 'Y', ' ', 'R'], ['G3 ', 'X', ' ', 'I', ' ', 'J', ' F90'], ['G18 G2 ', 'X', ' ', 'Z', ' ', 'K'],
    ['G81 ', 'X', ' ', 'Y', ' ', 'Z', ' ', 'R'], ['G99 G82 ', 'X', ' ', 'Z', ' ', 'R', ' P0.5'], ['G83 ', 'Y', ' ', 'Z', ' ', 'R', ' ', 'Q', ' L2'],
    ['X', ' ', 'R'], ['G80'], ['G80 G0 ', 'X'], ['G98'], ['G4 ', 'P', ' S100'], ['G55'], ['G59.3 G0 ', 'X'], ['G17 ', 'X'], ['T2 M6'], ['M5 M9'], ['S', ' ', 'F', ' M4'],
    ['G64 ', 'P'], ['G43 ', 'H', ' G0 ', 'Z'], ['G38.2 ', 'Z', ' F10'], ['G33 ', 'Z', ' ', 'K'], [''], ['%'], ['(note)'], ['; note G1 X5'], ['X', ' (note) ', 'Y', ' (more)'], ['G0 ', 'X', ' ; note'], ['M2 %'],
]
STATES = ['rapid', 'linear inc', 'arc', 'none', 'drill', 'drill inc', 'peck to R', 'probe']


def set_state(c, m, what):
    """arbitrary machine in one of the kinds of modal state"""
    from .common import fill, code
    fill(c, m, axes=sorted(m.axes))
    d = {l: c.decimal('state.' + l)[1] for l in 'XYZRF'}
    W = c.pg.words.Word
    gs = [code(c, 'F', d['F'])]
    if 'inc' in what:
        gs.append(code(c, 'G', 91))
    k = what.split()[0]
    xyzr = {l: d[l] for l in 'XYZR'}
    if k == 'linear':
        gs.append(code(c, 'G', 1))
    elif k == 'arc':
        gs += [code(c, 'G', 3), code(c, 'G', 19)]
    elif k == 'drill':
        gs.append(code(c, 'G', 81, **xyzr))
    elif k == 'peck':
        gs += [code(c, 'G', 83, Q=1.5, **xyzr), code(c, 'G', 99), code(c, 'G', 59.1)]
    elif k == 'probe':
        gs.append(code(c, 'G', 38.2))
    m.set_mode(*gs)
    if k == 'none':
        m.mode.motion = None


def build(c, shape, name='line'):
    t = ''
    for p in shape:
        t = t + p
        if len(p) == 1 and p in 'XYZABCIJKRPQFSH':
            t = t + c.decimal('%s.%s' % (name, p))[0]
    return t


def gc_moves(block, pg):
    return bool(block.modal_params) or any(g.modal_group == pg.gcodes.MODAL_GROUP_MAP['motion'] for g in block.gcodes)


class OneLine(object):
    """the tool's machine, a machine running the input and one running the output are in the same state before the line;
    so they are after it"""
    index = 0

    def __init__(self, c, what, shape, opts):
        self.what, self.shape, self.opts = what, shape, opts

    def state(self, c, m):
        from copy import copy
        set_state(c, m, self.what)
        self.a, self.b = copy(m), copy(m)

    def line(self, c):
        t = build(c, self.shape)
        self.p0 = dict(self.a.abs_pos.values)
        try:
            self.block = c.pg.line.Line(t).block
            self.a.process_block(self.block)
        except (c.pg.exceptions.MachineInvalidState, AssertionError):
            c.assume(False)
        self.p1 = dict(self.a.abs_pos.values)
        return t

    def after(self, c, m, out):
        c.cover('line')
        pg = c.pg
        want = state_of(self.a)
        same_state(c, "the tool's own machine", want, state_of(m))
        moved = 0
        for t in out:
            blk = pg.line.Line(t).block
            moved += gc_moves(blk, pg)
            self.b.process_block(blk)
            for x in 'XYZ':
                c.check('position after each printed line', c.eq(getattr(self.b.abs_pos, x), (self.p1 if moved else self.p0)[x]))
        c.check('one printed line per move', moved == gc_moves(self.block, pg) or (moved <= 1 and 'G80' in ''.join(self.shape)))
        same_state(c, 'machine running the output', want, state_of(self.b))
        if '--full' in self.opts:
            c.check('full mode: no bare parameters', all(not pg.line.Line(t).block.modal_params for t in out))
        if '--rm_blanks' in self.opts:
            c.check('no blank lines', all(t != '' for t in out))
        if '--rm_comments' in self.opts:
            c.check('no comments', all(pg.line.Line(t).comment is None for t in out))
        if '--rm_whitespace' in self.opts and '--rm_comments' in self.opts and '%' not in ''.join(self.shape):
            c.check('no blanks', all(' ' not in t for t in out))
        if '--singles' in self.opts:
            c.check('one code per line', all(len(pg.line.Line(t).block.gcodes) <= 1 for t in out))

    def finish(self, c, out):
        c.check('nothing printed after the last line', out == [])


@ob('every line keeps the machines together', functions=TOOL + ['machine:Machine.modal_gcode', 'machine:Machine.process_block', 'line:Line.__init__', 'gcodes:GCode.__str__'], kind='bounded', weight=1,
    bound='39 line shapes in 8 kinds of modal state, 2 of 6 option sets each (all values, positions and offsets symbolic); no bound on the number of lines', covers=['line'])
def one_line(c):
    opts = [[], ['--singles'], ['--full'], ['--singles', '--full', '--rm_comments', '--rm_blanks', '--rm_whitespace'], ['--rm_whitespace', '--singles'], ['--rm_comments', '--rm_blanks']]
    k, n = c.choice('state', list(range(len(STATES)))), c.choice('shape', list(range(len(SHAPES))))
    o = opts[(c.choice('options', [0, 3]) + k + n) % len(opts)]
    what, shape = STATES[k], SHAPES[n]
    c.tool('pygcode-norm', o + ['-'], OneLine(c, what, shape, o))


DRILLS = [
    (0, ['G81 ', 'X', ' ', 'Y', ' ', 'Z', ' ', 'R']), (0, ['G82 ', 'Y', ' ', 'Z', ' ', 'R', ' P0.5']), (0, ['G99 G81 ', 'X', ' ', 'Z', ' ', 'R', ' F100']),
    (0, ['N5 M3 G85 ', 'X', ' ', 'Z', ' ', 'R', ' L2']), (0, ['G91 G89 ', 'Y', ' ', 'Z', ' ', 'R', ' P1 (note)']), (0, ['G90 G81 ', 'Z', ' ', 'R', ' ; note']),
    (1, ['X', ' ', 'Y']), (1, ['G98 ', 'Y']), (1, ['F50 ', 'X', ' M8']), (1, ['X', ' (note)']),
    (0, ['G80']), (1, ['G80 G0 ', 'X', ' ', 'Z']), (1, ['G1 ', 'X', ' F10']), (0, ['G98']), (0, ['G91']), (0, ['M5 M9 (done)']), (0, ['']),
]


class OneCycle(OneLine):
    """as OneLine with canned cycles expanded: a machine running the output stands where the tool's machine stands, and differs from it
    only in the motion mode, as long as that is a canned cycle's"""
    def state(self, c, m):
        from copy import copy
        from .common import fill, code
        fill(c, m, axes=sorted(m.axes), ranges=False)
        d = {l: c.decimal('state.' + l)[1] for l in 'XYZR'}
        at = {l: c.decimal('at.' + l)[1] if l in 'XYZ' else c.real('at.' + l) for l in sorted(m.axes)}
        m.pos = c.pg.machine.Position(axes=set(m.axes), **at)
        k = self.what.split()
        g = {'drill': code(c, 'G', 81, **d), 'dwell': code(c, 'G', 82, P=0.25, **d), 'rapid': code(c, 'G', 0), 'linear': code(c, 'G', 1)}[k[0]]
        m.set_mode(code(c, 'G', 91 if 'inc' in k else 90), code(c, 'G', 99 if 'R' in k else 98))
        self.a, self.b = copy(m), copy(m)
        m.set_mode(g)
        self.a.set_mode(g)
        if k[0] in ('drill', 'dwell'):
            g = code(c, 'G', c.choice('motion of the output', [0, 1]))
        self.b.set_mode(g)

    def after(self, c, m, out):
        c.cover('line')
        pg = c.pg
        want = state_of(self.a)
        same_state(c, "the tool's own machine", want, state_of(m))
        for t in out:
            blk = pg.line.Line(t).block
            c.check('no canned cycles', not any(isinstance(g, pg.gcodes.GCodeCannedCycle) for g in blk.gcodes))
            if '--singles' in self.opts:
                c.check('one code per line', len(blk.gcodes) <= 1)
            self.b.process_block(blk)
        if m.mode.motion is not None and isinstance(m.mode.motion, pg.gcodes.GCodeCannedCycle):
            g = self.b.mode.motion
            c.check('motion of the output: rapid or linear', g is not None and g.word.letter == 'G' and g.word.value in (0, 1))
            # (left out of the comparison)
            self.b.set_mode(m.mode.motion)
        same_state(c, 'machine running the output', want, state_of(self.b), ignore=('min', 'max'))


@ob('every line with cycles expanded keeps the machines together', functions=TOOL + ['transform:simplify_canned_cycle', 'utils:omit_redundant_modes'], kind='bounded', weight=1, covers=['line'],
    bound='17 line shapes (cycles G81, G82, G85, G89) in 6 kinds of modal state, one of 3 option sets each; values and positions of three decimals symbolic; no bound on the number of lines')
def one_cycle(c):
    st = ['drill abs', 'dwell inc', 'drill abs R', 'drill inc R', 'rapid abs', 'linear inc R']
    n = c.choice('shape', list(range(len(DRILLS))))
    need, shape = DRILLS[n]
    k = c.choice('state', [i for i, x in enumerate(st) if x[0] == 'd' or not need])
    what = st[k]
    o = [[], ['--singles'], ['--full']][(n + k) % 3]
    try:
        c.tool('pygcode-norm', o + ['--canned_expand', '-'], OneCycle(c, what, shape, o))
    except NotImplementedError:
        # drilling upward: refused (which cycles are: C19)
        c.assume(False)


@ob('expanded', functions=TOOL + ['transform:linearize_arc', 'transform:simplify_canned_cycle', 'utils:omit_redundant_modes'], kind='sample', weight=3, covers=['arc', 'cycle'])
def expanded(c):
    """arcs and canned cycles expanded: each line ends where it did"""
    prog = c.obj('program', sample_program)
    was = legal(c, prog)
    if was is None:
        c.assume(False)
    opts = [o for o in PLAIN if c.bool(o)]
    k = c.choice('what', [['--arc_linearize'], ['--canned_expand'], ['--arc_linearize', '--canned_expand']])
    if '--arc_linearize' in k and c.bool('method'):
        k = k + ['-alm', c.choice('how', ['i', 'o', 'm', 'i,o'])]
    prec = c.choice('precision', [None, '0.1', '0.3'])
    if prec and '--arc_linearize' in k:
        k = k + ['-alp', prec]
    done = 0
    for n in range(1, len(prog) + 1):
        out = c.script('pygcode-norm', opts + k + ['-'], prog[:n])
        c.check('output of the lines so far is kept', n == 1 or out[:len(done)] == done)
        done = out
        ps, m = walk(c, out)
        near(c, 'position at the end of the line', was[0][n], ps[-1], 1e-6 + 1.01e-3 * n)
    ws = ' '.join(prog)
    if 'G2' in ws or 'G3' in ws:
        c.cover('arc')
    if 'G8' in ws:
        c.cover('cycle')
