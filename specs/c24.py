"""The cropping tool"""
from pyvc.api import Spec
from .common import *
from .c23 import sample_program, machine_for, build
from pyvc.scripts import Several

SPEC = Spec('C24')
SPEC.level = 'other'     # the core of the property is discharged up to the stated bounds only
ob = SPEC.ob
SPEC.conc_s = 30
TOOL = ['scripts/pygcode-crop:main loop', 'scripts/pygcode-crop:range_type', 'machine:Machine.__copy__', 'machine:Machine.block_modal_gcodes', 'machine:Mode.__str__']
SPEC.assume('the program runs on the library machine (with no mode set at the start) without errors; values of at most three decimals')
OPS = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
NOT_RESUMED = ('motion', 'stopping')


def sample_conditions(r, n):
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        if r.random() < 0.5:
            out.append(['n', r.choice(['=', '==', '>=', '>', '<=', '<', '!=', '']), r.randint(0, n + 1)])
        else:
            out.append([r.choice('xyzXYZ'), r.choice(sorted(OPS)), r.choice([0, -1, 5, 2.5, -3.25, r.randint(-15, 15)])])
    return out


def show(conds, r):
    out = []
    for p, o, v in conds:
        if o == '':
            out.append('%d' % v)
        else:
            out.append('%s%s%s%s%s' % (p, r.choice(['', ' ']), o, r.choice(['', ' ']), ('%g' % v)))
    return ','.join(out)


def holds(conds, n, pos, empty):
    if not conds:
        return empty
    return all(OPS[o or '='](n if p == 'n' else pos[p.upper()], v) for p, o, v in conds)


def modes(m, pg):
    return sorted(str(g) for g in m.mode.gcodes if g.modal_group not in [pg.gcodes.MODAL_GROUP_MAP[k] for k in NOT_RESUMED])


def stops(block):
    return any(w.letter == 'M' and w.value in (0, 1, 2, 30, 60) for w in block.words)


def kind(m):
    return None if m.mode.motion is None else str(m.mode.motion.word)


def moves(line, pg):
    return bool(line.block.modal_params) or any(g.modal_group == pg.gcodes.MODAL_GROUP_MAP['motion'] for g in line.block.gcodes)


def work(m):
    return dict(m.pos.values)


@ob('cropped programs', functions=TOOL, kind='sample', covers=['cropped', 'nothing', 'explicit', 'incremental'])
def crop(c):
    pg = c.pg

    def gen(r):
        prog = sample_program(r, n=r.choice([4, 8, 12]))
        if r.random() < 0.3:
            prog.insert(r.randint(0, len(prog)), r.choice(['M0', 'M1', 'M1 (wait)']))
        a, b = sample_conditions(r, len(prog)), sample_conditions(r, len(prog))
        return [prog, a, b, show(a, r) + ':' + show(b, r)]
    prog, first, last, text = c.obj('case', gen)
    # the original
    m = machine_for(c, '')
    states = []
    from copy import copy
    top = {x: 0.0 for x in 'XYZ'}
    try:
        for i, t in enumerate(prog):
            before = (dict(m.abs_pos.values), modes(m, pg), copy(m), dict(top))
            m.process_block(pg.line.Line(t).block)
            for x in top:
                top[x] = max(top[x], m.abs_pos.values[x])
            states.append((before, work(m), dict(m.abs_pos.values), kind(m), modes(m, pg)))
    except Exception:
        c.assume(False)
    starts = [i for i, s in enumerate(states) if holds(first, i + 1, s[1], True)]
    out = c.script('pygcode-crop', ['-', text], prog)
    if not starts:
        c.cover('nothing')
        c.check('nothing satisfies the start condition: no output', out == [])
        return
    a = starts[0]
    ends = [i for i, s in enumerate(states) if i >= a and holds(last, i + 1, s[1], False)]
    b = ends[0] if ends else len(prog)
    c.cover('cropped')
    kept = prog[a:b]
    c.check('preamble, then one line per kept line', len(out) >= len(kept))
    head, tail = out[:len(out) - len(kept)], out[len(out) - len(kept):]
    # the preamble: a machine standing anywhere
    (pos, mode, old, top) = states[a][0]
    n = machine_for(c, '')
    for x in 'XYZ':
        n.abs_pos.values[x] = c.real('at ' + x, gen=lambda r: r.choice([0, 7, -30, r.uniform(-50, 50)]))
    here = dict(n.abs_pos.values)
    plane = old.mode.plane_selection
    normal = plane.normal_axis if plane is not None else 'Z'
    was, path = dict(here), [here]
    for t in head:
        blk = pg.line.Line(t).block
        n.process_block(blk)
        c.check('the preamble does not stop the program', not stops(blk))
        path.append(dict(n.abs_pos.values))
    for p, q in zip(path, path[1:]):
        if any(abs(p[x] - q[x]) > 1e-9 for x in 'XYZ' if x != normal):
            c.check('sideways only at the highest level so far', abs(p[normal] - top[normal]) < 1e-6 and abs(q[normal] - top[normal]) < 1e-6)
    c.check('at the position before the first kept line', all(abs(path[-1][x] - pos[x]) < 1e-6 for x in 'XYZ'))
    c.check('in the modal state before the first kept line', modes(n, pg) == mode)
    # the kept lines
    explicit = 0
    if any('G91' in x for x in mode):
        c.cover('incremental')
    for k, t in enumerate(tail):
        line = pg.line.Line(t)
        n.process_block(line.block)
        c.check('same position after each kept line', all(abs(n.abs_pos.values[x] - states[a + k][2][x]) < 1e-6 for x in 'XYZ'))
        c.check('same modal state after each kept line', modes(n, pg) == states[a + k][4])
        if moves(line, pg):
            c.check('same motion mode after each kept move', kind(n) == states[a + k][3])
        if t != str(pg.line.Line(kept[k])):
            explicit += 1
            orig = pg.line.Line(kept[k])
            c.check('only lines of bare parameters change', bool(orig.block.modal_params))
            c.check('comment kept', str(line.comment) == str(orig.comment))
            ws = sorted(str(w) for w in line.block.words)
            c.check('all words kept', all(str(w) in ws for w in orig.block.words))
    c.check('at most one line made explicit', explicit <= 1)
    if explicit:
        c.cover('explicit')


# ---------------------------------------------------------------- the main loop: any line before, at and after the start of the cropped part
RANGES = [('n=5:', [['n', '=', 5]], []), ('x>1.5:n>9', [['x', '>', 1.5]], [['n', '>', 9]]), ('Y<=-2,x!=0:z<1', [['y', '<=', -2], ['x', '!=', 0]], [['z', '<', 1]]),
          (':x==3', [], [['x', '==', 3]]), (':', [], []), ('7:n>=8,y>0,z>=-1.25', [['n', '=', 7]], [['n', '>=', 8], ['y', '>', 0], ['z', '>=', -1.25]]),
          ('z >= 2.5 : 12', [['z', '>=', 2.5]], [['n', '=', 12]]), ('a<1:a=2.5', [['a', '<', 1]], [['a', '=', 2.5]])]
FIRST = [['G0 ', 'X', ' ', 'Z'], ['X', ' ', 'Y'], ['Z', ' (down)'], ['G91 ', 'X'], ['F', ' M3 S100'], ['(note)'], ['G18 G2 ', 'X', ' ', 'Z', ' ', 'R'], ['G81 ', 'X', ' ', 'Z', ' ', 'R'], ['G80'],
         ['T2 M6'], ['G54'], ['N7 ', 'X', ' ; note'], ['A', ' ', 'Z'], ['']]
NEXT = [['X', ' ', 'Z'], ['G1 ', 'Y', ' F50'], ['M8 (on)'], ['F20 ', 'Y', ' (slow)'], ['G3 ', 'X', ' ', 'Y', ' ', 'I', ' ', 'J'], ['']]
TURNED = ['', 'A', 'AC']
KINDS = ['bare', 'line inc', 'arc xz', 'drill', 'full', 'stop']


def crop_state(c, m, what, name, turned=''):
    """arbitrary machine state of one kind (numbers of three decimals where they may get printed); rotary axes moved so far"""
    P = c.pg.machine.Position
    axes = sorted(m.axes)
    for i in (1, 2, 9):
        m.state.coord_systems[i].offset = P(axes=set(axes), **{a: c.real('%s.cs%d.%s' % (name, i, a)) for a in axes})
    m.state.offset = P(axes=set(axes), **{a: c.real('%s.tmp.%s' % (name, a)) for a in axes})
    fill(c, m, name, axes=axes, ranges=False, plain=True)
    at, hi = {}, {}
    for a in axes:
        if a in 'XYZ' or a in turned:
            at[a] = c.decimal('%s.at.%s' % (name, a))[1]
            hi[a] = c.decimal('%s.top.%s' % (name, a))[1]
            if not c.symbolic:
                hi[a] = max(hi[a], at[a])
            c.assume(hi[a] >= at[a])
            if a in turned:
                hi[a] = hi[a] + 1
        else:
            at[a] = hi[a] = c.real('%s.at.%s' % (name, a))
    m.set_mode(code(c, 'G', {'bare': 54, 'stop': 59.3}.get(what, 55)))
    m.pos = P(axes=set(axes), **at)
    m.abs_range_max = m.work2abs(P(axes=set(axes), **hi))
    m.abs_range_min = m.work2abs(P(axes=set(axes), **at))
    if what == 'bare':
        return
    d = {l: c.decimal('%s.%s' % (name, l))[1] for l in 'FSXZR'}
    gs = {'line inc': [code(c, 'G', 91), code(c, 'G', 1), code(c, 'F', d['F'])], 'arc xz': [code(c, 'G', 18), code(c, 'G', 3), code(c, 'G', 90)],
          'drill': [code(c, 'G', 81, X=d['X'], Z=d['Z'], R=d['R']), code(c, 'G', 99)],
          'full': [code(c, 'G', 0), code(c, 'G', 90), code(c, 'G', 19), code(c, 'G', 94), code(c, 'M', 3), code(c, 'M', 8), code(c, 'S', d['S']), code(c, 'F', d['F']), code(c, 'T', 4)],
          'stop': [code(c, 'G', 38.2), code(c, 'M', 2), code(c, 'G', 91), code(c, 'G', 17)]}[what]
    m.set_mode(*gs)


class Lines(Several):
    def __init__(self, c, shapes, kinds, first, last):
        self.shapes, self.kinds, self.first, self.last = shapes, kinds, first, last
        self.count = len(shapes)
        self.started = self.ended = False
        self.pending = False    # motion still the traverse's
        self.n = 0

    def state(self, c, m, k):
        from copy import copy
        self.turned = TURNED[k % len(TURNED)] if not self.started else TURNED[-1]
        crop_state(c, m, self.kinds[k], 'm%d' % k, self.turned)
        self.a = copy(m)

    def index(self, c, k):
        return self.n + c.int('gap%d' % k, 0, gen=lambda r: r.choice([0, 0, 0, 0, r.randrange(12)]))

    def number(self, i):
        self.n = i + 1

    def filler(self, c, m, n):
        if n > 200:
            c.outside('many lines in between')
        self.n, self.a = n + 1, m
        if not self.started:
            c.assume(not self.holds(self.first, True))
        else:
            c.assume(not self.holds(self.last, False))

    def line(self, c, k):
        from copy import copy
        self.t = build(c, self.shapes[k], 'line%d' % k)
        self.old = copy(self.a)
        try:
            self.src = c.pg.line.Line(self.t)
            self.a.process_block(self.src.block)
        except (c.pg.exceptions.MachineInvalidState, AssertionError):
            c.assume(False)
        self.open = True
        return self.t

    def holds(self, conds, default):
        p = self.a.pos
        if not conds:
            return default
        return all(OPS[o](self.n if x == 'n' else getattr(p, x.upper()), v) for x, o, v in conds)

    def after(self, c, m, k, out, more=True):
        self.open = False
        pg = c.pg
        same_state(c, "the tool's own machine", state_of(self.a), state_of(m))
        if not self.started:
            if not self.holds(self.first, True):
                c.cover('before')
                c.check('nothing printed before the cropped part', len(out) == 0)
                return
            c.cover('first')
            self.started = self.pending = True
            if self.holds(self.last, False):
                self.ended = True
                head, out = out, []
            else:
                c.check('preamble, then the line', len(out) >= 1)
                head, out = out[:-1], out[-1:]
            self.preamble(c, head)
        elif self.holds(self.last, False):
            self.ended = True
        if self.ended:
            c.cover('end')
            c.check('the tool stops at the end of the cropped part', not more and len(out) == 0)
            return
        c.check('the tool goes on', more)
        c.check('one printed line per line', len(out) == 1)
        c.cover('kept')
        # a machine running the output
        b = self.old
        if self.pending:
            b.mode.motion = None
            b.set_mode(code(c, 'G', 0))
        n = pg.line.Line(out[0])
        b.process_block(n.block)
        for x in sorted(b.axes):
            c.check('same position after each kept line', c.eq(getattr(b.abs_pos, x), getattr(self.a.abs_pos, x)))
        same_modes(c, 'same modal state after each kept line', self.a, b)
        if moves(n, pg):
            same_mode(c, 'same motion mode after each kept move', the_mode(self.a, 'motion'), the_mode(b, 'motion'))
        bare = bool(self.src.block.modal_params)
        c.check('comment kept', (n.comment is None) == (self.src.comment is None) and (n.comment is None or n.comment.text == self.src.comment.text))
        if not (self.pending and bare):
            c.check('printed as it stands', c.str(self.src) == out[0])
        else:
            c.cover('explicit')
            left = list(n.block.words)
            for w in self.src.block.words:
                hit = [v for v in left if v.letter == w.letter and bool(c.eq(v.value, w.value))]
                c.check('all words kept', len(hit) >= 1)
                left = [v for v in left if v is not hit[0]]
        if moves(n, pg):
            self.pending = False

    def preamble(self, c, head):
        pg = c.pg
        from copy import copy
        n = copy(self.old)
        n.mode = type(n.mode)()
        P = pg.machine.Position
        n.abs_pos = P(axes=set(n.axes), **{x: c.real('standing.' + x) if x in 'XYZ' or x in self.turned else getattr(self.old.abs_pos, x) for x in sorted(n.axes)})
        plane = self.old.mode.plane_selection
        normal = plane.normal_axis if plane is not None else 'Z'
        top = getattr(self.old.abs_range_max, normal)
        for t in head:
            p = n.abs_pos
            blk = pg.line.Line(t).block
            n.process_block(blk)
            c.check('the preamble does not stop the program', not stops(blk))
            q = n.abs_pos
            if not all(bool(c.eq(getattr(p, x), getattr(q, x))) for x in 'XYZ' if x != normal):
                c.check('sideways only at the highest level so far', c.And(c.eq(getattr(p, normal), top), c.eq(getattr(q, normal), top)))
        for x in sorted(n.axes):
            c.check('at the position before the first kept line', c.eq(getattr(n.abs_pos, x), getattr(self.old.abs_pos, x)))
        same_modes(c, 'in the modal state before the first kept line', self.old, n)
        c.check('left in rapid motion', n.mode.motion is not None and n.mode.motion.word.value == 0)

    def finish(self, c, out):
        if self.open:
            self.after(c, c.pg.machine.Machine() if False else self.a, None, out, more=False)
        else:
            c.check('nothing printed after the last line', len(out) == 0)


def the_mode(m, name):
    g = getattr(m.mode, name)
    return None if g is None else (g.__class__, g.word.letter, g.word.value, {l: w.value for l, w in g.params.items()})


def same_modes(c, label, a, b):
    x, y = state_of(a)['modes'], state_of(b)['modes']
    skip = [c.pg.gcodes.MODAL_GROUP_MAP[k] for k in NOT_RESUMED]
    for g in sorted(set(x) | set(y)):
        if g not in skip:
            same_mode(c, label, x.get(g), y.get(g))


@ob('every line before and after the start', functions=TOOL + ['utils:omit_redundant_modes', 'line:Line.__str__', 'block:Block.__str__', 'gcodes:GCode.__str__'], kind='bounded',
    bound='three consecutive lines of 14 / 6 / 6 shapes, 6 kinds of modal state before each, 8 ranges; all values, positions, offsets and line numbers symbolic', covers=['before', 'first', 'kept', 'end', 'explicit'])
def three_lines(c):
    i = c.choice('first', list(range(len(FIRST))))
    j = c.choice('second', [0, 1, 2])
    j = (2 * i + j) % len(NEXT)
    r = (i + j) % 2
    text, first, last = RANGES[(i + j + 4 * r) % len(RANGES)]
    k = (i + 2 * j + r) % len(KINDS)
    step = Lines(c, [FIRST[i], NEXT[j], NEXT[(i + j + r) % len(NEXT)]], [KINDS[k], KINDS[(k + 1) % 6], KINDS[(k + 3) % 6]], first, last)
    c.tool('pygcode-crop', ['-', text], step)
