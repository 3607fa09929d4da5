"""Shared input builders and specification helpers"""
import itertools

ALL_AXES = 'XYZABCUVW'


def pos(c, name, axes='XYZ', unit=None, cls=None, kw=True):
    """Arbitrary Position with the given axes; unit: 0 (inch) / 1 (mm) / None (default of the class)"""
    P = cls or c.pg.machine.Position
    vals = {a: c.real('%s.%s' % (name, a)) for a in axes}
    k = dict(vals)
    if unit is not None:
        k['unit'] = unit
    return P(axes=set(axes), **k)


def coords(p):
    """axis -> value of a position (its own axes only)"""
    return dict((a, getattr(p, a)) for a in sorted(p.axes))


def same_coords(c, label, p, expect):
    """position has exactly these axes, values equal"""
    c.check(label + ': axes', set(p.axes) == set(expect))
    for a in sorted(expect):
        c.check('%s: axis value' % label, c.eq(getattr(p, a), expect[a]))


def frozen(c, label, p, before):
    """observable state of a position is as recorded by snap()"""
    (axes, unit, vals) = before
    c.check(label + ' unchanged: axes', set(p.axes) == axes)
    c.check(label + ' unchanged: unit', p.unit == unit)
    v = p.values
    c.check(label + ' unchanged: keys', set(v) == set(vals))
    for a in sorted(vals):
        c.check(label + ' unchanged: value', c.eq(v[a], vals[a]))


def snap(p):
    return (set(p.axes), p.unit, dict(p.values))


# ---- machines in an arbitrary state -------------------------------------------------------------

CS_CODES = {1: 54, 2: 55, 3: 56, 4: 57, 5: 58, 6: 59, 7: 59.1, 8: 59.2, 9: 59.3}


def code(c, letter, value, cls=None, **params):
    """GCode instance as a user builds it"""
    W = c.pg.words.Word
    k = c.pg.gcodes.word_gcode_class(W(letter, value)) if cls is None else getattr(c.pg.gcodes, cls)
    return k(W(letter, value), **params)


def mkcls(c, row):
    return getattr(c.pg.gcodes, row[2])


def machine(c, name='m', axes='XYZ', cs=1, dist='abs', cls=None, unit=1, ranges=True, motion=None, plain=False):
    """Machine in an arbitrary state: any position, any range enclosing it, any offsets, given selected system and distance mode.

    Every state reachable through the public interface is of this shape (range encloses the position: proved in C14)."""
    M0 = cls or c.pg.machine.Machine
    M = type('M', (M0,), {'axes': set(axes)})
    m = M()
    if cs != 1 or cls is None:
        m.set_mode(code(c, 'G', CS_CODES[cs]))
    if dist is not None:
        d = code(c, 'G', 91 if dist == 'inc' else 90)
        if cs % 2:
            m.set_mode(d)
        else:
            m.mode.distance = d
    if motion is not None:
        m.set_mode(code(c, 'G', motion))
    # (the state is edited after it was selected and read)
    m.pos
    m.mode.gcodes
    fill(c, m, name, axes, unit, ranges, plain)
    return m


def fill(c, m, name='m', axes='XYZ', unit=1, ranges=True, plain=False):
    """any position, range and offsets"""
    P = c.pg.machine.Position
    real = c.real
    pos_v = {a: real('%s.pos.%s' % (name, a)) for a in axes}
    m.abs_pos.update(**pos_v)
    if unit == 0:
        m.abs_pos = P(axes=set(axes), unit=0, **pos_v)
    if ranges:
        lo, hi = {}, {}
        for a in axes:
            l, h = real('%s.min.%s' % (name, a)), real('%s.max.%s' % (name, a))
            if not c.symbolic:
                l, h = min(l, pos_v[a]), max(h, pos_v[a])
            c.assume(l <= pos_v[a])
            c.assume(h >= pos_v[a])
            lo[a], hi[a] = l, h
        m.abs_range_min = P(axes=set(axes), unit=unit, **lo)
        m.abs_range_max = P(axes=set(axes), unit=unit, **hi)
    if not plain:
        for i in sorted(m.state.coord_systems):
            v = {a: real('%s.cs%d.%s' % (name, i, a)) for a in axes}
            if i % 2 and set(m.state.coord_systems[i].offset.axes) == set(axes):
                m.state.coord_systems[i].offset.update(**v)
            else:
                m.state.coord_systems[i].offset = P(axes=set(axes), **v)
        m.state.offset = P(axes=set(axes), **{a: real('%s.tmp.%s' % (name, a)) for a in axes})


def offsets(m, axes='XYZ'):
    """total active offset per axis"""
    cs = m.state.coord_systems[m.state.cur_coord_sys].offset
    t = m.state.offset
    return {a: getattr(cs, a) + getattr(t, a) for a in axes}


def state_of(m):
    """every observable of a machine, by value"""
    r = {'axes': frozenset(m.axes), 'cur': m.state.cur_coord_sys}
    for n, p in [('pos', m.abs_pos), ('min', m.abs_range_min), ('max', m.abs_range_max), ('tmp', m.state.offset)] + \
            [('cs%d' % i, m.state.coord_systems[i].offset) for i in sorted(m.state.coord_systems)]:
        r[n] = (p.unit, {a: p.values.get(a, 0) for a in sorted(m.axes)})
    modes = {}
    for g in m.mode.gcodes:
        modes[g.modal_group] = (g.__class__, g.word.letter, g.word.value, {l: w.value for l, w in g.params.items()})
    r['modes'] = modes
    return r


def same_mode(c, label, a, b):
    c.check(label, (a is None) == (b is None))
    if a is None or b is None:
        return
    c.check(label, a[0] is b[0] or a[0].__name__ == b[0].__name__)
    c.check(label, a[1] == b[1] and c.eq(a[2], b[2]))
    c.check(label, set(a[3]) == set(b[3]))
    for k in sorted(a[3]):
        c.check(label, c.eq(a[3][k], b[3][k]))


def same_state(c, label, a, b, ignore=()):
    """two state_of() records describe the same machine state"""
    for n in sorted(a):
        if n in ignore:
            continue
        if n == 'modes':
            for g in sorted(set(a[n]) | set(b[n])):
                same_mode(c, '%s: mode' % label, a[n].get(g), b[n].get(g))
        elif n in ('axes', 'cur'):
            c.check('%s: %s' % (label, n), a[n] == b[n])
        else:
            what = 'coordinate system' if n.startswith('cs') else {'pos': 'position', 'min': 'range', 'max': 'range', 'tmp': 'offset'}[n]
            c.check('%s: %s' % (label, what), a[n][0] == b[n][0])
            for k in sorted(a[n][1]):
                c.check('%s: %s' % (label, what), c.eq(a[n][1][k], b[n][1][k]))


def subset_of(c, name, axes):
    return [a for a in axes if c.bool('%s.%s' % (name, a))]


def spy(m, on_move):
    """call on_move(position) whenever the machine's absolute position is replaced"""
    box = [m.__dict__.pop('abs_pos')]

    def get(self):
        return box[0]

    def put(self, p):
        box[0] = p
        on_move(p)
    m.__class__ = type('Spy', (m.__class__,), {'abs_pos': property(get, put)})
