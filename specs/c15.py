from pyvc.api import Spec
from .common import *

SPEC = Spec('C15')
ob = SPEC.ob
AXSETS = ['XYZ', 'X', 'YZ', 'XYZABCUVW', 'AZ', '']
F = 25.4


def unitpair(c):
    return c.choice('ua', [0, 1]), c.choice('ub', [0, 1])


def inunit(c, v, frm, to):
    """v in unit frm expressed in unit to (0 inch, 1 mm)"""
    if frm == to:
        return v
    return v * c.lit(F) if frm == 0 else v / c.lit(F)


@ob('add', functions=['machine:Position.__add__', 'machine:Position.__copy__', 'machine:Position._same_unit'], covers=['mixed', 'same'])
def add(c):
    axes = c.choice('axes', AXSETS)
    ua, ub = unitpair(c)
    a, b = pos(c, 'a', axes, ua), pos(c, 'b', axes, ub)
    sa, sb = snap(a), snap(b)
    c.cover('same' if ua == ub else 'mixed')
    r = a + b
    c.check('unit of the sum is the left operand\'s', r.unit == ua)
    same_coords(c, 'sum', r, {k: sa[2][k] + inunit(c, sb[2][k], ub, ua) for k in axes})
    frozen(c, 'left operand', a, sa)
    frozen(c, 'right operand', b, sb)


@ob('sub', functions=['machine:Position.__sub__'], covers=['mixed', 'same'])
def sub(c):
    axes = c.choice('axes', AXSETS)
    ua, ub = unitpair(c)
    axb = ''.join(c.subset('axb', axes)) if len(axes) < 9 else axes
    a, b = pos(c, 'a', axes, ua), pos(c, 'b', axb, ub)
    sa, sb = snap(a), snap(b)
    c.cover('same' if ua == ub else 'mixed')
    r = a - b
    c.check('unit of the difference is the left operand\'s', r.unit == ua)
    same_coords(c, 'difference', r, {k: (sa[2][k] - inunit(c, sb[2][k], ub, ua)) if k in axb else sa[2][k] for k in axes})
    frozen(c, 'left operand', a, sa)
    frozen(c, 'right operand', b, sb)


@ob('axis mismatch', functions=['machine:Position.__add__', 'machine:Position.__sub__', 'machine:Position.__init__', 'machine:Position.__setattr__'])
def mismatch(c):
    E = c.pg.exceptions.MachineInvalidAxis
    how = c.choice('how', ['add', 'sub', 'init', 'set', 'update', 'get'])
    axes = c.choice('axes', ['XYZ', 'X', 'AZ'])
    other = c.choice('other', ['XYZA', 'Y', 'XYZ', 'B', 'XY', 'X'])
    x = c.real('x')
    if how in ('add', 'sub'):
        a, b = pos(c, 'a', axes), pos(c, 'b', other)
        bad = (set(axes) != set(other)) if how == 'add' else bool(set(other) - set(axes))
        try:
            r = (a + b) if how == 'add' else (a - b)
            raised = False
        except E:
            raised = True
        c.check('axis error exactly when axes do not match', raised == bad)
    elif how == 'init':
        P = c.pg.machine.Position
        l = c.choice('l', ['Q', 'F', 'XYZR', 'x'])
        try:
            P(axes=l)
            c.check('unknown axes are refused', False)
        except E:
            c.check('unknown axes are refused', True)
    elif how in ('set', 'update'):
        a = pos(c, 'a', axes)
        before = snap(a)
        l = c.choice('l', list('XYZABCUVW'))
        try:
            if how == 'set':
                setattr(a, l, x)
            else:
                a.update(**{l: x})
            c.check('setting an axis the position does not have is refused', l in axes)
            c.check('the axis has the value set', c.eq(getattr(a, l), x))
            for k in axes:
                if k != l:
                    c.check('other axes keep their value', c.eq(getattr(a, k), before[2][k]))
        except E:
            c.check('setting an axis the position has is accepted', l not in axes)
            frozen(c, 'refused position', a, before)
    else:
        a = pos(c, 'a', axes)
        l = c.choice('l', list('XYZABCUVW'))
        try:
            getattr(a, l)
            c.check('reading an unknown axis is an attribute error', l in axes)
        except AttributeError:
            c.check('reading a known axis works', l not in axes)


@ob('scale', functions=['machine:Position.__mul__', 'machine:Position.__div__'])
def scale(c):
    axes = c.choice('axes', AXSETS)
    u = c.choice('u', [0, 1])
    a = pos(c, 'a', axes, u)
    k = c.real('k')
    sa = snap(a)
    if c.choice('op', ['mul', 'div']) == 'mul':
        r = a * k
        same_coords(c, 'product', r, {x: sa[2][x] * k for x in axes})
    else:
        c.assume(c.Not(k == 0))
        c.assume(c.gap(k))
        r = a / k
        for x in axes:
            c.check('quotient times divisor is the coordinate', c.eq(getattr(r, x) * k, sa[2][x]))
        c.check('quotient axes', set(r.axes) == set(axes))
    c.check('unit kept', r.unit == u)
    frozen(c, 'operand', a, sa)


@ob('min max', functions=['machine:Position._cmp', 'machine:Position.min', 'machine:Position.max'], covers=['mixed'])
def minmax(c):
    P0 = c.pg.machine.Position
    axes = c.choice('axes', ['XYZ', 'XYZABCUVW'])
    ua, ub = unitpair(c)
    P = type('P', (P0,), {'default_axes': axes})
    a, b = pos(c, 'a', axes, ua, P), pos(c, 'b', axes, ub, P)
    sa, sb = snap(a), snap(b)
    if ua != ub:
        c.cover('mixed')
    which = c.choice('which', ['min', 'max'])
    r = getattr(P, which)(a, b)
    c.check('unit is the first operand\'s', r.unit == ua)
    exp = {}
    for k in axes:
        bk = inunit(c, sb[2][k], ub, ua)
        exp[k] = c.min(sa[2][k], bk) if which == 'min' else c.max(sa[2][k], bk)
    same_coords(c, which, r, exp)
    frozen(c, 'first operand', a, sa)
    frozen(c, 'second operand', b, sb)


@ob('unit conversion', functions=['machine:Position.unit'])
def unit(c):
    axes = c.choice('axes', AXSETS)
    u, v = unitpair(c)
    a = pos(c, 'a', axes, u)
    sa = snap(a)
    a.unit = v
    c.check('unit is set', a.unit == v)
    same_coords(c, 'converted', a, {k: inunit(c, sa[2][k], u, v) for k in axes})
    a.unit = u
    same_coords(c, 'there and back', a, sa[2])


@ob('equality', functions=['machine:Position.__eq__', 'machine:Position.__ne__'], covers=['equal', 'different'])
def equality(c):
    axes = c.choice('axes', ['XYZ', 'X', 'AZ', ''])
    other = c.choice('other', ['XYZ', 'X', 'AZ', 'XY', ''])
    ua, ub = unitpair(c)
    a, b = pos(c, 'a', axes, ua), pos(c, 'b', other, ub)
    sa, sb = snap(a), snap(b)
    if not c.symbolic and ua != ub and axes == other:
        # floats: compare what conversion gives, not exact decimals
        for k in axes:
            d = inunit(c, sb[2][k], ub, ua) - sa[2][k]
            c.assume(d == 0 or abs(d) > 1e-6)
        if all(inunit(c, sb[2][k], ub, ua) == sa[2][k] for k in axes) and axes:
            c.assume(all(inunit(c, sb[2][k], ub, ua) == sa[2][k] == 0 for k in axes))
    same = set(axes) == set(other)
    if same:
        same = c.And(*[sa[2][k] == inunit(c, sb[2][k], ub, ua) for k in axes])
    r = (a == b)
    n = (a != b)
    r, n = bool(r), bool(n)
    c.cover('equal' if r else 'different')
    c.check('equal exactly when axes and coordinates in a common unit are equal', c.Iff(r, same))
    c.check('!= is the negation', r != n)
    frozen(c, 'left operand', a, sa)
    frozen(c, 'right operand', b, sb)


@ob('reads', functions=['machine:Position.values', 'machine:Position.words', 'machine:Position.vector', 'machine:Position.__getattr__', 'machine:Position.__copy__'])
def reads(c):
    from copy import copy
    axes = c.choice('axes', AXSETS)
    u = c.choice('u', [0, 1])
    a = pos(c, 'a', axes, u)
    sa = snap(a)
    what = c.choice('what', ['values', 'words', 'vector', 'attr', 'copy', 'repr'])
    if what == 'values':
        v = a.values
        c.check('one value per axis', set(v) == set(axes))
        for k in axes:
            c.check('value of the axis', c.eq(v[k], sa[2][k]))
            v[k] = 99
    elif what == 'words':
        ws = a.words
        c.check('one word per axis, sorted by letter', [w.letter for w in ws] == sorted(axes))
        for w in ws:
            c.check('word value is the coordinate', c.eq(w.value, sa[2][w.letter]))
    elif what == 'vector':
        v = a.vector
        for k in 'XYZ':
            c.check('vector component', c.eq(getattr(v, k.lower()), sa[2].get(k, 0)))
        # (the vector is the caller's own)
        v.x, v.z = 99, 98
        frozen(c, 'position', a, sa)
        w = a.vector
        for k in 'XYZ':
            c.check('vector component, read again', c.eq(getattr(w, k.lower()), sa[2].get(k, 0)))
        if axes:
            x = c.real('later')
            b = copy(a)
            for p in (a, b):
                p.update(**{axes[0]: x})
                w = p.vector
                for k in 'XYZ':
                    c.check('vector component after a change', c.eq(getattr(w, k.lower()), x if k == axes[0] else sa[2].get(k, 0)))
            setattr(a, axes[0], sa[2][axes[0]])
    elif what == 'attr':
        for k in axes:
            c.check('axis value', c.eq(getattr(a, k), sa[2][k]))
    elif what == 'copy':
        b = copy(a)
        same_coords(c, 'copy', b, sa[2])
        c.check('copy has the unit', b.unit == u)
        x = c.real('x')
        for k in axes:
            setattr(b, k, x)
            break
        b.unit = 1 - u
    elif not c.symbolic:
        repr(a)
    frozen(c, 'position read', a, sa)
