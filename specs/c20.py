from pyvc.api import Spec
from .common import *
from .tables import CANNED
from . import arcs

SPEC = Spec('C20')
ob = SPEC.ob
LIN = ['transform:linearize_arc', 'gcodes:GCodeArcMove.assert_params', 'utils:plane_projection', 'gcodes:GCode.get_param_dict']
METHODS = ['ArcLinearizeInside', 'ArcLinearizeOutside', 'ArcLinearizeMid']
#        plane code, (first axis, second axis), normal, centre letters of the plane
PLANES = {17: ('XY', 'Z', 'IJ'), 18: ('ZX', 'Y', 'KI'), 19: ('YZ', 'X', 'JK')}


def arc(c, cw, given, **kw):
    return code(c, 'G', 2 if cw else 3, **given)


def start_of(c, name='s', axes='XYZ'):
    return c.pg.machine.Position(axes=set(axes), **{a: c.real('%s.%s' % (name, a), -1000, 1000) for a in axes})


def lin_args(c, plane, dist, adist, method, max_error):
    k = {}
    if plane is not None:
        k['plane'] = code(c, 'G', plane)
    if dist is not None:
        k['dist_mode'] = code(c, 'G', 91 if dist == 'inc' else 90)
    if adist is not None:
        k['arc_dist_mode'] = code(c, 'G', 90.1 if adist == 'abs' else 91.1)
    if method is not None:
        k['method_class'] = getattr(c.pg.transform, method)
    if max_error is not None:
        k['max_error'] = max_error
    return k


def first(c, it):
    """-> ('move', code) | ('refused', exception) ; any other exception is a failure of the obligation"""
    try:
        for g in it():
            return ('move', g)
        return ('nothing', None)
    except c.pg.exceptions.GCodeParameterError as e:
        return ('refused', e)


@ob('parameters of an arc', functions=['gcodes:GCodeArcMove.assert_params'], covers=['refused', 'accepted'])
def assert_params(c):
    """every combination of destination, centre and radius letters, with any values"""
    g = arc(c, c.bool('cw'), {})
    have = [l for l in 'XYZIJKRP' if c.bool('has ' + l)]
    v = {l: c.real(l) for l in have}
    for l in have:
        setattr(g, l, v[l])
    if 'R' in v and not c.symbolic:
        c.assume(v['R'] == 0 or c.gap(v['R']))
    dest = any(l in have for l in 'XYZ')
    centre = any(l in have for l in 'IJK')
    radius = 'R' in have
    wellformed = dest and (centre != radius)
    try:
        g.assert_params()
        ok = True
    except c.pg.exceptions.GCodeParameterError:
        ok = False
    c.cover('accepted' if ok else 'refused')
    if not wellformed:
        c.check('refused: no destination, both or neither of centre and radius', not ok)
    elif radius:
        c.check('refused exactly when the radius is zero', c.Iff(not ok, v['R'] == 0))
    else:
        c.check('accepted', ok)
    c.check('the check does not change the code', set(g.params) == set(have))
    for l in have:
        c.check('the check does not change the code', c.eq(getattr(g, l), v[l]))


@ob('malformed arc: no move', functions=LIN, covers=['refused'])
def malformed(c):
    """linear approximation of an arc without destination, without or with both of centre and radius, or with zero radius"""
    have = [l for l in 'XYIKR' if c.bool('has ' + l)]
    v = {l: c.real(l, -1000, 1000) for l in have}
    dest = any(l in have for l in 'XYZ')
    centre = any(l in have for l in 'IJK')
    radius = 'R' in have
    if dest and (centre != radius):
        if not radius:
            c.assume(False)
        v['R'] = c.choice('zero', [0, 0.0])
    g = arc(c, c.bool('cw'), v)
    k = lin_args(c, c.choice('plane', [None, 17, 18, 19]), c.choice('dist', [None, 'abs', 'inc']), c.choice('adist', [None, 'abs']), None, None)
    s = start_of(c)
    r = first(c, lambda: c.pg.transform.linearize_arc(g, s, **k))
    c.cover(r[0])
    c.check('refused with the parameter error before any move', r[0] == 'refused')


@ob('zero radius by centre', functions=LIN, covers=['refused'])
def zero_centre(c):
    """centre, start and end coincide in the plane"""
    plane = c.choice('plane', [17, 18, 19])
    (axes, normal, ijk) = PLANES[plane]
    dist, adist = c.choice('dist', ['abs', 'inc']), c.choice('adist', ['abs', 'inc'])
    s = start_of(c)
    v = {}
    for a in axes:
        if c.bool('give ' + a):
            v[a] = getattr(s, a) if dist == 'abs' else 0
    if c.bool('helix') or not v:
        v[normal] = c.real('depth', -1000, 1000)
    for a in 'XYZ':
        l = {'X': 'I', 'Y': 'J', 'Z': 'K'}[a]
        if a in axes:
            v[l] = getattr(s, a) if adist == 'abs' else 0
    g = arc(c, c.bool('cw'), v)
    r = first(c, lambda: c.pg.transform.linearize_arc(g, s, **lin_args(c, plane, dist, adist, c.choice('method', METHODS + [None]), c.choice('error', [None, 0.5]))))
    c.cover(r[0])
    c.check('refused with the parameter error before any move', r[0] == 'refused')


def radius_arc(c, plane, dist):
    (axes, normal, ijk) = PLANES[plane]
    s = start_of(c)
    d = {a: c.real('d.' + a, -1000, 1000) for a in axes}        # displacement in the plane
    v = {a: (d[a] if dist == 'inc' else getattr(s, a) + d[a]) for a in axes}
    if not c.symbolic:
        d = {a: (v[a] if dist == 'inc' else v[a] - getattr(s, a)) for a in axes}
    if c.bool('helix'):
        v[normal] = c.real('depth', -1000, 1000)
    v['R'] = c.real('R', -2000, 2000)
    span2 = d[axes[0]] * d[axes[0]] + d[axes[1]] * d[axes[1]]
    return s, v, span2


@ob('radius arcs', functions=LIN, kind='sample', covers=['too small', 'same spot', 'fine'], weight=2)
def radius(c):
    plane = c.choice('plane', [17, 18, 19])
    dist = c.choice('dist', ['abs', 'inc'])
    s, v, span2 = radius_arc(c, plane, dist)
    err = c.real('error', 0.0001, 50)
    R = v['R']
    c.assume(c.gap(R, 4 * R * R - span2, span2 - err * err))
    g = arc(c, c.bool('cw'), v)
    small = c.sure(4 * R * R < span2)
    spot = c.sure(span2 < err * err)
    zero = c.sure(R == 0)
    r = first(c, lambda: c.pg.transform.linearize_arc(g, s, **lin_args(c, plane, dist, None, c.choice('method', METHODS), err)))
    c.cover('too small' if small else 'same spot' if spot else 'fine')
    if zero or small or spot:
        c.check('refused: zero radius, radius too small, or end at the start', r[0] == 'refused')
    else:
        c.check('accepted', r[0] == 'move')


@ob('centre arcs', functions=LIN, kind='sample', covers=['full', 'part'], weight=2)
def centre(c):
    """every arc by centre with a radius is accepted"""
    plane = c.choice('plane', [17, 18, 19])
    (axes, normal, ijk) = PLANES[plane]
    dist, adist = c.choice('dist', ['abs', 'inc']), c.choice('adist', ['abs', 'inc'])
    full = c.bool('full')
    s = start_of(c)
    ctr = {a: c.real('c.' + a, -1000, 1000) for a in axes}      # centre relative to the start
    # end: on the circle about the centre
    v = {}
    if full:
        e = {a: 0 for a in axes}
    else:
        e = {a: c.real('e.' + a, -1000, 1000) for a in axes}
        u, w = axes
        if c.symbolic:
            r2 = ctr[u] * ctr[u] + ctr[w] * ctr[w]
            c.assume((e[u] - ctr[u]) * (e[u] - ctr[u]) + (e[w] - ctr[w]) * (e[w] - ctr[w]) == r2)
        else:
            import math
            r, a = math.hypot(ctr[u], ctr[w]), math.atan2(e[w], e[u])
            e = {u: ctr[u] + r * math.cos(a), w: ctr[w] + r * math.sin(a)}
            c.assume(math.hypot(e[u], e[w]) > 1e-4 * r)
        c.assume(c.Or(c.gap(e[u]) if not c.symbolic else c.Not(e[u] * e[u] + e[w] * e[w] < c.lit(1e-8)), c.gap(e[w]) if not c.symbolic else False))
    c.assume(c.Not(c.And(ctr[axes[0]] == 0, ctr[axes[1]] == 0)))
    for a in axes:
        if full and c.bool('omit ' + a):
            continue
        v[a] = e[a] if dist == 'inc' else getattr(s, a) + e[a]
    if not any(a in v for a in axes) or c.bool('helix'):
        v[normal] = c.real('depth', -1000, 1000)
    for a in axes:
        l = {'X': 'I', 'Y': 'J', 'Z': 'K'}[a]
        v[l] = ctr[a] if adist == 'inc' else getattr(s, a) + ctr[a]
    g = arc(c, c.bool('cw'), v)
    err = c.real('error', 0.0001, 50)
    r = first(c, lambda: c.pg.transform.linearize_arc(g, s, **lin_args(c, plane, dist, adist, c.choice('method', METHODS), err)))
    c.cover('full' if full else 'part')
    c.check('accepted', r[0] == 'move')


def stub(c):
    """a method of approximation that makes no moves: what linearize_arc itself decides"""
    seen = []

    class Stub(c.pg.transform.ArcLinearizeMethod):
        def iter_vertices(self):
            seen.append(self)
            return iter(())
    return Stub, seen


@ob('radius arcs refused', functions=LIN, opts={'ring': True, 'feas': 'lin'}, covers=['zero', 'too small', 'same spot'], weight=2)
def radius_refused(c):
    """zero radius, radius too small for the end points, end nearer the start than the error: refused, wherever, however far apart and whatever the direction"""
    plane = c.choice('plane', [17, 18, 19])
    axes, normal, ijk = PLANES[plane]
    inc = c.bool('inc')
    s = start_of(c)
    u = c.unit('u', 2)
    span = c.real('span', 0, 2000)
    err = c.real('error', 1e-3, 100)
    why = c.choice('why', ['zero', 'too small', 'same spot'])
    R = 0 if why == 'zero' else c.real('R', -1000, 1000)
    if why == 'too small':
        c.assume(c.And(c.lt(R, span / 2), c.lt(-R, span / 2)) if c.symbolic else abs(R) < span / 2 - 1e-6)
    elif why == 'same spot':
        c.assume(span < err if c.symbolic else span < err - 1e-6)
        c.assume(c.Not(R == 0))
    v = {a: (x * span if inc else getattr(s, a) + x * span) for a, x in zip(axes, u)}
    if c.bool('helix'):
        v[normal] = c.real('depth', -1000, 1000)
    v['R'] = R
    Stub, seen = stub(c)
    g = arc(c, c.bool('cw'), v)
    k = lin_args(c, plane, 'inc' if inc else 'abs', None, None, err)
    r = first(c, lambda: c.pg.transform.linearize_arc(g, s, method_class=Stub, **k))
    c.cover(why)
    c.check('refused with the parameter error', r[0] == 'refused')
    c.check('no approximation is begun', seen == [])


@ob('well-formed arcs accepted', functions=LIN, opts={'ring': True, 'feas': 'lin'}, covers=['R', 'centre', 'full'])
def accepted(c):
    """every arc of at most one turn, in any plane, mode and form, is handed to the approximation"""
    d = arcs.Given(c)
    Stub, seen = stub(c)
    r = first(c, lambda: d.linearize(Stub))
    c.cover(d.form)
    c.check('accepted', r[0] == 'nothing' and len(seen) == 1)


CYCLES = [73, 81, 82, 83, 85, 86, 89]
PECK = (73, 83)


@ob('cycles', functions=['transform:simplify_canned_cycle'], covers=['refused', 'accepted'])
def cycles(c):
    n = c.choice('cycle', [r[1] for r in CANNED])
    row_ = [r for r in CANNED if r[1] == n][0]
    v = {}
    for l in 'XYZRQ':
        if l in row_[5] and c.bool('has ' + l):
            v[l] = c.real(l, -1000, 1000)
    if n in PECK and 'Q' in v:
        c.assume(v['Q'] == 0 if c.bool('zero Q') else (c.Not(v['Q'] == 0) if c.symbolic else abs(v['Q']) > 1e-3))
    k = {}
    if c.bool('inc'):
        k['dist_mode'] = code(c, 'G', 91)
    if c.bool('toR'):
        k['retract_mode'] = code(c, 'G', 99)
    s = start_of(c)
    g = code(c, 'G', n, **v)
    lacking = 'Z' not in v or 'R' not in v or (n in PECK and ('Q' not in v or c.sure(v['Q'] == 0)))
    if not lacking:
        # drilling upwards is outside the library's scope
        c.assume(v['Z'] <= (v['R'] if 'dist_mode' not in k else 0))
    r = first(c, lambda: c.pg.transform.simplify_canned_cycle(g, s, **k))
    c.cover('refused' if lacking else 'accepted')
    c.check('refused exactly when depth, retract level or peck increment is lacking', (r[0] == 'refused') == lacking)
