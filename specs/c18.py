"""Linearised arcs: on the commanded circle, side and direction"""
import math
from pyvc.api import Spec
from .common import *
from . import arcs
from pyvc.api import *


SPEC = Spec('C18')
ob = SPEC.ob
SPEC.conc_s = 12
LIN = ['transform:linearize_arc', 'transform:ArcLinearizeMethod.iter_vertices', 'transform:ArcLinearizeInside', 'transform:ArcLinearizeOutside', 'transform:ArcLinearizeMid', 'utils:plane_projection', 'gcodes:GCodePlaneSelect']
SPEC.assume('arcs linearize_arc accepts (refusals: C20), of at most one turn and without a P word; arcs given consistently (start and end equally far from the centre)')


def segment_distance(p, q):
    """smallest distance of the segment pq from the origin"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    l = dx * dx + dy * dy
    t = 0 if l == 0 else max(0, min(1, -(p[0] * dx + p[1] * dy) / l))
    return math.hypot(p[0] + t * dx, p[1] + t * dy)


@ob('geometry', functions=LIN, kind='sample', weight=3, covers=['inside', 'outside', 'mid', 'R', 'full', 'helix'])
def geometry(c):
    d = c.obj('arc', arcs.sample_arc)
    g, start, kw, s, e = arcs.build(c, d)
    try:
        moves = list(c.pg.transform.linearize_arc(g, start, **kw))
    except c.pg.exceptions.GCodeParameterError:
        c.assume(False)
    ps = arcs.follow(c, d, moves, s)
    a, b, n, i, j = arcs.PLANES[d['plane'] or 17]
    r, err = d['radius'], min(d['error'], d['radius'])
    tol = 1e-6 * (1 + r + abs(d['centre'][0]) + abs(d['centre'][1])) + (1.8e-3 if d['inc'] else 0)
    pts = [(p[a] - d['centre'][0], p[b] - d['centre'][1]) for p in ps]
    lo = min(segment_distance(p, q) for p, q in zip(pts, pts[1:]))
    hi = max(math.hypot(*p) for p in pts)
    c.check('within the error of the circle', r - lo <= err + tol and hi - r <= err + tol)
    m = (d['method'] or 'ArcLinearizeMid')[12:].lower()
    c.cover(m)
    if 'R' in g.params:
        c.cover('R')
    if m == 'inside':
        c.check('inside the circle', hi <= r + tol)
    elif m == 'outside':
        c.check('outside the circle', lo >= r - tol)
    else:
        c.check('centred on the circle', r - lo <= err / 2 + tol and hi - r <= err / 2 + tol)
    # turning: signed angles from vertex to vertex
    if min(math.hypot(*p) for p in pts) < 50 * tol:
        return
    at = 2 * tol / min(math.hypot(*p) for p in pts) + 1e-7
    sgn = -1 if d['cw'] else 1
    done = 0.0
    for k, (p, q) in enumerate(zip(pts, pts[1:])):
        step = sgn * math.atan2(p[0] * q[1] - p[1] * q[0], p[0] * q[0] + p[1] * q[1])
        if step < -at and step < -math.pi + 1e-3 + 2 * at:
            step += 2 * math.pi         # half a turn in one line
        c.check('turns the commanded way', step >= -at)
        done += step
        c.check('never overshoots the end', done <= d['sweep'] + at * (k + 2))
        if d['dh'] is not None and abs(d['dh']) > 1e-9:
            c.cover('helix')
        dh = (d['dh'] or 0)
        c.check('height in proportion to the angle', abs(ps[k + 1][n] - (d['h0'] + dh * done / d['sweep'])) <= tol + abs(dh) * at * (k + 2) / d['sweep'])
    if d['sweep'] >= 2 * math.pi:
        c.cover('full')
    c.check('turns as far as commanded', abs(done - d['sweep']) <= at * (len(pts) + 1))


CLASSES = {'ArcLinearizeInside': False, 'ArcLinearizeOutside': True, 'ArcLinearizeMid': True}
AX = {'X': 0, 'Y': 1, 'Z': 2}


def add(a, b, k=1):
    return [x + y * k for x, y in zip(a, b)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


class Arc(object):
    """an arbitrary arc: any plane, centre, radius, first direction, turning angle (at most a turn) either way, heights"""
    def __init__(self, c):
        self.c = c
        a, b, n, i, j = arcs.PLANES[c.choice('plane', [17, 18, 19])]
        axis = lambda x: [1 if x == y else 0 for y in 'XYZ']
        self.e1, self.e2, self.n = axis(a), axis(b), axis(n)
        self.C = [c.real('centre.%d' % k, -1000, 1000) for k in (0, 1)]
        self.r = c.real('radius', 0.001, 1000)
        self.u = c.unit('u', 2)
        self.h = [c.real('h0', -1000, 1000), c.real('h1', -1000, 1000)]
        self.cw = c.bool('cw')
        if c.symbolic:
            # any angle is some whole number (at least one) of equal parts: that number is later set to the number of wedges
            self.N = c.int('wedges', 1)
            self.w = c.real('wedge')
            c.assume(self.w > 0)
            self.sweep = self.w * self.N
            c.assume(c.le(self.sweep, c.pi * 2))
        else:
            self.sweep = c.real('sweep', 0.01, 2 * c.pi)

    def flat(self, x, y, h):
        """point in the arc's plane, relative to the centre"""
        return [p * x + q * y + s * h for p, q, s in zip(self.e1, self.e2, self.n)]

    def point(self, rho, phi, h):
        """point at distance rho, turned by phi the commanded way from the start"""
        c = self.c
        k, s = c.cos(phi), c.sin(phi)
        if self.cw:
            s = -s
        x, y = self.u[0] * k - self.u[1] * s, self.u[1] * k + self.u[0] * s
        return self.flat(self.C[0] + x * rho, self.C[1] + y * rho, h)

    def method(self, name, err):
        c = self.c
        V = lambda p: c.pg.utils.Vector3(*p)
        self.start = self.point(self.r, 0, 0)
        self.end = self.point(self.r, self.sweep, 0)
        return getattr(c.pg.transform, name)(
            max_error=err, plane_normal=V(self.n), arc_p_start=V(self.start), arc_p_end=V(self.end),
            arc_p_center=V(self.flat(self.C[0], self.C[1], 0)), arc_radius=self.r,
            arc_angle=self.sweep if self.cw else -self.sweep,
            helical_start=V([x * self.h[0] for x in self.n]), helical_end=V([x * self.h[1] for x in self.n]))


def xyz(v):
    return [v.x, v.y, v.z]


@ob('vertices', functions=LIN[1:5], opts={'ring': True, 'feas': 'lin'}, weight=3)
def vertices(c):
    """every vertex of every line, for any number of lines"""
    arc = Arc(c)
    name = c.choice('method', sorted(CLASSES))
    shift = CLASSES[name]
    err = c.real('error', 1e-6, 1000)
    m = arc.method(name, err)
    n = m.wedge_count
    if c.symbolic:
        c.identify(n, arc.N)
        n = arc.N
        w = arc.w
    else:
        w = arc.sweep / n
    R = m.outer_radius
    c.check('R', c.lt(0, R))
    half = w / 2 if shift else 0

    def at(k):
        """vertex k: where, and the angle turned"""
        if not isinstance(k, int) or k > 0:
            phi = w * k - half
            return arc.point(R, phi, arc.h[0] + (arc.h[1] - arc.h[0]) * phi / arc.sweep), phi
        return arc.point(arc.r, 0, arc.h[0]), 0

    st = {'k': 0}
    if c.symbolic:
        from pyvc.loops import LoopSpec

        class Vertices(LoopSpec):
            name = 'vertices of the lines'

            def havoc(self, c, L, k):
                last = n if shift else n - 1
                case = c.pick(['first', 'later', 'last']) if not self.exiting else 'exit'
                if case == 'first':
                    c.identify(k, 0)
                    k = 0
                elif case == 'last':
                    c.assume(last >= 1)
                    c.identify(k, last)
                    k = last
                elif case == 'later':
                    c.assume(c.And(k >= 1, k < last))
                st['k'] = k
                V = type(m.arc_p_start)
                return dict({x: V(*at(k)[0]) for x in self.carried}, **{'$k': k})

            def inv(self, c, L, k):
                if not hasattr(self, 'carried'):
                    self.carried = [x for x in self.names if isinstance(L.get(x), type(m.arc_p_start))]
                if not shift:
                    yield ('a line is left', c.lt(k, n))
                c.check('one vertex goes around', len(self.carried) == 1)
                for p, q in zip(xyz(L[self.carried[0]]), at(k)[0]):
                    yield ('the next line starts at vertex k', c.eq(p, q))
        c.loop('transform:ArcLinearizeMethod.iter_vertices#for0', Vertices())
    got = []
    last = n if shift else n - 1
    for a, b in m.iter_vertices():
        k = st['k']
        end = c.sure(c.eq(k, last))
        for p, q in zip(xyz(a), at(k)[0]):
            c.check('line k starts at vertex k', c.eq(p, q, 1e-6))
        st['k'] = k + 1
        got.append(b)
        for p, q in zip(xyz(b), arc.point(arc.r, arc.sweep, arc.h[1]) if end else at(k + 1)[0]):
            c.check('line k ends at vertex k + 1, the last line at the end of the arc', c.eq(p, q, 1e-6))
        phi, psi = at(k)[1], arc.sweep if end else at(k + 1)[1]
        if c.symbolic:
            c.by('angles grow, never beyond the end', c.And(0 <= phi, phi < psi, psi <= arc.sweep), c.lt(0, w), c.le(0, k), c.le(k + 1, last + 1), c.eq(arc.sweep, w * n))
        else:
            c.check('angles grow, never beyond the end', -1e-9 <= phi < psi <= arc.sweep + 1e-9)
        if end:
            c.cover('last')
        else:
            c.cover('on the way')


@ob('distances', functions=LIN[1:5], opts={'ring': True, 'feas': 'lin'}, covers=['inside', 'outside', 'mid'])
def distances(c):
    """every point of a line between vertices as given by 'vertices' (first, middle or last line)"""
    arc = Arc(c)
    name = c.choice('method', sorted(CLASSES))
    shift = CLASSES[name]
    err = c.real('error', 1e-6, 1000)
    m = arc.method(name, err)
    n, top = m.wedge_count, m.max_wedge_angle
    if c.symbolic:
        c.identify(n, arc.N)
        n, w = arc.N, arc.w
        c.check('enough wedges', w <= top, lemma=True)
    else:
        w = arc.sweep / n
        c.check('enough wedges', w <= top + 1e-9)
    R, r, e = m.outer_radius, arc.r, arc.r if c.sure(err > arc.r) else err
    c.cover(name[12:].lower())
    part = c.choice('line', ['middle', 'first', 'last'] if shift else ['middle'])
    # distances of its ends from the centre, and the angle it spans
    A, B, d = {'middle': (R, R, w), 'first': (r, R, w / 2), 'last': (R, r, w / 2)}[part]
    t = c.real('t', 0, 1)
    x = c.cos(w / 2)
    c.check('turns the commanded way, by less than half a turn', c.And(c.lt(0, d), c.le(d, c.pi)))
    sq = c.let(A * A * (1 - t) * (1 - t) + B * B * t * t + 2 * A * B * t * (1 - t) * c.cos(d))     # square of the distance from the centre
    t2 = None if c.symbolic else 1e-6 * (1 + r * r)
    tol = None if c.symbolic else 1e-6 * (1 + r)
    R, x = c.let(R), c.let(x)
    inn = c.let(R * x)      # distance of the middle of a full line
    zero, pos = c.lit(0), [c.lt(0, r), c.lt(0, R), c.lt(0, e), c.le(e, r)]
    unit = [c.le(0, x, tol), c.le(x, 1)]
    if name == 'ArcLinearizeInside':
        lo, hi = r - e, r
        c.check('vertices on the circle', c.eq(R, r, tol), lemma=True)
        c.by('middle of a line', c.le(lo, inn, tol), c.le(lo, r * x, tol), c.eq(R, r, tol))
    elif name == 'ArcLinearizeOutside':
        lo, hi = r, r + e
        c.check('middle of a line on the circle', c.eq(inn, r, t2), lemma=True)
        c.by('vertices', c.le(R, hi, tol), c.le(r, hi * x, t2), c.eq(inn, r, t2), *(pos + unit))
        c.by('order', c.le(inn, R, tol), *(pos + unit))
    else:
        lo, hi = r - e / 2, r + e / 2
        c.check('middle of a line as far inside as vertices are outside', c.eq(inn, 2 * r - R, t2), lemma=True)
        c.by('vertices', c.le(R, hi, tol), c.le(lo, hi * x, tol), c.eq(inn, 2 * r - R, t2), *(pos + unit))
        c.by('order', c.le(inn, R, tol), *(pos + unit))
        c.by('middle of a line', c.le(lo, inn, tol), c.eq(inn, 2 * r - R, t2), c.le(R, hi, tol))
    T = [c.le(0, t), c.le(t, 1)]
    if part == 'middle':
        c.check('shape of a line', c.eq(sq, R * R - 4 * t * (1 - t) * (R * R - inn * inn), t2), lemma=True)
    else:
        q = t if part == 'first' else 1 - t
        c.check('shape of a line', c.eq(sq, r * r * (1 - q) * (1 - q) + R * R * q * q + 2 * r * inn * q * (1 - q), t2), lemma=True)
    near = [c.le(lo, inn, tol), c.le(inn, R, tol), c.le(R, hi, tol), c.le(0, lo, tol)]
    if part == 'middle':
        c.by('not nearer to the centre', c.le(lo * lo, sq, t2), c.eq(sq, R * R - 4 * t * (1 - t) * (R * R - inn * inn), t2), *(near + T))
        c.by('not further from the centre', c.le(sq, hi * hi, t2), c.eq(sq, R * R - 4 * t * (1 - t) * (R * R - inn * inn), t2), *(near + T))
    else:
        both = c.Or(c.eq(inn, r, t2), c.eq(inn, 2 * r - R, t2))
        shape = c.eq(sq, r * r * (1 - q) * (1 - q) + R * R * q * q + 2 * r * inn * q * (1 - q), t2)
        c.by('not nearer to the centre', c.le(lo * lo, sq, t2), shape, both, *(near + T + pos))
        c.by('not further from the centre', c.le(sq, hi * hi, t2), shape, both, *(near + T + pos))


@ob('circle', functions=['transform:linearize_arc', 'utils:plane_projection', 'gcodes:GCodePlaneSelect'], opts={'ring': True, 'feas': 'lin'}, covers=['R', 'centre', 'full'])
def circle(c):
    """the circle, angle and heights handed to the approximation are those of the code, whatever way it is written"""
    pg = c.pg
    d = arcs.Given(c)
    a, b, n, cw, form, r, C = d.a, d.b, d.n, d.cw, d.form, d.r, d.C
    seen = []

    class Record(pg.transform.ArcLinearizeMethod):
        def iter_vertices(self):
            seen.append(self)
            return iter(())

    try:
        list(d.linearize(Record))
        ok = True
    except pg.exceptions.GCodeParameterError:
        ok = False
    c.check('accepted', ok)
    if len(seen) != 1:
        c.outside('approximation not handed to the method class')
    m = seen[0]
    names = ('max_error', 'plane_normal', 'arc_p_start', 'arc_p_end', 'arc_p_center', 'arc_radius', 'arc_angle', 'helical_start', 'helical_end')
    if not all(hasattr(m, x) for x in names):
        c.outside('method class has other attributes')
    c.cover(form)
    tol = 1e-6 * (1 + (0 if c.symbolic else abs(C[0]) + abs(C[1]) + r + r / d.sh))
    flat = lambda x, y: [x if k == a else y if k == b else 0 for k in 'XYZ']
    for x, (want, got) in {'start': (flat(*d.p), m.arc_p_start), 'end': (flat(*d.q), m.arc_p_end), 'centre': (flat(*C), m.arc_p_center),
                           'normal': ([int(k == n) for k in 'XYZ'], m.plane_normal), 'start height': ([d.start[n] if k == n else 0 for k in 'XYZ'], m.helical_start),
                           'end height': ([d.end[n] if k == n else 0 for k in 'XYZ'], m.helical_end)}.items():
        for v, w in zip(want, xyz(got)):
            c.check(x + ' of the arc', c.eq(v, w, tol))
    c.check('radius of the arc', c.eq(m.arc_radius, r, tol))
    c.check('error limit', c.eq(m.max_error, c.min(d.err, r), tol))
    # turning: positive is clockwise
    t = m.arc_angle if cw else -m.arc_angle
    at = None if c.symbolic else 1e-5 + tol / r
    c.check('turns the commanded way, by at most a turn', c.And(c.lt(0, t), c.le(t, c.pi * 2)))
    c.check('angle of the arc', c.And(c.eq(c.cos(t), d.ca, at), c.eq(c.sin(t), d.sa, at)))
    if form == 'full':
        c.check('a whole turn', c.eq(t, c.pi * 2, at))
    else:
        c.check('less than a whole turn', t < c.pi * 2)
