"""Linearised arcs: lines only, chained, ending at the arc's end"""
from pyvc.api import Spec
from .common import *
from . import arcs, c18

SPEC = Spec('C17')
ob = SPEC.ob
SPEC.conc_s = 12
LIN = ['transform:linearize_arc', 'transform:ArcLinearizeMethod.iter_vertices', 'transform:ArcLinearizeMethod.wedge_count']
SPEC.assume('arcs linearize_arc accepts (refusals: C20)')


@ob('end point', functions=LIN, kind='sample', weight=3, covers=['R', 'inc', 'abs', 'many'])
def endpoint(c):
    d = c.obj('arc', arcs.sample_arc)
    g, start, kw, s, e = arcs.build(c, d)
    before = (str(g), dict(start.values))
    try:
        moves = list(c.pg.transform.linearize_arc(g, start, **kw))
    except c.pg.exceptions.GCodeParameterError:
        c.assume(False)
    c.check('arguments unchanged', before == (str(g), dict(start.values)))
    c.check('at least one line', len(moves) >= 1)
    for m in moves:
        c.check('lines only', type(m) is c.pg.gcodes.GCodeLinearMove and set(m.params) <= set('XYZ'))
    ps = arcs.follow(c, d, moves, s)
    tol = 1e-3 if d['inc'] else 0
    c.cover('inc' if d['inc'] else 'abs')
    if 'R' in g.params:
        c.cover('R')
    if len(moves) > 20:
        c.cover('many')
    for x in 'XYZ':
        c.check('ends where the arc does', abs(ps[-1][x] - e[x]) <= tol + 1e-7 * (1 + abs(e[x]) + abs(s[x])))
    if d['inc']:
        for m in moves:
            for x in m.params:
                v = m.params[x].value
                c.check('rounded to the kept decimal places', abs(v - round(v, 3)) < 1e-9 * (1 + abs(v)))


@ob('decimal places', functions=LIN, kind='sample')
def places(c):
    """any number of kept decimals, incremental mode, through the machine"""
    def gen(r):
        d = arcs.sample_arc(r)
        d.update(inc=True, error=r.choice([0.01, 0.002]), radius=r.choice([5, 10, 40]), places=r.choice([0, 1, 2, 3, 4, 5]))
        return d
    d = c.obj('arc', gen)
    g, start, kw, s, e = arcs.build(c, d)
    moves = list(c.pg.transform.linearize_arc(g, start, decimal_places=d['places'], **kw))
    ps = arcs.follow(c, d, moves, s)
    for x in 'XYZ':
        c.check('ends within one unit of the last kept place', abs(ps[-1][x] - e[x]) <= 10.0 ** -d['places'] + 1e-7 * (1 + abs(e[x])))


L2 = ['transform:linearize_arc', 'utils:plane_projection']
O2 = {'ring': True, 'feas': 'lin', 'order': False}


@ob('moves', functions=L2, opts=O2, covers=['abs', 'inc', 'last'], weight=2)
def all_moves(c):
    moves(c, ('full',), c.choice('places', [None, 0, 1, 2, 4]), ('only', 'first', 'later', 'last'))


@ob('last move', functions=L2, opts=O2, covers=['abs', 'inc', 'last'])
def last_move(c):
    """of arcs that are not a whole turn"""
    moves(c, ('R', 'centre'), None, ('only',))


def moves(c, forms, places, cases):
    """any number of lines, between any vertices, the last of which ends at the end of the arc (see 'last line'; vertices: C18)"""
    pg = c.pg
    d = arcs.Given(c, forms)
    if not d.inc:
        c.assume(places is None)
    half = 0.5 * 10 ** -(3 if places is None else places)
    N = c.int('lines', 1, None if c.symbolic else 6)
    V = pg.utils.Vector3
    made = []

    class Lines(object):
        """line k goes from vertex k to vertex k + 1"""
        def __init__(self, m):
            if not hasattr(m, 'arc_p_end') or not hasattr(m, 'helical_end'):
                c.outside('method class has other attributes')
            self.end = m.arc_p_end + m.helical_end
            self.v = {}
            made.append(self)

        def vertex(self, k):
            if k is N or (not c.symbolic and k == N):
                return self.end
            key = 'v' if c.symbolic else k
            name = '%s' % (k if isinstance(k, int) else 'k' if k is st['k'] else 'k+1')
            if name not in self.v:
                self.v[name] = V(*[c.real('vertex %s.%d' % (name, i), -1000, 1000) for i in range(3)])
            return self.v[name]

        def __iter__(self):
            if c.symbolic:
                c.outside('lines used in another way than one by one')
            for k in range(N):
                yield self.line(k, k + 1)

        def line(self, k, k1):
            p, q = self.vertex(k), self.vertex(k1)
            return (V(p.x, p.y, p.z), V(q.x, q.y, q.z))

    class Method(pg.transform.ArcLinearizeMethod):
        def iter_vertices(self):
            return Lines(self)

    st = {'k': 0, 'k1': 1, 'P': None}
    pos = [d.start[x] for x in 'XYZ']
    st['P'] = pos
    if c.symbolic:
        from pyvc.loops import LoopSpec

        class Each(LoopSpec):
            name = 'moves of the lines'

            def applies(self, c, it):
                return isinstance(it, Lines)

            def sequence(self, c, it):
                self.it = it
                return (N, lambda k: it.line(st['k'], st['k1']))

            def havoc(self, c, L, k):
                case = 'exit' if k is N else c.pick(cases)
                one = k
                if case in ('only', 'first'):
                    c.identify(k, 0)
                    c.assume(N == 1 if case == 'only' else N > 1)
                    k, one = 0, (N if case == 'only' else 1)
                elif case in ('later', 'last'):
                    c.assume(k >= 1)
                    c.assume(k == N - 1 if case == 'last' else k < N - 1)
                    one = N if case == 'last' else k + 1
                st['k'], st['k1'] = k, one
                if isinstance(k, int):
                    P = pos
                elif not d.inc:
                    v = self.it.vertex(k)
                    P = [v.x, v.y, v.z]
                else:
                    P = [c.real('reached.%d' % i) for i in range(3)]
                st['P'] = P
                return dict({x: V(*P) for x in self.carried}, **{'$k': k})

            def inv(self, c, L, k):
                if not hasattr(self, 'carried'):
                    self.carried = [x for x in self.names if isinstance(L.get(x), V)]
                    at = None
                else:
                    at = self.it.vertex(st['k'] if k is st['k'] else st['k1'])
                if d.inc:
                    for x in self.carried:
                        for p, q in zip((L[x].x, L[x].y, L[x].z), st['P']):
                            yield ('what has been moved so far', c.eq(p, q))
                if at is not None and not isinstance(k, int) or k is N:
                    for p, q in zip((at.x, at.y, at.z), st['P']):
                        yield ('rounding does not accumulate', c.And(p - q <= half, q - p <= half) if d.inc else c.eq(p, q))
        for i in range(4):
            c.loop('transform:linearize_arc#for%d' % i, Each())
    n = 0
    for g in d.linearize(Method, **({} if places is None else {'decimal_places': places})):
        c.check('lines only', type(g) is pg.gcodes.GCodeLinearMove and set(g.params) <= set('XYZ'))
        v = {x: g.params[x].value for x in g.params}
        st['P'] = P = [(p + v[x] if d.inc else v[x]) if x in v else p for x, p in zip('XYZ', st['P'])]
        if not c.symbolic:
            st['k'], st['k1'] = n, n + 1
        at = made[0].vertex(st['k1'])
        tol = None if c.symbolic else 1e-6
        for p, q in zip(P, (at.x, at.y, at.z)):
            c.check('each line ends at its vertex, within rounding', c.And(c.le(p - q, half, tol), c.le(q - p, half, tol)) if d.inc else c.eq(p, q, tol))
        for x in v:
            if d.inc:
                f = v[x] * 10 ** (3 if places is None else places)
                c.check('rounded to the kept decimal places', f.is_integer() if c.symbolic else abs(f - round(f)) < 1e-5)
        n += 1
        c.cover('inc' if d.inc else 'abs')
        if st['k1'] is N or not c.symbolic and n == N:
            c.cover('last')
            for x, p in zip('XYZ', P):
                c.check('the last line ends where the arc does', c.And(c.le(p - d.end[x], half, tol), c.le(d.end[x] - p, half, tol)) if d.inc else c.eq(p, d.end[x], tol))
    if not c.symbolic:
        c.check('a move for every line', n == N)
    elif st['k'] is not N:
        c.check('a move for every line', n == 1)



ob('vertices', functions=['transform:ArcLinearizeMethod.iter_vertices', 'transform:ArcLinearizeMethod.wedge_count'], opts={'ring': True, 'feas': 'lin'}, covers=['last', 'on the way'])(c18.vertices)
