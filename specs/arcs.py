"""Arcs to linearise: how they are drawn, given as codes, and followed (used by C17 and C18)"""
import math

#        first axis, second axis, normal, letters of the centre offsets (first x second = normal, right handed)
PLANES = {17: ('X', 'Y', 'Z', 'I', 'J'), 18: ('Z', 'X', 'Y', 'K', 'I'), 19: ('Y', 'Z', 'X', 'J', 'K')}
METHODS = ['ArcLinearizeInside', 'ArcLinearizeOutside', 'ArcLinearizeMid']


def sample_arc(r):
    k = r.random()
    sweep = r.choice([math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi]) if k < 0.35 else r.uniform(0.02, 2 * math.pi - 0.02)
    rad = r.choice([0.01, 0.1, 1, 2.5, 10, 100, 1000, r.uniform(0.05, 50)])
    return {
        'plane': r.choice([17, 18, 19, None]), 'cw': r.random() < 0.5, 'inc': r.random() < 0.5, 'incset': r.random() < 0.9,
        'arcabs': r.random() < 0.3, 'form': r.choice('RIII'), 'method': r.choice(METHODS + [None]),
        'error': r.choice([0.01, 0.005, 0.1, 1, 50, rad, 0.3 * rad, 2 * rad, r.uniform(0.005, 2)]),
        'centre': [r.choice([0, r.uniform(-20, 20)]), r.choice([0, r.uniform(-20, 20)])], 'radius': rad,
        'a0': r.choice([0, math.pi / 2, math.pi, -math.pi / 2, r.uniform(-4, 4)]), 'sweep': sweep,
        'h0': r.choice([0, r.uniform(-10, 10)]), 'dh': r.choice([None, None, 0, 1, -3, r.uniform(-10, 10)]),
        'skip': r.random() < 0.5, 'sparse': r.random() < 0.6,
    }


def build(c, d):
    """-> (arc code, start Position, keyword arguments of linearize_arc, end coordinates)"""
    pg = c.pg
    a, b, n, i, j = PLANES[d['plane'] or 17]
    s = -1 if d['cw'] else 1
    at = lambda t: (d['centre'][0] + d['radius'] * math.cos(t), d['centre'][1] + d['radius'] * math.sin(t))
    p = at(d['a0'])
    full = d['sweep'] >= 2 * math.pi
    q = p if full else at(d['a0'] + s * d['sweep'])
    start = {a: p[0], b: p[1], n: d['h0']}
    end = {a: q[0], b: q[1], n: d['h0'] + (d['dh'] or 0)}
    base = start if d['inc'] else dict.fromkeys('XYZ', 0.0)
    par = {x: end[x] - base[x] for x in (a, b)}
    if d['dh'] is not None:
        par[n] = end[n] - base[n]
    end = {x: base[x] + par[x] if x in par else start[x] for x in 'XYZ'}
    if d['skip'] and full:
        par.pop(a)      # an axis that does not move need not be given
    form = d['form']
    if form == 'R':
        if full or abs(d['sweep'] - math.pi) < 0.02:
            form = 'I'
        else:
            par['R'] = d['radius'] if d['sweep'] < math.pi else -d['radius']
    if form == 'I':
        o = (0.0, 0.0) if d['arcabs'] else p
        par[i], par[j] = d['centre'][0] - o[0], d['centre'][1] - o[1]
        # an offset of 0 need not be given (one of them has to be)
        for l in (i, j):
            if d.get('sparse') and abs(par[l]) < 1e-12 and len([x for x in 'IJK' if x in par]) > 1:
                del par[l]
    W = pg.words.Word
    g = (pg.gcodes.GCodeArcMoveCW if d['cw'] else pg.gcodes.GCodeArcMoveCCW)(**par)
    kw = {'max_error': d['error']}
    code = lambda v: pg.gcodes.words2gcodes([W('G', v)])[0][0]
    if d['plane']:
        kw['plane'] = code(d['plane'])
    if d['inc'] or d['incset']:
        kw['dist_mode'] = code(91 if d['inc'] else 90)
    if d['arcabs'] or d['incset']:
        kw['arc_dist_mode'] = code(90.1 if d['arcabs'] else 91.1)
    if d['method']:
        kw['method_class'] = getattr(pg.transform, d['method'])
    return g, pg.machine.Position(axes=set('XYZ'), **start), kw, start, end


def follow(c, d, moves, start):
    """positions the lines lead to"""
    ps = [dict(start)]
    for g in moves:
        v = {x: g.params[x].value for x in g.params}
        p = dict(ps[-1])
        for x in v:
            p[x] = p[x] + v[x] if d['inc'] else v[x]
        ps.append(p)
    return ps


class Given(object):
    """an arbitrary well-formed arc code of at most one turn: any plane, distance modes, form, place, size and direction"""
    def __init__(self, c, forms=('R', 'centre', 'full'), planes=(17, 18, 19)):
        self.c = c
        self.plane = c.choice('plane', planes)
        self.a, self.b, self.n, self.i, self.j = a, b, n, i, j = PLANES[self.plane]
        self.cw, self.inc = c.bool('cw'), c.bool('inc')
        self.form = form = c.choice('form', forms)
        self.arcabs = c.bool('arcabs') if form != 'R' else False
        self.r = r = c.real('radius', 0.01, 1000)
        self.C = C = [c.real('centre.%d' % k, -1000, 1000) for k in (0, 1)]
        h0, h1 = c.real('h0', -1000, 1000), c.real('h1', -1000, 1000)
        self.err = c.real('error', 1e-3, 1000)
        u = c.unit('u', 2)
        if form == 'full':
            p = q = [u[0] * r + C[0], u[1] * r + C[1]]
            self.ca, self.sa, self.sh = 1, 0, 1
        else:
            ch, sh = c.unit('half', 2)      # cosine and sine of half the angle turned
            c.assume(sh > 0)
            c.assume(r * sh >= 5e-4)
            if form == 'R':
                c.assume(2 * r * sh >= self.err if c.symbolic else 2 * r * sh > self.err + 1e-6)
                c.assume(c.gap(ch))
            s = -1 if self.cw else 1
            p = [C[0] + r * (u[0] * ch + s * u[1] * sh), C[1] + r * (u[1] * ch - s * u[0] * sh)]
            q = [C[0] + r * (u[0] * ch - s * u[1] * sh), C[1] + r * (u[1] * ch + s * u[0] * sh)]
            self.ca, self.sa, self.sh = ch * ch - sh * sh, 2 * ch * sh, sh
        self.p, self.q = p, q
        self.start = {a: p[0], b: p[1], n: h0}
        self.end = {a: q[0], b: q[1], n: h1}
        self.par = {x: (self.end[x] - self.start[x]) if self.inc else self.end[x] for x in (a, b)}
        if c.bool('helix'):
            self.par[n] = self.end[n] - self.start[n] if self.inc else self.end[n]
        else:
            self.end[n] = h0
        if form == 'full':
            # an axis that does not move need not be given
            for x in c.choice('left out', [(), (a,), (b,), (a, b)] if n in self.par else [(), (a,), (b,)]):
                del self.par[x]
        if form == 'R':
            self.par['R'] = r if c.sure(ch >= 0) else -r
        else:
            self.par[i], self.par[j] = (C[0], C[1]) if self.arcabs else (C[0] - p[0], C[1] - p[1])

    def code(self, v, **par):
        W = self.c.pg.words.Word
        return self.c.pg.gcodes.words2gcodes([W('G', v)])[0][0] if not par else self.c.pg.gcodes.words2gcodes([W('G', v)] + [W(k, x) for k, x in par.items()])[0][0]

    def linearize(self, method, **kw):
        """-> moves, an iterator"""
        pg = self.c.pg
        g = self.code(2 if self.cw else 3, **self.par)
        return pg.transform.linearize_arc(
            g, pg.machine.Position(axes=set('XYZ'), **self.start), method_class=method, max_error=self.err, plane=self.code(self.plane),
            dist_mode=self.code(91 if self.inc else 90), arc_dist_mode=self.code(90.1 if self.arcabs else 91.1), **kw)
