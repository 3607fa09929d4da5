from pyvc.api import Spec
from .common import *

SPEC = Spec('C25')
ob = SPEC.ob
R = {'ring': True, 'feas': 'lin'}


def V(c, xs):
    return c.pg.utils.Vector3(*xs)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def xyz(v):
    return (v.x, v.y, v.z)


def same(c, label, a, b, tol=1e-6):
    for p, q in zip(a, b):
        c.check(label, c.eq(p, q, tol))


def apart(c, a, b):
    """directions nearer to opposed than 1e-5 belong to the exact opposites' case below (rounding)"""
    x = cross(a, b)
    c.assume(dot(x, x) >= c.lit(1e-20))
    if c.choice('half', ['near', 'far']) == 'near':
        c.assume(dot(a, b) >= 0)
    else:
        c.assume(dot(x, x) > (c.lit(1e-10) if c.symbolic else 1e-6))


def unchanged(c, vs, before):
    for v, b in zip(vs, before):
        for p, q in zip(xyz(v), b):
            c.check('arguments unchanged', c.eq(p, q))


@ob('projection', functions=['utils:plane_projection'], opts=R)
def projection(c):
    """any vector, any non-zero normal of any length"""
    v = [c.real('v%d' % i, -1000, 1000) for i in range(3)]
    u = c.unit('n', 3)
    k = c.real('k', 1e-3, 1000)
    n = [x * k for x in u]
    vv, nn = V(c, v), V(c, n)
    p = c.pg.utils.plane_projection(vv, nn)
    c.check('nothing left along the normal', c.eq(dot(xyz(p), u), 0, 1e-6))
    d = [a - b for a, b in zip(v, xyz(p))]
    same(c, 'only the component along the normal is removed', d, [x * dot(v, u) for x in u])
    unchanged(c, [vv, nn], [v, n])


def rotation(c, q):
    """images of the axes under q: orthonormal and right-handed (so lengths and angles of all vectors are kept, by linearity)"""
    e = [xyz(q * V(c, x)) for x in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
    for i in range(3):
        for j in range(i + 1):
            c.check('lengths and angles are kept', c.eq(dot(e[i], e[j]), 1 if i == j else 0, 1e-6))
    same(c, 'right-handed', cross(e[0], e[1]), e[2])
    w = [c.real('w%d' % i, -100, 100) for i in range(3)]
    g = xyz(q * V(c, w))
    same(c, 'linear', g, [w[0] * e[0][i] + w[1] * e[1][i] + w[2] * e[2][i] for i in range(3)], 1e-5)


@ob('align', functions=['utils:quat2align'], opts=R, weight=2)
def align(c):
    """any two directions, of any length"""
    a, b = c.unit('a', 3), c.unit('b', 3)
    norm = c.choice('normalize', [True, False])
    apart(c, a, b)
    if norm:
        ka, kb = c.real('ka', 0.01, 100), c.real('kb', 0.01, 100)
        va, vb = V(c, [t * ka for t in a]), V(c, [t * kb for t in b])
        q = c.pg.utils.quat2align(va, vb)
    else:
        va, vb = V(c, a), V(c, b)
        q = c.pg.utils.quat2align(va, vb, normalize=False)
    before = [xyz(va), xyz(vb)]
    same(c, 'maps the direction onto the target', xyz(q * V(c, a)), b)
    unchanged(c, [va, vb], before)


@ob('align keeps shapes', functions=['utils:quat2align'], opts=R, weight=2)
def align_rot(c):
    a, b = c.unit('a', 3), c.unit('b', 3)
    apart(c, a, b)
    q = c.pg.utils.quat2align(V(c, a), V(c, b), c.choice('normalize', [True, False]))
    rotation(c, q)


@ob('align opposed and equal', functions=['utils:quat2align'], opts=R)
def opposed(c):
    a = c.unit('a', 3)
    s = c.choice('same', [1, -1])
    k = c.real('k', 0.01, 100)
    va, vb = V(c, a), V(c, [s * t * k for t in a])
    q = c.pg.utils.quat2align(va, vb)
    same(c, 'maps the direction onto the target', xyz(q * va), [s * t for t in a])
    rotation(c, q)


def frame(c, name):
    """arbitrary pair of perpendicular unit vectors (u, w)"""
    u = c.unit(name + '.u', 3)
    # any unit vector perpendicular to u:  t - (t.u) u, scaled
    if not c.symbolic:
        t = c.unit(name + '.t', 3)
        d = dot(t, u)
        w = [p - d * q for p, q in zip(t, u)]
        m = dot(w, w) ** 0.5
        c.assume(m > 0.05)
        return u, [p / m for p in w]
    w = c.unit(name + '.w', 3)
    c.assume(dot(u, w) == 0)
    return u, w


@ob('coordinate systems', functions=['utils:quat2coord_system', 'utils:quat2align'], kind='sample', weight=2)
def coord(c):
    o1, o2 = frame(c, 'o')
    a1, a2 = frame(c, 'a')
    k = [c.choice('k%d' % i, [1, 0.01, 30]) for i in range(4)]
    special = c.choice('special', [None, None, None, 'same1', 'opp1', 'opp2', 'same2'])
    if special == 'same1':
        a1 = o1
        d = dot(a2, a1)
        c.assume(abs(d) < 0.9)
        a2 = [p - d * q for p, q in zip(a2, a1)]
    elif special == 'opp1':
        a1 = [-t for t in o1]
        d = dot(a2, a1)
        c.assume(abs(d) < 0.9)
        a2 = [p - d * q for p, q in zip(a2, a1)]
    elif special == 'opp2':
        a1, a2 = o1, [-t for t in o2]
    elif special == 'same2':
        a1, a2 = o1, o2
    x = cross(o1, a1)
    c.assume(dot(o1, a1) > -0.5 or dot(x, x) > 1e-8 or special in ('opp1',))
    m = dot(a2, a2) ** 0.5
    a2 = [t / m for t in a2]
    vs = [V(c, [t * s for t in u]) for u, s in zip((o1, o2, a1, a2), k)]
    before = [xyz(v) for v in vs]
    q = c.pg.utils.quat2coord_system(*vs)
    same(c, 'maps the first direction', xyz(q * V(c, o1)), a1)
    same(c, 'maps the second direction', xyz(q * V(c, o2)), a2)
    rotation(c, q)
    unchanged(c, vs, before)


AXES = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]


def axis_frames():
    fs = []
    for i, j in AXES:
        for s in (1, -1):
            for t in (1, -1):
                u, w = [0, 0, 0], [0, 0, 0]
                u[i], w[j] = s, t
                fs.append((u, w))
    return fs


@ob('axis-aligned systems', functions=['utils:quat2coord_system', 'utils:quat2align'], opts=R)
def coord_axes(c):
    """every pair of axis-aligned systems, the vectors of any length"""
    o, a = c.choice('from', axis_frames()), c.choice('to', axis_frames())
    k = [c.real('k%d' % i, 0.01, 100) for i in range(4)]
    vs = [V(c, [t * s for t in u]) for u, s in zip(o + a, k)]
    q = c.pg.utils.quat2coord_system(*vs)
    same(c, 'maps the first direction', xyz(q * V(c, o[0])), a[0])
    same(c, 'maps the second direction', xyz(q * V(c, o[1])), a[1])
    same(c, 'right-handed', xyz(q * V(c, cross(*o))), cross(*a))


PLANES = {17: ('XY', 'Z'), 18: ('ZX', 'Y'), 19: ('YZ', 'X')}
E = {'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1)}


@ob('planes', functions=['gcodes:GCodeSelectXYPlane', 'gcodes:GCodeSelectZXPlane', 'gcodes:GCodeSelectYZPlane'], opts=R)
def planes(c):
    n = c.choice('plane', [17, 18, 19])
    g = code(c, 'G', n)
    ax, normal = PLANES[n]
    same(c, 'normal of the plane', xyz(g.normal), E[normal])
    c.check('normal axis and axes of the plane', g.normal_axis == normal and set(g.plane_axes) == set(ax))
    same(c, 'X goes to the first axis', xyz(g.quat * V(c, E['X'])), E[ax[0]])
    same(c, 'Y goes to the second axis', xyz(g.quat * V(c, E['Y'])), E[ax[1]])
    same(c, 'Z goes to the normal', xyz(g.quat * V(c, E['Z'])), E[normal])
    rotation(c, g.quat)

def turned(q, v):
    """image of v under a unit quaternion (w, x, y, z)"""
    w, x, y, z = q
    X, Y, Z = v
    return ((w * w + x * x - y * y - z * z) * X + 2 * (x * y - w * z) * Y + 2 * (x * z + w * y) * Z,
            2 * (x * y + w * z) * X + (w * w - x * x + y * y - z * z) * Y + 2 * (y * z - w * x) * Z,
            2 * (x * z - w * y) * X + 2 * (y * z + w * x) * Y + (w * w - x * x - y * y + z * z) * Z)


@ob('any coordinate systems', functions=['utils:quat2coord_system'], opts=R)
def coord_any(c):
    """any two systems; quat2align by its contract: a rotation that maps one vector onto the other"""
    r = c.unit('target', 4)
    q = c.unit('alignment', 4)
    a1, p = turned(r, (0, 0, 1)), turned(r, (1, 0, 0))
    t = turned(r, (0, 1, 0))
    cs, sn = c.unit('angle', 2)
    a2 = [cs * x + sn * y for x, y in zip(p, t)]
    back = (q[0], -q[1], -q[2], -q[3])
    o1, o2 = turned(back, a1), turned(back, p)
    U = c.pg.utils
    if c.symbolic:
        used = []

        def aligned(to_align, with_this, normalize=True):
            used.append(1)
            same(c, 'aligned: the first directions', xyz(to_align), o1)
            same(c, 'aligned: the first directions', xyz(with_this), a1)
            Q = U.Quaternion()
            Q.w, Q.x, Q.y, Q.z = q
            return Q
        U.quat2align = aligned
    k = [c.real('k%d' % i, 0.01, 100) for i in range(4)]
    vs = [V(c, [x * s for x in u]) for u, s in zip((o1, o2, a1, a2), k)]
    g = U.quat2coord_system(*vs)
    if c.symbolic and len(used) != 1:
        c.outside('aligned otherwise')
    same(c, 'maps the first direction', xyz(g * V(c, o1)), a1)
    same(c, 'maps the second direction', xyz(g * V(c, o2)), a2)
    same(c, 'right-handed', xyz(g * V(c, cross(o1, o2))), cross(a1, a2))
