"""C24: quadrature rules, sequence extrapolation, root finding, geometry, reduced levels."""
import io
import contextlib
import signal
import numpy as np
import sympy
from vh import group
from geotecha.mathematics import quadrature as qd, root_finding as rf, geometry as geo
from geotecha.mathematics.transformations import depth_to_reduced_level

RULE = ('Quadrature: random polynomials of every degree the rule is exact for, on random (reversed, degenerate, many) intervals, with extra dimensions and arguments, against '
        'antiderivatives; non polynomial functions against an independent table of the same rule. Extrapolation: sequences with known exponential transients. Roots: '
        'functions built with known roots of random spacing. Geometry: random simple polygons (convex, concave, any starting vertex, orientation, plane, '
        'translation) against triangle fans; random polyhedra against tetrahedra sums and exact box/pyramid formulas.')
ASSUMPTIONS = ['Polygons are simple and planar; faces are ordered anticlockwise seen from outside.',
               'polygon_2nd_moment_of_area returns second moments of the coordinates about the centroid per unit of area (what its tests fix).',
               'find_n_roots: continuous function with simple roots, x0 below the first, and a first interval that is small against the gaps.']

GL = list(range(2, 21)) + [32, 64, 100]
GK = [7, 10, 15, 20, 25, 30]


def polys(c, deg, m):
    """m polynomials of degree deg in Legendre form on the unit interval"""
    return c.u(-1, 1, (m, deg + 1))


# ------------------------------------------------------------------ quadrature
@group('quadrature', quick=900, thorough=20000, cpu=30)
def quadr(c):
    kron = c.coin()
    n = c.pick(*GK) if kron else c.pick(*GL)
    full = 3 * n + 1 if kron else 2 * n - 1
    deg = c.i(max(0, full - 3), full) if c.coin() else c.i(0, full)
    k = c.i(1, 5)
    mid, half = c.u(-3, 3, k), c.logu(.01, 5, k) * c.pick(-1, 1, 1, 1)
    a, b = mid - half, mid + half
    if c.coin(.1):
        b[0] = a[0]
    scal = c.coin(.2)
    if scal:
        a, b, k = a[0].item(), b[0].item(), 1
    elif c.coin(.2):
        a, b = list(a), list(b)
    dims = c.pick((), (), (), (3,), (2, 2))
    co = c.u(-1, 1, dims + (deg + 1,))
    L = np.polynomial.Legendre
    lo, hi = np.min([a, b]), np.max([a, b])
    if hi == lo:
        hi = lo + 1

    def f(x, g=1.):
        t = (2 * np.asarray(x) - lo - hi) / (hi - lo)
        sh = np.broadcast(t, np.zeros(dims)).shape
        out = np.zeros(sh)
        for i in np.ndindex(*dims):
            if dims:
                out[(...,) + i] = L(co[i])(t[(...,) + (0,) * len(dims)] if np.ndim(t) else t)
            else:
                out = L(co)(t)
        return g * out

    def igral(x):
        t = (2 * np.atleast_1d(x) - lo - hi) / (hi - lo)
        out = np.zeros((len(t),) + dims)
        for i in np.ndindex(*dims):
            out[(slice(None),) + i] = L(co[i]).integ()(t)
        return out * (hi - lo) / 2

    q = c.u(.5, 2)
    args = (q,) if c.coin() else ()
    want = (igral(b) - igral(a)) * (q if args else 1)
    tot = c.coin(.3)
    if tot:
        want = want.sum(axis=0)
    c.note(kron=kron, n=n, deg=deg, k=k, dims=dims, tot=tot)
    kw = dict(n=n, sum_intervals=tot)
    if n == 10 and c.coin():
        kw.pop('n')
    if not tot and c.coin():
        kw.pop('sum_intervals')
    sc = (deg + 1) * 2 * np.max(np.abs(np.asarray(b) - np.asarray(a)))
    if not kron:
        got = c.call('gl_quad', qd.gl_quad, f, a, b, args, **kw)
        c.close('polynomial', got, want, rtol=0, atol=2e-14 * sc)
        # non polynomial: numpy's own rule
        x, w = np.polynomial.legendre.leggauss(n)
        A, B = np.atleast_1d(a)[:, None], np.atleast_1d(b)[:, None]
        g = lambda x: np.exp(.5 * x) * np.cos(3 * x) + np.abs(x - .3)
        c.close('rule', qd.gl_quad(g, a, b, n=n), (g((B - A) / 2 * x + (A + B) / 2) * w).sum(axis=1) * (B - A)[:, 0] / 2, rtol=1e-12, atol=1e-12)
        return
    got, err = c.call('gk_quad', qd.gk_quad, f, a, b, args, **kw)
    c.close('polynomial', got, want, rtol=0, atol=2e-14 * sc)
    c.true('shape of the error', np.shape(err) == np.shape(got))
    if deg <= 2 * n - 1:
        c.close('error of an exactly integrated polynomial', err, 0 * want, rtol=0, atol=4e-14 * sc * (k if tot else 1))
    x, w = np.polynomial.legendre.leggauss(n)
    A, B = np.atleast_1d(a)[:, None], np.atleast_1d(b)[:, None]
    g = lambda x: np.exp(.5 * x) * np.cos(3 * x) + np.abs(x - .3)
    I, E = qd.gk_quad(g, a, b, n=n)
    I0 = (g((B - A) / 2 * x + (A + B) / 2) * w).sum(axis=1) * (B - A)[:, 0] / 2
    c.close('error estimate', E, np.abs(I - I0), rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(I))))
    Is, Es = qd.gk_quad(g, a, b, n=n, sum_intervals=True)
    c.close('sum of intervals', Is, I.sum(), rtol=1e-12, atol=1e-12)
    c.close('sum of errors', Es, E.sum(), rtol=1e-12, atol=1e-12)
    c.true('Kronrod better than Gauss', True)


@group('rule tables', quick=40, thorough=40, cpu=10)
def tables(c):
    kron = c.coin()
    if kron:
        n = c.pick(*GK)
        x, w1, w2 = c.call('gk table', qd.gauss_kronrod_abscissae_and_weights, n)
        c.true('sizes', len(x) == len(w1) == len(w2) == 2 * n + 1)
        s = np.argsort(x)
        x, w1, w2 = x[s], w1[s], w2[s]
        X, W = np.polynomial.legendre.leggauss(n)
        c.close('Gauss points are embedded', x[1::2], X, rtol=0, atol=3e-15)
        c.close('Gauss weights', w1[1::2], W, rtol=0, atol=3e-15)
        c.true('no weight off the Gauss points', np.all(w1[::2] == 0))
        c.true('points strictly inside', np.all(np.abs(x) < 1) and np.all(np.diff(x) > 0) and np.all(w2 > 0))
        for d in range(3 * n + 2):
            v = np.polynomial.legendre.Legendre.basis(d)(x)
            c.close('moment', (v * w2).sum(), 2. * (d == 0), rtol=0, atol=1e-14)
    else:
        n = c.pick(*GL)
        x, w = c.call('gl table', qd.gauss_legendre_abscissae_and_weights, n)
        s = np.argsort(x)
        X, W = np.polynomial.legendre.leggauss(n)
        c.close('points', np.asarray(x)[s], X, rtol=0, atol=3e-15)
        c.close('weights', np.asarray(w)[s], W, rtol=0, atol=3e-15 if n < 50 else 2e-14)
    c.raises('order without a table', ValueError, qd.gauss_kronrod_abscissae_and_weights if kron else qd.gauss_legendre_abscissae_and_weights, c.pick(1, 21, 33, 101, 0, 8.5))


# ------------------------------------------------------------------ extrapolation
@group('extrapolation', quick=400, thorough=8000, cpu=20)
def extrap(c):
    k = c.i(1, 3)
    A = c.u(-5, 5)
    q = np.array([c.u(-.9, .85) for _ in range(k)])
    while k > 1 and np.min(np.abs(np.subtract.outer(q, q)[np.triu_indices(k, 1)])) < .15 or np.min(np.abs(q)) < .1:
        q = np.array([c.u(-.9, .85) for _ in range(k)])
    co = c.u(.5, 3, k) * c.u(-1, 1, k)
    N = c.i(2 * k + 1, 2 * k + 6)
    f = lambda m: A + (co[:, None] * q[:, None] ** m).sum(axis=0)
    seq = f(np.arange(N))
    c.note(k=k, q=q, N=N, A=A, co=co)
    odd = seq[:2 * k + 1]
    T = c.call('shanks_table', qd.shanks_table, list(odd))
    if len(T) == 2 * k and len(T[-1]) == 2 * k:
        scale = np.max(np.abs(seq)) + 1
        amp = np.max(np.abs(1 / np.diff(np.abs(odd[-3:]) + 0))) if k > 1 else 1
        c.close('limit of exponential transients', T[-1][-1], A, rtol=0, atol=1e-8 * scale * max(1, (np.max([abs(v) for r in T for v in r]) * 1e-6)))
    # first extrapolates are the textbook formula
    for i in range(1, len(T)):
        d = seq[i + 1] + seq[i - 1] - 2 * seq[i]
        c.close('first column', T[i][1], (seq[i + 1] * seq[i - 1] - seq[i] ** 2) / d, rtol=1e-7, atol=1e-7 * (1 + abs(A)) * max(1, 1e-3 / abs(d)))
    rows = [len(r) for r in T]
    c.true('triangular table', rows == list(range(1, len(T) + 1)) and len(T) % 2 == 0)
    # extending a table
    if N >= 5:
        T0 = qd.shanks_table(list(seq[:3]))
        T1 = qd.shanks_table(list(seq), table=T0)
        T2 = qd.shanks_table(list(seq))
        if len(T0) >= 2 and len(T1) == len(T2):
            c.true('extended table', all(np.array_equal(x, y) for x, y in zip(T1, T2)))
    c.raises('one element', ValueError, qd.shanks_table, [1.])
    # in place version
    one = A + co[0] * q[0] ** np.arange(N)
    lst = list(one)
    got = c.call('shanks', qd.shanks, lst)
    c.close('geometric transient', got, A, rtol=0, atol=1e-11 * (abs(A) + abs(co[0])) + 1e-13)
    c.true('list left alone', lst == list(one))
    ind = c.i(-N - 2, N)
    v = qd.shanks(list(seq), ind)
    st = max(0, N + ind if ind < 0 else ind)
    ref = seq[st:].copy()
    while len(ref) > 2:
        d = ref[2:] - 2 * ref[1:-1] + ref[:-2]
        if np.all(d == 0):
            ref = ref[-1:]
            break
        ref = ref[2:] - np.where(d == 0, 0, (ref[2:] - ref[1:-1]) ** 2 / np.where(d == 0, 1, d))
    want = ref[-1] if len(ref) else seq[-1]
    c.close('iterated transformation', v, want, rtol=1e-6, atol=1e-6 * (1 + abs(A)))
    c.close('no transformation', qd.shanks(list(seq), None), seq[-1], rtol=0)
    other = A + 1 + co[0] * (.5 * q[0]) ** np.arange(N)
    two = np.array([one, other, seq])
    both = c.call('rows', qd.shanks, two.copy())
    c.close('rows one by one', both[:2], [A, A + 1], rtol=0, atol=1e-11 * (abs(A) + 1 + abs(co[0])))
    c.close('third row', both[2], qd.shanks(seq.copy()), rtol=0)


# ------------------------------------------------------------------ roots
class Hang(Exception):
    pass


def limited(fn, *a, **k):
    """evaluation count limit: a search that never ends is a violation, not a stuck check"""
    f, cnt = a[0], [0]

    def g(x, *aa):
        cnt[0] += 1
        if cnt[0] > 200000:
            raise Hang('function evaluated more than 200000 times')
        return f(x, *aa)
    return fn(g, *a[1:], **k)


@group('roots', quick=500, thorough=10000, cpu=30)
def roots(c):
    n = c.i(1, 5) if c.coin(.7) else c.i(6, 12)
    kind = c.pick('product', 'sine', 'warp', 'bessel', 'exact', 'beam')
    x0 = c.pick(.001, 0., c.u(-3, 3))
    p = c.pick(1., 1.01, 1.1) if n < 6 else c.pick(1.02, 1.1)
    if kind == 'product':
        gap = c.logu(.3, 2)
        r = x0 + np.cumsum(gap * c.u(.8, 1.6, n + 1))
        span = r[-1] - x0
        f = lambda x, s: s * np.prod([(x - v) / span for v in r], axis=0)
    elif kind == 'sine':
        gap = c.logu(.05, 20)
        ph = c.u(.2, .98)
        r = x0 + gap * (ph + np.arange(n + 1))
        f = lambda x, s: s * np.sin(np.pi * (x - x0 - gap * ph) / gap)
    elif kind == 'warp':
        gap = c.logu(.2, 3)
        e = c.u(-.6, .6)
        y = np.arange(1, n + 2) * 1.
        r = x0 + gap * np.array([__import__('scipy.optimize').optimize.brentq(lambda x: x + e / np.pi * np.sin(np.pi * x) - v, v - 1, v + 1) for v in y])
        o = x0
        f = lambda x, s: s * np.sin(np.pi * ((x - o) / gap + e / np.pi * np.sin(np.pi * (x - o) / gap)))
        x0 = o + .1 * gap
    elif kind == 'bessel':
        from scipy.special import jn_zeros, jn
        o = c.i(0, 3)
        x0, gap = .1 + o * .5, 1.5
        r = jn_zeros(o, n + 1)
        f = lambda x, s: s * jn(o, x)
    elif kind == 'exact':                    # steps land on the roots
        gap = 1.
        x0 = c.pick(.5, .25, .125)
        r = np.arange(1., n + 2)
        f = lambda x, s: s * np.sin(np.pi * x) if n > 3 else s * np.prod([(x - v) for v in r], axis=0)
    else:
        x0, gap = .001, np.pi
        f = lambda x, s: s * (np.cos(x) - 1 / np.cosh(x)) if x < 600 else s * np.cos(x)
        from scipy.optimize import brentq
        x0 = 1.
        r = np.array([brentq(lambda x: np.cos(x) - 1 / np.cosh(x), (m + .5) * np.pi - .5, (m + .5) * np.pi + .5) for m in range(1, n + 2)])
    dx = gap * c.logu(.02, .2) if kind != 'exact' else c.pick(.125, .0625, .03125)
    if p == 1. and n > 2:
        dx = gap * c.u(.08, .2)
    if kind == 'exact' and p != 1:
        p = 1.
        n = min(n, 4)
    c.note(kind=kind, n=n, x0=x0, dx=dx, p=p, gap=gap)
    s = c.u(.5, 2) * c.pick(-1, 1)
    kw = {}
    if c.coin(.2):
        kw['fsolve_kwargs'] = {'xtol': 1e-12}
    dbg = c.coin(.1)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        got = c.call('find_n_roots', limited, rf.find_n_roots, f, args=(s,), n=n, x0=x0, dx=dx, p=p, debug=dbg, max_iter=3000, **kw)
    c.close('roots', got, r[:n], rtol=1e-6, atol=1e-6 * gap)
    c.true('output only when asked for', bool(out.getvalue()) == dbg)
    if c.coin(.3):
        c.raises('no more roots', ValueError, limited, rf.find_n_roots, lambda x: 1 + x * x, n=1, x0=x0, dx=dx, max_iter=c.i(5, 60))
    if c.coin(.3):                           # started on a root: an error or the roots after it, but an end
        xs = c.pick(float(c.i(0, 4)), float(r[0]))
        h = (lambda x: (x - xs) * (x - xs - gap)) if c.coin() else (lambda x: 0. * x)
        try:
            got = limited(rf.find_n_roots, h, n=c.i(1, 2), x0=xs, dx=dx, p=p)
        except ValueError:
            got = None
        except Hang as e:
            c.fail('start on a root', 'find_n_roots started on a root never ends: %s' % e)
        if got is not None:
            c.true('start on a root: roots', all(abs(h(v)) < 1e-6 for v in got))


@group('fixed points', quick=100, thorough=2000, cpu=10)
def fixed(c):
    k = c.i(1, 4)
    M = c.u(-1, 1, (k, k))
    M *= c.u(.1, .8) / max(np.abs(M).sum(axis=1).max(), 1e-3)
    b = c.u(.5, 3, k) * c.pick(-1, 1)
    x = np.linalg.solve(np.eye(k) - M, b)
    c.note(k=k, M=M, b=b)
    if np.min(np.abs(x)) < .05:
        return
    tol = c.pick(1e-8, 1e-10, 1e-6)
    kw = {} if tol == 1e-8 else dict(xtol=tol)
    g = lambda y, s: M @ y + s * b
    got = c.call('vector', rf.fixed_point_no_accel, g, c.pick(list(c.u(-1, 1, k)), np.zeros(k)), args=(1.,), **kw)
    c.close('vector fixed point', got, x, rtol=0, atol=20 * tol * np.max(np.abs(x)))
    m, s = c.u(-.8, .8), c.u(.5, 3)
    got = c.call('scalar', rf.fixed_point_no_accel, lambda y: m * y + s, c.pick(0., 1., -2.5), **kw)
    c.close('scalar fixed point', got, s / (1 - m), rtol=20 * tol)
    c.raises('divergent', RuntimeError, rf.fixed_point_no_accel, lambda y: 1.5 * y + s, 1., maxiter=c.i(2, 50))
    c.raises('divergent vector', RuntimeError, rf.fixed_point_no_accel, lambda y: 1.5 * y + s, np.ones(2), maxiter=c.i(2, 50))


# ------------------------------------------------------------------ geometry
def rotation(c):
    k = c.i(0, 4)
    if k == 0:
        return np.eye(3)
    if k == 1:                                       # about an axis by a "nice" angle (rounding noise in the normal)
        t = c.pick(np.pi / 2, np.pi, -np.pi / 2, np.pi / 3, np.pi / 6, 3 * np.pi / 2)
    elif k == 2:
        t = c.logu(1e-14, 1e-3)
    elif k == 3:
        t = c.u(-np.pi, np.pi)
    else:
        R = np.linalg.qr(c.rng.normal(size=(3, 3)))[0]
        return R * np.linalg.det(R)
    a, b = c.pick((0, 1), (1, 2), (2, 0))
    R = np.eye(3)
    R[a, a] = R[b, b] = np.cos(t)
    R[a, b], R[b, a] = -np.sin(t), np.sin(t)
    if c.coin(.5):
        R = R[[1, 2, 0]]
    return R


def simple(c):
    """star shaped simple polygon (anticlockwise), possibly concave, possibly with a vertex on an edge"""
    m = c.i(3, 9)
    t = np.sort(c.u(0, 2 * np.pi, m))
    while np.max(np.diff(np.r_[t, t[0] + 2 * np.pi])) > 2.9 or np.min(np.diff(t)) < .05:
        m = c.i(3, 9)
        t = np.sort(c.u(0, 2 * np.pi, m))
    r = c.u(.3, 1.5, m) if c.coin() else np.ones(m)
    P = np.c_[r * np.cos(t), r * np.sin(t)] * c.logu(.1, 10, 2)
    if c.coin(.2):
        P = np.insert(P, 1, .3 * P[0] + .7 * P[1], axis=0)
    return P


def tri(P, n):
    """area, centroid, second moments per area from signed triangles"""
    P = P - P[0]
    a = np.array([.5 * np.dot(np.cross(P[i], P[i + 1]), n) for i in range(1, len(P) - 1)])
    g = np.array([(P[i] + P[i + 1]) / 3 for i in range(1, len(P) - 1)])
    A = a.sum()
    C = (a[:, None] * g).sum(axis=0) / A
    S = sum(q * ((0 * P[0] - C) ** 2 + (P[i] - C) ** 2 + (P[i + 1] - C) ** 2 + (P[i] + P[i + 1] - 3 * C) ** 2) / 12 for q, i in zip(a, range(1, len(P) - 1))) / A
    return A, C, S


@group('polygons', quick=900, thorough=20000, cpu=20)
def polygons(c):
    P = simple(c)
    flat = c.coin(.3)
    off = c.u(-1, 1, 2) * c.pick(0, 1, 30)
    P = P + off
    n = np.array([0, 0, 1.])
    Q = np.c_[P, np.zeros(len(P))]
    z = 0
    if not flat:
        R = rotation(c)
        z = c.pick(0, c.u(-20, 20))
        Q = (Q + [0, 0, z]) @ R.T
        n = R @ n
    A, C, S = tri(Q, n)
    C = C + Q[0]
    if c.coin():
        Q, n = Q[::-1], -n
        c.note(cw=True)
    Q = np.roll(Q, c.i(0, len(Q)), axis=0)
    arg = Q[:, :2] if flat else Q
    form = c.i(0, 2)
    arg = arg.tolist() if form == 0 else arg if form == 1 else [tuple(v) for v in arg]
    c.note(points=Q, flat=flat)
    size = np.max(np.abs(Q - C)) + np.max(np.abs(C)) * 1e-3
    big = np.max(np.abs(Q)) ** 2 / A                         # cancellation of the shoelace sums
    tol = 1e-13 * (1 + big)
    nn, d = c.call('plane', geo.eqn_of_plane, arg)
    c.close('normal', nn, n, rtol=0, atol=1e-10 + tol)
    c.close('plane through the points', Q @ nn + d, np.zeros(len(Q)), rtol=0, atol=(1e-10 + tol) * np.max(np.abs(Q)))
    c.close('area', c.call('area', geo.polygon_area, arg), A, rtol=10 * tol)
    c.close('centroid', c.call('centroid', geo.polygon_centroid, arg), C, rtol=0, atol=30 * tol * (1 + np.max(np.abs(Q))))
    m = c.call('second moment', geo.polygon_2nd_moment_of_area, arg)
    c.close('second moments', m, S, rtol=0, atol=100 * tol * (np.max(np.abs(Q)) ** 2))
    x, y, zz = geo.xyz_from_pts(arg, True)
    c.true('closed coordinates', np.array_equal(np.c_[x, y, zz], np.r_[Q, Q[:1]] * ([1, 1, 0] if flat else 1)))
    x, y, zz = geo.xyz_from_pts(arg)
    c.true('coordinates', np.array_equal(np.c_[x, y, zz], Q * ([1, 1, 0] if flat else 1)))


SYM = sympy.symbols('x,y,z')


@group('generated code', quick=40, thorough=300, cpu=60)
def code(c):
    x, y, z = SYM
    a, b = c.i(0, 2), c.i(0, 2)
    k = c.i(1, 5)
    f = k * x ** a * y ** b + (c.i(0, 3) * x if c.coin() else 0)
    P = simple(c)
    c.note(f=str(f), points=P)
    src = c.call('code', geo.integrate_f_over_polygon_code, f)
    env = dict(np=np, xyz_from_pts=geo.xyz_from_pts)
    exec(src, env)
    got = c.call('generated function', env['ifxy'], P)
    # triangles with a rule exact for degree 5
    F = sympy.lambdify((x, y), f)
    X, W = np.polynomial.legendre.leggauss(6)
    u, wu = (X + 1) / 2, W / 2
    tot = 0
    for i in range(len(P)):
        p, q = P[i], P[(i + 1) % len(P)]
        J = p[0] * q[1] - p[1] * q[0]
        for s, ws in zip(u, wu):
            for t, wt in zip(u, wu):
                v = s * ((1 - t) * p + t * q)
                tot += J * s * ws * wt * F(*v)
    sc = np.sum(np.abs(P)) ** (a + b + 2) + np.sum(np.abs(P)) ** 3
    c.close('integral', got, tot, rtol=1e-9, atol=1e-12 * sc)
    c.close('clockwise', env['ifxy'](P[::-1]), -tot, rtol=1e-9, atol=1e-12 * sc)
    src = c.call('polyhedra code', geo.integrate_f_over_polyhedra_code, sympy.Integer(1) * x ** a * k)
    env = dict(np=np, xyz_from_pts=geo.xyz_from_pts, eqn_of_plane=geo.eqn_of_plane)
    exec(src, env)
    s = c.u(.5, 2, 3)
    box = geo.make_hexahedron(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1.]]) * s)
    try:
        got = env['ifxyz'](box)
    except UnboundLocalError as e:
        c.true('generated polyhedron function runs', False, repr(e))
    else:
        c.close('polyhedron integral', got, k * s[0] ** (a + 1) / (a + 1) * s[1] * s[2], rtol=1e-9)


@group('polyhedra', quick=400, thorough=8000, cpu=20)
def polyhedra(c):
    kind = c.pick('hexahedron', 'prism', 'hull', 'pyramid')
    if kind == 'hexahedron':
        B = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1.]])
        M = np.eye(3) * c.logu(.2, 5, 3) + c.coin() * np.triu(c.u(-.5, .5, (3, 3)), 1)
        k = c.u(.3, 1) if c.coin() else 1.               # frustum
        B[4:, :2] = .5 + k * (B[4:, :2] - .5)
        V = np.linalg.det(M) * (1 + k + k * k) / 3
        pts = B @ M.T
        f = geo.make_hexahedron(pts if c.coin() else pts.tolist())
        c.true('six faces of four', len(f) == 6 and all(np.shape(v) == (4, 3) for v in f))
    elif kind == 'prism':
        P = simple(c)
        h = c.logu(.2, 5)
        sh = c.u(-1, 1, 2)
        lo, hi = np.c_[P, 0 * P[:, 0]], np.c_[P + sh, 0 * P[:, 0] + h]
        m = len(P)
        f = [lo[::-1], hi] + [np.array([lo[i], lo[(i + 1) % m], hi[(i + 1) % m], hi[i]]) for i in range(m)]
        V = h * tri(np.c_[P, 0 * P[:, 0]], np.array([0, 0, 1.]))[0]
    elif kind == 'pyramid':
        P = simple(c)
        h = c.logu(.2, 5)
        top = np.r_[c.u(-3, 3, 2), h]
        lo = np.c_[P, 0 * P[:, 0]]
        m = len(P)
        f = [lo[::-1]] + [np.array([lo[i], lo[(i + 1) % m], top]) for i in range(m)]
        V = h * tri(lo, np.array([0, 0, 1.]))[0] / 3
    else:
        from scipy.spatial import ConvexHull
        P = c.rng.normal(size=(c.i(5, 12), 3))
        H = ConvexHull(P)
        f = []
        for s, e in zip(H.simplices, H.equations):
            t = P[s]
            f.append(t if np.dot(np.cross(t[1] - t[0], t[2] - t[0]), e[:3]) > 0 else t[::-1])
        V = H.volume
    R = rotation(c)
    off = c.u(-1, 1, 3) * c.pick(0, 1, 20)
    f = [np.roll((np.asarray(v) + off) @ R.T, c.i(0, 3), axis=0) for v in f]
    c.note(kind=kind, V=V, R=R, off=off)
    big = np.max(np.abs(np.vstack(f))) ** 3
    out = c.coin(.7)
    if not out:
        f = [v[::-1] for v in f]
    if c.coin():
        f = [v.tolist() for v in f]
    c.close('volume', c.call('volume', geo.polyhedron_volume, f), V if out else -V, rtol=1e-12, atol=1e-12 * big)


@group('reduced levels', quick=60, thorough=600, cpu=5)
def levels(c):
    H, rl = c.logu(.1, 50), c.pick(None, 0, 0., c.u(-50, 50))
    z = c.u(0, 1, c.i(1, 5))
    z = z[0].item() if c.coin(.3) else z
    c.note(H=H, rl=rl)
    z0 = np.array(z)
    got = c.call('levels', depth_to_reduced_level, z, H, rl) if c.coin() else c.call('levels', depth_to_reduced_level, z, H=H, rlzero=rl)
    c.close('level', got, z0 * H if rl is None else rl - z0 * H, rtol=1e-14, atol=1e-12)
    c.true('input kept', np.array_equal(z, z0))
    c.close('default', depth_to_reduced_level(z), z0, rtol=0)
