"""C23: numerical Laplace, Fourier and Hankel transforms."""
import numpy as np
import scipy.special as sp
from vh import group
from geotecha.mathematics import laplace, mp_laplace
from geotecha.mathematics.fourier import FourierTransform, cosine_transform, sine_transform, vcosine_transform, v2dcosine_transform
from geotecha.mathematics.hankel import HankelTransform, vhankel_transform
from geotecha.mathematics.multi_transform import ntransform

RULE = ('Random sums of functions with known transforms (parameters, arguments, parity flags, integration limits, algorithm options, order of the transforms '
        'all random): numerical transform against the analytic pair; linearity, scaling, shift and round trips; every calling form (scalar, array, extra '
        'arguments, not vectorised, arbitrary precision).')
ASSUMPTIONS = ['Laplace: oscillating functions are inverted at times for which the singularities lie inside the contour (frequency times time of at most 2 for 24 points).',
               'Half period integration (vcosine_transform, Hankel) is used with enough half periods for the function to have decayed, or with Shanks extrapolation of a '
               'smoothly decaying function.',
               'Nested infinite Fourier integrals are truncated with b as the documentation asks for.',
               'Forward Fourier kernel exp(-i*s*x), inverse exp(+i*s*x)/(2*pi).']


# ------------------------------------------------------------------ Laplace
def pair(c, tmax, osc, shift=0.):
    """F(s), f(t)"""
    k = c.i(0, 11)
    a = c.logu(.05, 10) / tmax
    w = c.logu(.05, osc) / tmax
    c.note(**{'pair%d' % len(c.params): (k, float('%.3g' % (a * tmax)), float('%.3g' % (w * tmax)))})
    if k == 0:
        return lambda s: 1 / s, lambda t: np.ones_like(t)
    if k == 1:
        n = c.i(1, 5)
        return lambda s: 1 / (s + a) ** n, lambda t: t ** (n - 1) * np.exp(-a * t) / sp.factorial(n - 1)
    if k == 2:
        return lambda s: s / (s * s + w * w), lambda t: np.cos(w * t)
    if k == 3:
        return lambda s: w / ((s + a) ** 2 + w * w), lambda t: np.exp(-a * t) * np.sin(w * t)
    if k == 4:
        n = c.i(2, 5)
        return lambda s: 1 / s ** n, lambda t: t ** (n - 1) / sp.factorial(n - 1)
    if k == 5:
        b = np.sqrt(tmax) * c.u(.02, .3)
        return lambda s: EXP(-b * s ** .5) / s, lambda t: sp.erfc(b / 2 / np.sqrt(t))
    if k == 6:
        return lambda s: 1 / s ** .5, lambda t: 1 / np.sqrt(np.pi * t)
    if k == 7:
        return lambda s: -LOG(s) / s, lambda t: np.log(t) + np.euler_gamma
    if k == 8:
        return lambda s: 1 / ((s + 1j * w) ** .5 * (s - 1j * w) ** .5), lambda t: sp.j0(w * t)
    if k == 9:
        return lambda s: a / (s * (s + a)), lambda t: -np.expm1(-a * t)
    if k == 10:
        g = min(a, .3 / tmax) + shift                # growing: the shift moves the contour to the right of it
        return lambda s: 1 / (s - g), lambda t: np.exp(g * t)
    b = np.sqrt(tmax) * c.u(.02, .3)
    return lambda s: EXP(-b * s ** .5), lambda t: b / (2 * np.sqrt(np.pi * t ** 3)) * np.exp(-b * b / 4 / t)


EXP, LOG = np.exp, np.log


@group('inverse Laplace', quick=1200, thorough=16000, cpu=30)
def talbot(c):
    tmax = c.logu(1e-3, 1e4)
    shift = c.pick(0., 0., c.u(0, 1) / tmax)
    m = c.i(1, 3)
    ps = [pair(c, tmax, 2., shift) for _ in range(m)]
    co = c.u(-2, 2, m)
    F = lambda s: sum(q * p[0](s) for q, p in zip(co, ps))
    f = lambda t: sum(q * p[1](t) for q, p in zip(co, ps))
    size = lambda t: sum(abs(q * p[1](t)) for q, p in zip(co, ps))
    n = c.pick(24, 24, 23, 25, 28, 32)
    t = np.exp(c.u(-5, 0, c.i(1, 6))) * tmax
    kw = {}
    if n != 24 or c.coin():
        kw['n'] = n
    if shift:
        kw['shift'] = shift
    scalar = c.coin(.3)
    tt = t[0].item() if scalar else t
    c.note(n=n, shift=shift, t=t)
    want = f(np.asarray(tt))
    # contour absolute accuracy: relative to the greatest of f over the times up to each one
    sc = np.max([size(np.asarray(tt) * q) for q in (.3, .6, 1.)], axis=0) + 1e-3 * np.max(size(t))
    got = c.call('inverse', laplace.Talbot(F, **kw), tt)
    c.close('pair', (np.asarray(got) - want) / sc, np.zeros(np.shape(want) if t.size > 1 or scalar else ()), rtol=0, atol=3e-7, shape=False)
    k = c.i(0, 3)
    if k == 0:
        s = laplace.Talbot(lambda z, a, b: a * F(z) + b / z, **kw)(tt, (2., 3.))
        c.close('linear, with arguments', (np.asarray(s) - 2 * want - 3) / (sc + 1), 0 * want, rtol=0, atol=1e-6, shape=False)
    elif k == 1:
        def one(z, *a):
            if np.ndim(z):
                raise TypeError('not vectorised')
            return F(z) * (a[0] if a else 1)
        T = laplace.Talbot(one, vectorized=False, **kw)
        c.close('not vectorised', T(tt), got, rtol=1e-10, atol=1e-12 * np.max(sc))
        c.close('not vectorised, arguments', T(tt, (3.,)), 3 * np.asarray(got), rtol=1e-10, atol=1e-12 * np.max(sc))
    elif k == 2:
        T = laplace.Talbot(F, **kw)
        c.close('each time alone', [float(T(v)) for v in t], np.broadcast_to(np.atleast_1d(T(t)), t.shape), rtol=1e-11, atol=1e-11 * np.max(sc))
    else:
        c.raises('zero time', ValueError, laplace.Talbot(F, **kw), c.pick(0., np.array([1., 0.])))


@group('arbitrary precision Laplace', quick=60, thorough=800, cpu=40)
def talbot_mp(c):
    import mpmath
    global EXP, LOG
    old = mpmath.mp.dps
    EXP, LOG = np.frompyfunc(mpmath.exp, 1, 1), np.frompyfunc(mpmath.log, 1, 1)
    try:
        tmax = c.logu(1e-2, 1e2)
        F, f = pair(c, tmax, 2.)
        t = np.exp(c.u(-3, 0, c.i(1, 3))) * tmax
        n, dps = c.pick((24, None), (24, 20), (40, 30), (41, 40))
        if dps is None:
            T = mp_laplace.Talbot(F, n=n)
        else:
            T = mp_laplace.Talbot(F, n=n, dps=dps)
            c.true('dps', T.dps == dps)
        c.note(n=n, dps=dps, t=t)
        got = c.call('mp inverse', T, t if c.coin() else t[0].item())
        g = np.array([float(v) for v in np.atleast_1d(got)])
        want = f(t[:len(g)])
        sc = np.max([np.abs(f(t[:len(g)] * q)) for q in (.3, .6, 1.)], axis=0) + 1e-3 * np.max(np.abs(f(t)))
        c.close('pair', (g - want) / sc, 0 * want, rtol=0, atol=1e-10 if n >= 40 else 3e-7)
        c.raises('zero time', ValueError, T, 0.)
        got = T(t[0].item(), ()) if dps else None
    finally:
        EXP, LOG = np.exp, np.log
        mpmath.mp.dps = old


# ------------------------------------------------------------------ Fourier
def even(c):
    a, b = c.logu(.2, 4), c.logu(.3, 4)
    A, B = c.u(-2, 2, 2) * c.pick((1, 1), (1, 0))
    return (lambda x: A * np.exp(-a * x * x) + B * np.exp(-b * abs(x)),
            lambda s: A * np.sqrt(np.pi / a) * np.exp(-s * s / 4 / a) + B * 2 * b / (b * b + s * s))


def odd(c):
    a, b = c.logu(.2, 4), c.logu(.5, 4)
    A, B = c.u(-2, 2, 2) * c.pick((1, 1), (1, 0))
    return (lambda x: A * x * np.exp(-a * x * x) + B * x * np.exp(-b * abs(x)),
            lambda s: -1j * (A * s / (2 * a) * np.sqrt(np.pi / a) * np.exp(-s * s / 4 / a) + B * 4 * b * s / (b * b + s * s) ** 2))


def part(c):
    k = c.pick('even', 'odd', 'none')
    if k == 'even':
        return (k,) + even(c)
    if k == 'odd':
        return (k,) + odd(c)
    e, o = even(c), odd(c)
    return k, lambda x: e[0](x) + o[0](x), lambda s: e[1](s) + o[1](s)


def clipped(g, s, a, b, sign):
    """integral of g(x)*exp(-i*sign*s*x) over a<|x|<b"""
    x, w = np.polynomial.legendre.leggauss(200)
    e = np.linspace(a, b, 9)
    y = ((e[1:] + e[:-1])[:, None] + (e[1:] - e[:-1])[:, None] * x) / 2
    W = w * (e[1] - e[0]) / 2
    return ((W * (g(y) * np.exp(-1j * sign * s * y))).sum() + (W * (g(-y) * np.exp(1j * sign * s * y))).sum())


@group('Fourier', quick=500, thorough=8000, cpu=40)
def fourier(c):
    kind = c.pick('real', 'imag', 'complex', 'complex')
    inv = c.coin()
    s = c.logu(.05, 8) * c.pick(1, 1, 1, -1)
    kr, gr, Gr = part(c)
    ki, gi, Gi = part(c)
    kw = {}
    if kind != 'imag' and kr != 'none' and c.coin(.85):
        kw['real_part_' + kr] = True
    if kind != 'real' and ki != 'none' and c.coin(.85):
        kw['imag_part_' + ki] = True
    if inv:
        kw['inv'] = True
    if kind == 'real':
        kw['func_is_real'] = True
        f, F = gr, Gr
        whole = gr
    elif kind == 'imag':
        kw['func_is_imag'] = True
        f, F = gi, lambda s: 1j * Gi(s)
        whole = lambda x: 1j * gi(x)
    else:
        f = whole = lambda x: gr(x) + 1j * gi(x)
        F = lambda s: Gr(s) + 1j * Gi(s)
    lim = c.coin(.25)
    if lim:
        kw['b'] = c.u(1, 4)
        if c.coin():
            kw['a'] = c.u(.05, .9)
    c.note(kind=kind, parts=(kr, ki), s=s, kw=kw)
    sg = -1 if inv else 1
    want = clipped(whole, s, kw.get('a', 0.), kw['b'], sg) if lim else F(sg * s)
    want = want / (2 * np.pi) if inv else want
    if c.coin(.3):
        q = c.u(.5, 2)
        got, err = c.call('transform', FourierTransform(lambda x, k: k * f(x), args=(q,), **kw), s)
        got = got / q
    else:
        got, err = c.call('transform', FourierTransform(f, **kw), s)
    c.close('pair', complex(got), complex(want), rtol=1e-6, atol=1e-7)
    if c.coin(.3):
        e, E = even(c)
        o, O = odd(c)
        q = c.u(.5, 2)
        c.close('cosine', cosine_transform(lambda x, k: k * e(x), abs(s), args=(q,))[0], q * E(s) / 2, rtol=1e-7, atol=1e-8)
        c.close('sine', sine_transform(lambda x, k: k * o(x), abs(s), args=(q,))[0], (q * O(abs(s)) / -2j).real, rtol=1e-7, atol=1e-8)


@group('half period cosine', quick=300, thorough=4000, cpu=40)
def vcosine(c):
    n = c.i(1, 5)
    a = c.logu(.3, 3)
    kind = c.pick('exp', 'gauss', 'shanks')
    c.note(kind=kind, a=a)
    if kind == 'gauss':
        s = np.sqrt(a) * c.u(.3, 6, n)
        f, F = (lambda x, q: q * np.exp(-a * x * x)), (lambda s: np.sqrt(np.pi / a) / 2 * np.exp(-s * s / 4 / a))
        kw = {}
    elif kind == 'exp':
        s = a * c.u(.1, 1.5, n)
        f, F = (lambda x, q: q * np.exp(-a * x)), (lambda s: a / (a * a + s * s))
        kw = dict(m=30)
    else:
        s = a * c.u(1.5, 15, n)
        f, F = (lambda x, q: q * np.exp(-a * x)), (lambda s: a / (a * a + s * s))
        kw = dict(shanks_ind=c.i(0, 3))
    if c.coin(.3):
        kw['ng'] = c.pick(20, 32, 64)
    q = c.u(.5, 2)
    arg = s[0].item() if c.coin(.3) else s
    got = c.call('vcosine', vcosine_transform, f, arg, args=(q,), **kw)
    c.close('pair', np.ravel(got), q * F(np.atleast_1d(arg)), rtol=0, atol=1e-8 * q / a ** (1 if kind != 'gauss' else .5), shape=False)
    if c.coin(.3):
        s = a * c.u(.3, 1.2, 2)
        b = c.logu(.3, 3)
        r = np.sqrt(b) * c.u(.3, 5, c.i(1, 3))
        if c.coin():
            m = dict(m=14, ng=14)
            g = lambda x, y, q: q * np.exp(-a * x * x - b * y * y)
            s = np.sqrt(a) * c.u(.5, 4, 2)
            w = np.sqrt(np.pi / a) / 2 * np.exp(-s * s / 4 / a)
        else:
            m = dict(m=10, ng=14, shanks_ind=c.i(0, 2))
            s = a * c.u(2, 8, 2)
            g = lambda x, y, q: q * np.exp(-a * x - b * y)
            w = a / (a * a + s * s)
            r = b * c.u(2, 8, len(r))
        v = np.sqrt(np.pi / b) / 2 * np.exp(-r * r / 4 / b) if 'shanks_ind' not in m else b / (b * b + r * r)
        got = c.call('v2dcosine', v2dcosine_transform, g, s, r, args=(q,), **m)
        big = q * np.max(np.abs(w)) * np.max(np.abs(v)) + q * 1e-2 / np.sqrt(a * b)
        c.close('two dimensional pair', got, q * np.outer(w, v), rtol=0, atol=(1e-6 if 'shanks_ind' not in m else 2e-5) * big)


# ------------------------------------------------------------------ Hankel
def hpair(c, order):
    """f(r), F(s), decay length, kind of decay"""
    k = c.i(0, 2) if order == 0 else 0
    a = c.logu(.3, 3)
    if k == 0:
        return lambda r: r ** order * np.exp(-a * r * r), lambda s: s ** order / (2 * a) ** (order + 1) * np.exp(-s * s / 4 / a), 6 / np.sqrt(a), 'gauss', np.sqrt(a)
    if k == 1:
        return lambda r: np.exp(-a * r), lambda s: a / (a * a + s * s) ** 1.5, 35 / a, 'exp', a
    return lambda r: np.exp(-a * r) / r, lambda s: 1 / np.sqrt(a * a + s * s), 32 / a, 'exp', a


@group('Hankel', quick=800, thorough=10000, cpu=40)
def hankel(c):
    order = c.pick(0, 0, 0, 1, 2)
    kind = c.pick('pair', 'pair', 'vector', 'shanks', 'support', 'limits', 'slow', 'round trip')
    q = c.u(.5, 2)
    if kind in ('pair', 'vector', 'shanks', 'round trip'):
        f, F, L, dec, a = hpair(c, order)
        if kind == 'shanks':
            if dec == 'gauss':
                f, F, L, dec, a = hpair(c, 0)
                order = 0
            s = a * c.u(1.5, 12) if dec == 'exp' else a * c.u(.5, 5)
            kw = dict(shanks_ind=c.pick(-5, 0, 5) if dec == 'exp' else -5)
        else:
            m = c.i(20, 50)
            s = c.u(.05, .95) * m * np.pi / L if c.coin(.7) else c.u(.2, 1.5) * a if dec == 'gauss' else c.u(.05, .9) * m * np.pi / L
            s = min(s, 8 * a)
            kw = dict(m=max(m, int(s * L / np.pi) + 3), ng=c.pick(20, 15), ng0=20)
            if s * L < np.pi * 3:
                kw['points'] = np.linspace(0, L, 25)[1:]
        scale = q * max(abs(F(s)), abs(F(.5 * a)) * 1e-3)
        c.note(kind=kind, order=order, s=s, a=a, dec=dec, kw=kw)
        fq = lambda r, k: k * f(r)
        if kind == 'vector':
            kw.pop('points', None)
            kw.pop('ng0')
            kw['ng'] = 32
            ss = s * c.u(.6, 1, c.i(1, 4))
            ss = ss[ss * L > 3]
            if not len(ss):
                return
            got = c.call('vhankel', vhankel_transform, fq, ss if c.coin() else ss[0].item(), args=(q,), order=order, **kw)
            got = np.ravel(got)
            c.close('vector pair', got, q * F(ss[:len(got)]), rtol=0, atol=1e-6 * q * np.max(np.abs(F(ss))) + 1e-6 * scale)
            return
        if order == 0 and c.coin():
            H = HankelTransform(fq, args=(q,), **kw)
        else:
            H = HankelTransform(fq, args=(q,), order=order, **kw)
        got = c.call('hankel', H, s)
        c.close('pair', got[0], q * F(s), rtol=0, atol=1e-6 * scale)
        c.true('error estimate', np.isfinite(got[1]) and got[1] >= 0)
        if kind == 'round trip' and dec == 'gauss':
            r = c.u(.3, 2) / a
            B = HankelTransform(lambda k: F(k), order=order, m=60, ng=20, points=np.linspace(0, 14 * a, 30)[1:])
            c.close('inverse', B(r)[0], f(r), rtol=0, atol=1e-6)
    elif kind == 'support':
        R, s = c.u(.5, 3), c.logu(.2, 10)
        m = int(s * R / np.pi) + 4
        c.note(kind=kind, R=R, s=s, m=m)
        pts = c.pick(R, [R], [R / 2, R], np.array([R, 1e9]))
        got = c.call('hankel', HankelTransform(lambda r, k: k * (r < R), args=(q,), m=m, ng=20, points=pts), s)
        c.close('finite support', got[0], q * R * sp.j1(s * R) / s, rtol=0, atol=1e-9 * q * R * R)
    elif kind == 'limits':
        s = c.logu(.2, 10)
        m = c.i(4, 30)
        top = sp.jn_zeros(0, m)[-1] / s
        a, b = np.sort(c.u(0, .98, 2)) * top
        if c.coin():
            a = 0
        c.note(kind=kind, s=s, a=a, b=b, m=m)
        kw = dict(points=c.u(0, top, 3)) if c.coin() else {}
        if c.coin(.4):           # is to be ignored for a finite range
            kw['shanks_ind'] = c.pick(0, 2, -5)
        got = c.call('hankel', HankelTransform(lambda r: np.ones_like(r), m=m, ng=20, **kw), s, a, b)
        c.close('limits', got[0], b * sp.j1(s * b) / s - a * sp.j1(s * a) / s, rtol=0, atol=1e-9 * top / s)
    else:
        s = c.logu(.1, 20)
        k = c.i(0, 2)
        c.note(kind=kind, s=s, k=k)
        f, F, o = ((lambda r: 1 / r, 1 / s, 0), (lambda r: 1 / r, 1 / s, 1), (lambda r: 1 / np.sqrt(r * r + 1), np.exp(-s) / s, 0))[k]
        H = HankelTransform(f, order=o, m=30, ng=20, ng0=20, shanks_ind=c.pick(5, 8), points=None)
        if k == 2 and s > 6 or k == 2 and s < .5:
            return
        c.close('slow decay with extrapolation', c.call('hankel', H, s)[0], F, rtol=0, atol=2e-6 / s)


# ------------------------------------------------------------------ several dimensions
@group('several dimensions', quick=60, thorough=900, cpu=60)
def several(c):
    kind = c.pick('F', 'FF', 'HF', 'LF', 'HL', 'HLF', 'LFF', 'H', 'L', 'corr')
    fo = {'func_is_real': True, 'real_part_even': True, 'b': 10}
    a, b, d = c.u(1.5, 2.5), c.u(1.5, 2.5), c.u(1.5, 2.5)
    x, y, t = c.u(.3, 2), c.u(.3, 2), c.u(.3, 2)
    inv = c.coin(.3)
    Fn = 'Fourier_inverse' if inv else 'Fourier'
    k1 = 1 / (2 * np.pi) if inv else 1.
    fx, Fx = (lambda x, a: np.exp(-a * abs(x))), (lambda s, a: 2 * a / (a * a + s * s) * k1)
    hx, Hx = (lambda r, a: np.exp(-a * r)), (lambda s, a: a / (a * a + s * s) ** 1.5)
    lx, Lx = (lambda p, a: 1 / (p + a)), (lambda t, a: np.exp(-a * t))
    H = c.pick('Hankel', 'Hankel_inverse')
    ho = {'shanks_ind': -5}
    nv = {'vectorized': False}
    tab = {'F': ((fx, Fx, Fn, fo),), 'FF': ((fx, Fx, Fn, fo), (fx, Fx, Fn, fo)), 'HF': ((hx, Hx, H, ho), (fx, Fx, Fn, fo)),
           'LF': ((lx, Lx, 'Laplace_inverse', {}), (fx, Fx, Fn, fo)), 'HL': ((hx, Hx, H, ho), (lx, Lx, 'Laplace_inverse', nv)),
           'HLF': ((hx, Hx, H, ho), (lx, Lx, 'Laplace_inverse', nv), (fx, Fx, Fn, fo)),
           'LFF': ((lx, Lx, 'Laplace_inverse', {}), (fx, Fx, Fn, fo), (fx, Fx, Fn, fo)), 'H': ((hx, Hx, H, ho),), 'L': ((lx, Lx, 'Laplace_inverse', {}),)}
    c.note(kind=kind, a=a, b=b, d=d, x=x, y=y, t=t, inv=inv)
    if kind == 'corr':             # not a product: exp(-(a x^2 + b y^2 + 2 h x y)), even in each variable after symmetrising
        h = c.u(-.8, .8) * np.sqrt(a * b)
        f = lambda u, v, a, b: np.exp(-a * u * u - b * v * v) * np.cosh(2 * h * u * v)
        D = a * b - h * h
        g = lambda s: np.exp(-(b * x * x - 2 * s * h * x * y + a * y * y) / 4 / D)
        want = k1 ** 2 * np.pi / np.sqrt(D) * (g(1) + g(-1)) / 2
        got, err = c.call('ntransform', ntransform, f, [Fn, Fn], (x, y), (a, b), c.pick([fo, fo], dict(fo)))
        c.close('pair of a coupled function', got, want, rtol=0, atol=1e-6)
        return
    rows = tab[kind]
    par, at = [a, b, d][:len(rows)], [x, y, t][:len(rows)]
    f = lambda *v: np.prod(np.broadcast_arrays(*[0 * sum(v) + r[0](v[i], v[len(rows) + i]) for i, r in enumerate(rows)]), axis=0) if any(np.ndim(q) for q in v) else \
        np.prod([r[0](v[i], v[len(rows) + i]) for i, r in enumerate(rows)])
    want = np.prod([r[1](at[i], par[i]) for i, r in enumerate(rows)])
    opts = [dict(r[3]) for r in rows]
    if len(rows) == 1 and c.coin() or kind == 'FF' and c.coin():
        opts = opts[0]
    elif c.coin():
        opts = [(lambda *v, o=o: o) if c.coin() else o for o in opts]
    if kind == 'L' and c.coin():
        opts = None
    got, err = c.call('ntransform', ntransform, f, [r[2] for r in rows], at, tuple(par), opts)
    c.close('pair', complex(got).real, want, rtol=2e-5, atol=1e-7)
    c.raises('variables missing', AssertionError, ntransform, f, [r[2] for r in rows], at + [1.], tuple(par), opts)
