"""C15: pore pressure around drains, non-Darcian radial flow, spacing back-calculation."""
import numpy as np
from vh import group
import smearref as R
import geotecha.consolidation.smear_zones as sz
from checks.c14 import draw, drawlin, shapes, val, MU

RULE = ('Random drain/smear geometry, permeability profiles, radii, average and well pressures, well resistance, flow exponents and series'
        ' lengths; the reported pressure is compared with numerically integrated radial flow, averaged over the soil cylinder and'
        ' differenced; non-Darcian factors are compared with integrals of the same truncated series; back-calculated spacings are'
        ' put back through the factor.')
ASSUMPTIONS = ['drain spacing back-calculation is required to succeed for spacings between 2 and 20 times the smear zone; outside it may'
               ' refuse (ValueError) but never return a spacing that does not reproduce eta.',
               'non-Darcian factors equal the integral of the documented series cut after nterms terms.']


def loads(c):
    ua = c.pick(1, c.u(-50, 200))
    uw = c.pick(0, c.u(-100, 50))
    return ua, uw, c.pick(0, c.logu(1e-3, 20))


def radii(c, n, s):
    r = 1 + (n - 1) * c.u(0, 1, c.i(1, 7))
    r = np.append(r, [x for x in [1., n] + list(np.atleast_1d(s)) if 1 <= x <= n and c.coin()])
    return r[np.argsort(c.u(0, 1, len(r)))]


def average(fn, edges, ua, n):
    """Average over the soil cylinder of fn(radii)."""
    t = 0.
    e = sorted(set(float(x) for x in edges if 1 <= x <= n))
    for a, b in zip(e, e[1:]):
        x, w = R.nodes(a, b, 4)
        x = np.clip(x, a, b)
        t += np.sum(w * x * fn(x))
    return 2 * t / (n * n - 1)


def judge(c, fn, prof, edges, r, ua, uw, mw, tol, fac=None, dr=None):
    """Compare pressures with the reference; fn(radii) calls the package."""
    n = prof[-1][1]
    m = R.mu(prof) if fac is None else fac
    d = (lambda q: R.drop(prof, q)) if dr is None else dr
    g = (ua - uw) / (m + mw)
    sc = abs(ua) + abs(uw) + 1e-30
    got = c.call('u', fn, shapes(c, list(r)))
    c.close('pressure', got, uw + g * (d(r) + mw), rtol=tol, scale=sc)
    c.close('one radius', np.ravel(fn(float(r[-1]))), np.ravel(got)[-1:], rtol=1e-12, scale=sc)
    c.close('average', average(fn, edges, ua, n), ua, rtol=max(tol, 1e-8), scale=sc)
    c.close('at the drain', np.ravel(fn([1.])), [uw + g * mw], rtol=tol, scale=sc)


@group('ideal', quick=300, thorough=6000)
def ideal(c):
    n = c.pick(c.u(1.05, 4), c.logu(1.5, 300))
    ua, uw, mw = loads(c)
    r = radii(c, n, [])
    c.note(n=n, r=r, ua=ua, uw=uw, muw=mw)
    judge(c, lambda x: sz.u_ideal(n, x, ua, uw, mw), R.ideal(n), [1, n], r, ua, uw, mw, 1e-8)
    c.close('defaults', sz.u_ideal(n, r), R.drop(R.ideal(n), r) / R.mu(R.ideal(n)), rtol=1e-8, scale=1)


U = dict(constant=sz.u_constant, linear=sz.u_linear, parabolic=sz.u_parabolic)


def closed(model):
    def f(c):
        n, s, k, tol = draw(c, model)
        ua, uw, mw = loads(c)
        r = radii(c, n, s)
        c.note(n=n, s=s, k=k, r=r, ua=ua, uw=uw, muw=mw)
        prof = MU[model][1](n, s, k)
        kw = c.coin()
        fn = (lambda x: U[model](n, s, k, x, uavg=ua, uw=uw, muw=mw)) if kw else (lambda x: U[model](n, s, k, x, ua, uw, mw))
        # the parabola is singular at the smear boundary only to second order
        judge(c, fn, prof, [1, s, n], r, ua, uw, mw, max(tol, 1e-7))
        c.close('defaults', U[model](n, s, k, r), R.drop(prof, r) / R.mu(prof), rtol=max(tol, 1e-7), scale=1)
        if c.coin(.3):
            ni = c.i(6, 30)
            si = c.i(2, 5)
            ki = c.pick(1, si, si + 2)
            ri = [1, si, ni, si + 1]
            p = MU[model][1](float(ni), float(si), float(ki))
            c.note(ni=ni, si=si, ki=ki)
            c.close('integers', U[model](ni, si, ki, ri), R.drop(p, ri) / R.mu(p), rtol=1e-7, scale=1)
        for bad in (.5, n * 1.01):
            c.raises('radius', ValueError, U[model], n, s, k, [1., bad])
    f.__name__ = 'u_' + model
    return f


for _m in U:
    group(_m, quick=500, thorough=10000)(closed(_m))


def pieces(c):
    m = c.i(1, 6)
    return 1 + np.cumsum(c.logu(1e-2, 8, m)), c.logu(.1, 20, m)


@group('pwconst', quick=400, thorough=8000)
def pwconst(c):
    s, k = pieces(c)
    ua, uw, mw = loads(c)
    r = radii(c, s[-1], s)
    c.note(s=s, k=k, r=r, ua=ua, uw=uw, muw=mw)
    a = shapes(c, list(s)), shapes(c, list(k))
    judge(c, lambda x: sz.u_piecewise_constant(*a, x, ua, uw, mw), R.pwconst(s, k), [1] + list(s), r, ua, uw, mw, 1e-8)
    n = s[-1] * c.u(1.01, 5)
    km = c.pick(None, 1., c.logu(.2, 5))
    p = R.pwconst(np.append(s, n), np.append(k, k[-1] if km is None else km))
    r = radii(c, n, s)
    c.note(n=n, km=km, r2=r)
    c.close('appended', sz.u_piecewise_constant(*a, r, n=n, kap_m=km, muw=mw), (R.drop(p, r) + mw) / (R.mu(p) + mw), rtol=1e-8, scale=1)
    if c.coin(.3):
        si, ki = [2, 5, 9], [4, 2, 1]
        p = R.pwconst(np.array(si, float), ki)
        ri = [1, 2, 3, 5, 7, 9]
        c.close('integers', sz.u_piecewise_constant(si, ki, ri), R.drop(p, ri) / R.mu(p), rtol=1e-8, scale=1)


@group('pwlin', quick=400, thorough=8000)
def pwlin(c):
    s, k = drawlin(c)
    if s[-1] == s[0]:
        s[-1] += 1
    ua, uw, mw = loads(c)
    r = radii(c, s[-1], s)
    c.note(s=s, k=k, r=r, ua=ua, uw=uw, muw=mw)
    a = shapes(c, list(s)), shapes(c, list(k))
    judge(c, lambda x: sz.u_piecewise_linear(*a, x, ua, uw, mw), R.pwlin(s, k), s, r, ua, uw, mw, 1e-6)
    n = s[-1] + c.u(.3, 8)
    km = c.pick(None, k[-1], 2 * k[-1] * (1 + n - s[-1]))
    p = R.pwlin(np.append(s, n), np.append(k, k[-1] if km is None else km))
    r = radii(c, n, s)
    c.note(n=n, km=km, r2=r)
    c.close('appended', sz.u_piecewise_linear(*a, r, n=n, kap_m=km, muw=mw), (R.drop(p, r) + mw) / (R.mu(p) + mw), rtol=1e-6, scale=1)


def nterm(c):
    return c.pick(20, 20, c.i(2, 40), 60)


def flow(c):
    return c.pick(c.u(1.05, 2), c.u(1.001, 1.1), 1.0001, 1 + c.logu(1e-6, 1e-3), c.u(2, 4), 2, 3)


def ntol(p):
    return 1e-8 + 1e-14 / (p - 1)


@group('beta', quick=500, thorough=10000)
def beta(c):
    n = c.pick(c.u(1.3, 5), c.logu(1.5, 200))
    p, nt = flow(c), nterm(c)
    s = 1 + (n - 1) * c.u(.02, .98)
    k = c.pick(1., c.u(1, 10))
    c.note(n=n, p=p, nt=nt, s=s, k=k)
    kw = dict(nflow=p, nterms=nt)
    t = ntol(p)
    c.close('ideal', val(c.call('ideal', sz.non_darcy_beta_ideal, n, **kw)), R.beta(R.ideal(n), p, nt), rtol=t)
    c.close('constant', val(c.call('constant', sz.non_darcy_beta_constant, n, s, k, **kw)), R.beta(R.constant(n, s, k), p, nt), rtol=t * 10)
    c.close('positional', val(sz.non_darcy_beta_ideal(n, p, nt)), val(sz.non_darcy_beta_ideal(n, **kw)), rtol=1e-12)
    if nt == 20:
        c.close('default terms', val(sz.non_darcy_beta_ideal(n, nflow=p)), val(sz.non_darcy_beta_ideal(n, **kw)), rtol=1e-13)
        c.close('default constant', val(sz.non_darcy_beta_constant(n, s, k, nflow=p)), val(sz.non_darcy_beta_constant(n, s, k, **kw)), rtol=1e-13)
        c.close('default flow', val(sz.non_darcy_beta_ideal(n)), R.beta(R.ideal(n), 1.0001, 20), rtol=1e-8)
        c.close('default flow constant', val(sz.non_darcy_beta_constant(n, s, k)), R.beta(R.constant(n, s, k), 1.0001, 20), rtol=1e-7)
    # arrays element by element
    N, S = n * np.array([1, 1.5, 2.]), np.array([s, s, s])
    Pn = c.pick(float(p), np.array([p, p + .3, p + .1], float))
    c.close('ideal array', c.call('ideal', sz.non_darcy_beta_ideal, N, nflow=Pn, nterms=nt),
            [R.beta(R.ideal(a), b, nt) for a, b in zip(N, np.broadcast_to(Pn, 3))], rtol=t * 10)
    c.close('constant array', c.call('constant', sz.non_darcy_beta_constant, N, S, k, nflow=Pn, nterms=nt),
            [R.beta(R.constant(a, s, k), b, nt) for a, b in zip(N, np.broadcast_to(Pn, 3))], rtol=t * 100)
    # Darcian limit and accuracy of the series
    e = 1e-6
    c.close('darcian limit', val(sz.non_darcy_beta_ideal(n, 1 + e)), R.mu(R.ideal(n)), rtol=3e-5)
    c.close('darcian limit constant', val(sz.non_darcy_beta_constant(n, s, k, 1 + e)), R.mu(R.constant(n, s, k)), rtol=3e-5)
    c.close('series', val(sz.non_darcy_beta_ideal(n, p, 200)), beta_full(n, p), rtol=2e-4)
    for b in (dict(n=c.u(.1, 1)), dict(nflow=c.u(.1, 1))):
        c.raises('bad', ValueError, sz.non_darcy_beta_ideal, b.get('n', n), b.get('nflow', p))
        c.raises('bad constant', ValueError, sz.non_darcy_beta_constant, b.get('n', n), s, k, b.get('nflow', p))
    c.raises('bad s', ValueError, sz.non_darcy_beta_constant, n, .9, k, p)
    c.raises('bad kap', ValueError, sz.non_darcy_beta_constant, n, s, c.u(.1, .99), p)


def beta_full(n, p):
    """No truncation; x=n sin(theta) tames the end point."""
    a, b = np.arcsin(1 / n), np.pi / 2
    t, w = np.polynomial.legendre.leggauss(80)
    th = a + (b - a) * (t + 1) / 2
    x = n * np.sin(th)
    f = x ** (-1 / p) * np.cos(th) ** (2 / p) * (n * n - x * x) * n * np.cos(th)
    return np.sum(w * f) * (b - a) / 2 / (n * n - 1)


@group('betapw', quick=400, thorough=8000)
def betapw(c):
    s, k = pieces(c)
    s = 1 + np.cumsum(np.maximum(np.diff(np.append(1, s)), .05))
    p, nt = flow(c), nterm(c)
    ua, uw, mw = loads(c)
    r = radii(c, s[-1], s)
    c.note(s=s, k=k, p=p, nt=nt, r=r, ua=ua, uw=uw, muw=mw)
    prof = R.pwconst(s, k)
    a = shapes(c, list(s)), shapes(c, list(k))
    b = R.beta(prof, p, nt)
    tol = 1e-7 + 1e-14 / (p - 1) * max(1, k.max()) / b
    c.close('beta', c.call('beta', sz.non_darcy_beta_piecewise_constant, *a, nflow=p, nterms=nt), b, rtol=tol)
    judge(c, lambda x: sz.non_darcy_u_piecewise_constant(*a, x, ua, uw, mw, nflow=p, nterms=nt), prof, [1] + list(s), r, ua, uw, mw, tol,
          fac=b, dr=lambda q: R.ndrop(prof, p, q, nt))
    n = s[-1] * c.u(1.05, 4)
    km = c.pick(None, 1., c.logu(.2, 5))
    p2 = R.pwconst(np.append(s, n), np.append(k, k[-1] if km is None else km))
    b2 = R.beta(p2, p, nt)
    c.note(n=n, km=km)
    c.close('appended', c.call('beta', sz.non_darcy_beta_piecewise_constant, *a, n=n, kap_m=km, nflow=p, nterms=nt), b2, rtol=tol)
    r = radii(c, n, s)
    c.close('appended pressure', sz.non_darcy_u_piecewise_constant(*a, r, n=n, kap_m=km, muw=mw, nflow=p, nterms=nt),
            (R.ndrop(p2, p, r, nt) + mw) / (b2 + mw), rtol=tol, scale=1)
    e = 1 + 1e-6
    c.close('darcian limit', sz.non_darcy_u_piecewise_constant(*a, r[r <= s[-1]], uavg=ua, uw=uw, muw=mw, nflow=e),
            sz.u_piecewise_constant(*a, r[r <= s[-1]], ua, uw, mw), rtol=3e-5, scale=abs(ua) + abs(uw))
    c.close('defaults', sz.non_darcy_u_piecewise_constant(*a, r[r <= s[-1]]),
            R.ndrop(prof, 1.0001, r[r <= s[-1]], 20) / R.beta(prof, 1.0001, 20), rtol=1e-7, scale=1)


@group('g', quick=200, thorough=4000)
def g(c):
    N = c.logu(1.2, 200)
    p, nt = flow(c), nterm(c)
    y = np.sort(1 + (N - 1) * c.u(0, 1, 3))
    y[0], y[2] = 1, N
    c.note(N=N, p=p, nt=nt, y=y)
    ex = np.array([R.ndrop(R.ideal(N), p, [v], nt)[0] for v in y])
    one = np.array([float(c.call('g', sz._g, v, N, p, nt)) for v in y])
    vec = c.call('g', sz._g, y, N, p, nt)
    c.close('differences', one - one[0], ex, rtol=ntol(p), scale=abs(one).max())
    c.close('array', vec, one, rtol=1e-10)
    b1 = np.array([float(c.call('gbar', sz._gbar, v, N, p, nt)) for v in y])
    c.close('gbar array', c.call('gbar', sz._gbar, y, N, p, nt), b1, rtol=1e-10)
    # gbar' = y g
    for lo, hi in zip(y, y[1:]):
        if hi > lo * (1 + 1e-6):
            x, w = R.nodes(lo, hi, 4)
            c.close('gbar', b1[list(y).index(hi)] - b1[list(y).index(lo)], np.sum(w * x * sz._g(x, N, p, nt)), rtol=1e-9, scale=abs(b1).max())
    c.raises('r', ValueError, sz._g, .9, N, p)
    c.raises('re', ValueError, sz._gbar, 1, 1., p)
    c.raises('n', ValueError, sz._g, 1, N, 1)


@group('spacing', quick=500, thorough=10000)
def spacing(c):
    sp = c.pick(c.logu(.1, 10), c.logu(.1, 10, 4))
    pat = c.pick('Triangle', 'Square', 't', 'S', 'tri', 'SQ')
    f = (np.sqrt(3) / 2 / np.pi) ** .5 if pat[0] in 'tT' else (1 / np.pi) ** .5
    c.note(sp=sp, pat=pat)
    c.close('equal area', c.call('re', sz.re_from_drain_spacing, sp, pat), f * np.asarray(sp), rtol=1e-12)
    c.close('default', sz.re_from_drain_spacing(sp), (np.sqrt(3) / 2 / np.pi) ** .5 * np.asarray(sp), rtol=1e-12)
    c.raises('pattern', ValueError, sz.re_from_drain_spacing, sp, c.pick('x', 'hexagon'))
    c.raises('positive', ValueError, sz.re_from_drain_spacing, c.pick(0, -1., np.array([1, -.1])), pat)
    # eta
    n, s, k = c.u(5, 50), c.u(1.1, 4.5), c.u(1.1, 6)
    re, mw = c.logu(.1, 10), c.pick(0, c.logu(1e-2, 10))
    name = c.pick('mu_ideal', 'mu_constant', 'mu_linear', 'mu_parabolic', 'mu_overlapping_linear')
    c.note(n=n, s=s, k=k, re=re, mw=mw, name=name)
    m = R.mu(R.ideal(n) if name == 'mu_ideal' else MU[name.split('_')[1]][1](n, s, k))
    kw = dict(muw=mw) if mw or c.coin() else {}
    c.close('eta', val(c.call('eta', sz.drain_eta, re, c.pick(name, getattr(sz, name)), n, s, k, **kw)), 2 / re ** 2 / (m + mw), rtol=1e-7)
    S, K = [s, n], [k, 1.]
    c.close('eta pw', c.call('eta', sz.drain_eta, re, 'mu_piecewise_constant', S, K, muw=mw), 2 / re ** 2 / (R.mu(R.constant(n, s, k)) + mw), rtol=1e-8)
    c.close('eta pw n', c.call('eta', sz.drain_eta, re, sz.mu_piecewise_constant, [s], [k], n=n, kap_m=1), 2 / re ** 2 / R.mu(R.constant(n, s, k)), rtol=1e-8)
    # non-Darcian
    p, iL, gw = c.u(1.001, 1.6), c.u(.5, 20), c.pick(10, 9.81)
    c.note(p=p, iL=iL)
    E = lambda b: 2 / (re ** 2 * b ** p * (re / n * gw) ** (p - 1) * p * iL ** (p - 1))
    c.close('nd ideal', c.call('nd', sz.non_darcy_drain_eta, re, iL, gw, 'non_darcy_beta_ideal', n, nflow=p), E(R.beta(R.ideal(n), p, 20)), rtol=1e-6)
    c.close('nd constant', c.call('nd', sz.non_darcy_drain_eta, re, iL, gw, sz.non_darcy_beta_constant, n, s, k, nflow=p, nterms=30), E(R.beta(R.constant(n, s, k), p, 30)), rtol=1e-6)
    c.close('nd n keyword', c.call('nd', sz.non_darcy_drain_eta, re, iL, gw, sz.non_darcy_beta_piecewise_constant, [s], [k], n=n, kap_m=1, nflow=p, nterms=30), E(R.beta(R.constant(n, s, k), p, 30)), rtol=1e-6)
    c.close('nd darcian limit', sz.non_darcy_drain_eta(re, iL, gw, 'non_darcy_beta_ideal', n, nflow=1 + 1e-6), 2 / re ** 2 / R.mu(R.ideal(n)), rtol=1e-4)


@group('backcalc', quick=600, thorough=12000)
def backcalc(c):
    f = c.pick(sz.mu_ideal, sz.mu_constant, sz.mu_linear, sz.mu_parabolic, sz.mu_overlapping_linear, sz.mu_piecewise_constant, sz.mu_piecewise_linear)
    rw, s, k = c.logu(.01, 1), c.u(1.1, 8), c.u(1.1, 8)
    pat = c.pick('t', 'Square')
    ratio = c.pick(c.logu(2.4, 20), c.logu(2.4, 20), c.logu(1.02, 500))
    n, mw = s * ratio, c.pick(0, c.logu(.1, 10))
    if f is sz.mu_overlapping_linear:
        n = max(1.05, n / c.pick(1, 4))
        ratio = n / s if n > 2.4 * s else 1
    fac = (np.sqrt(3) / 2 / np.pi) ** .5 if pat == 't' else (1 / np.pi) ** .5
    sp = n * rw / fac
    if f in (sz.mu_piecewise_constant, sz.mu_piecewise_linear):
        S = np.sort(1 + (s - 1) * c.u(.05, .95, 3))
        S[-1] = s
        K = c.logu(1, 8, 3)
        K[-1] = 1. if f is sz.mu_piecewise_linear else K[-1]
        if f is sz.mu_piecewise_linear:
            S[0] = 1
            K[:2] += 1
        m, a = f(S, K, n=n), (S, K)
    else:
        a = s, k
        m = val(f(n, s, k))
    eta = 2 / (n * rw) ** 2 / (m + mw)
    c.note(f=f.__name__, rw=rw, a=a, n=n, muw=mw, pat=pat, eta=eta)
    try:
        r = sz.back_calc_drain_spacing_from_eta(eta, pat, f, rw, *a, muw=mw)
    except ValueError as e:
        c.true('refused although well inside the range', not 2.4 <= ratio <= 20, str(e)[:100])
        return
    c.true('three values', len(r) == 3)
    c.close('spacing', float(r[0]), sp, rtol=1e-5)
    c.close('re', float(r[1]), fac * float(r[0]), rtol=1e-12)
    c.close('n', float(r[2]), float(r[1]) / rw, rtol=1e-12)
    if f not in (sz.mu_piecewise_constant, sz.mu_piecewise_linear):
        c.raises('several s', ValueError, sz.back_calc_drain_spacing_from_eta, eta, pat, f, rw, [s, s], k)
        c.raises('several kap', ValueError, sz.back_calc_drain_spacing_from_eta, eta, pat, f, rw, s, [k, k])
