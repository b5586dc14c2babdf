"""C14: smear-zone drain resistance factors against numerical radial flow integrals."""
import numpy as np
from vh import group
import smearref as R
import geotecha.consolidation.smear_zones as sz

RULE = ('Random spacing ratios, smear extents, permeability contrasts and profiles (including coincident radii, equal, nearly equal and'
        ' limiting values, scalars/lists/arrays); factor compared with Gauss-Legendre integration of radial flow through the profile;'
        ' permeability functions compared with their definitions; equivalent descriptions compared with each other.')
ASSUMPTIONS = ['Parabolic smear zones have a permeability ratio of at least one.',
               'Within relative 1e-5 of the special cases s=1, kap=1, s=kap the package substitutes the special case; tolerance is widened there.']


def val(x):
    return float(np.ravel(x)[0])


def draw(c, model):
    """One admissible (n, s, kap) and the tolerance it deserves."""
    n = c.pick(c.u(1.05, 4), c.u(2, 40), c.logu(2, 500))
    if model == 'overlapping':
        s = c.pick(1 + (n - 1) * c.u(0, 1), n * c.u(1, 2.5), 2 * n - 1, n)
        s = max(1., s)
    else:
        s = c.pick(1., n, 1 + (n - 1) * c.u(.01, 1), 1 + (n - 1) * c.u(.01, 1), 1 + (n - 1) * c.u(.01, 1), 1 + (n - 1) * c.logu(1e-3, 1))
    k = c.pick(1., s, c.u(1, 6), c.logu(1, 50), c.logu(.05, 1) if model != 'parabolic' else c.u(1, 3))
    near = c.coin(.08)
    if near:
        k *= 1 + c.pick(-1, 1) * c.logu(1e-9, 5e-6)
        if model == 'parabolic':
            k = max(k, 1.)
    elif c.coin(.1):
        k = 1 + c.logu(3e-5, .5) * c.pick(1, 1 if model == 'parabolic' else -1)
    tol = 3e-5 if near or 0 < s - 1 < 2e-5 or 0 < abs(k / s - 1) < 2e-5 or 0 < abs(k - 1) < 2e-5 else 1e-8
    if n < 1.5:
        tol = max(tol, 1e-6)
    if model == 'overlapping' and s > n and abs((k - 1) / (s - 1) * (2 * n - s - 1)) < 2e-5:
        tol = 3e-5
    return n, s, k, tol


def shapes(c, m):
    return c.pick(lambda q: np.array(q), list, tuple)(m)


MU = dict(constant=(sz.mu_constant, R.constant), linear=(sz.mu_linear, R.linear),
          parabolic=(sz.mu_parabolic, R.parabolic), overlapping=(sz.mu_overlapping_linear, R.overlapping))


@group('ideal', quick=200, thorough=4000)
def ideal(c):
    m = c.i(1, 5)
    n = np.array([c.pick(c.u(1.02, 4), c.logu(1.1, 1000)) for _ in range(m)])
    c.note(n=n)
    a = shapes(c, list(n)) if m > 1 else c.pick(float(n[0]), n, [n[0]])
    r = c.call('mu_ideal', sz.mu_ideal, a)
    c.close('value', np.ravel(r), [R.mu(R.ideal(q)) for q in n], rtol=1e-8)
    r = c.call('extra', sz.mu_ideal, a, 3, 4)
    c.close('extra args ignored', np.ravel(r), [R.mu(R.ideal(q)) for q in n], rtol=1e-8)
    # large spacing limit
    c.close('known value', val(sz.mu_ideal(1e6)), np.log(1e6) - .75, rtol=1e-9)


def closed(model):
    def f(c):
        fn, prof = MU[model]
        m = c.pick(1, 1, 2, 5)
        P = [draw(c, model) for _ in range(m)]
        n, s, k, tol = map(np.array, zip(*P))
        c.note(n=n, s=s, kap=k)
        want = np.array([R.mu(prof(*p[:3])) for p in P])
        a = [shapes(c, list(q)) for q in (n, s, k)] if m > 1 else c.pick([float(q[0]) for q in (n, s, k)], [n, s, k])
        before = [np.array(q, copy=True) for q in a]
        got = c.call('mu', fn, *a)
        c.true('size', np.size(got) == m, np.shape(got))
        for g, w, t, q in zip(np.ravel(got), want, tol, P):
            c.close('value', g, w, rtol=t, atol=1e-12)
        c.true('arguments unchanged', all(np.array_equal(x, y) for x, y in zip(before, a)))
        # integer valued arguments of integer type
        if c.coin(.3):
            ni = c.i(3, 40)
            si = c.i(1, ni) if model != 'overlapping' else c.i(1, 2 * ni)
            ki = c.i(1, 7)
            c.note(ni=ni, si=si, ki=ki)
            if model == 'overlapping' and (2 * ni - si < 1 or ki == 1):
                ki = 2
            c.close('integers', val(c.call('mu', fn, ni, si, ki)), R.mu(prof(float(ni), float(si), float(ki))), rtol=1e-8, atol=1e-12)
        if c.coin(.2):
            # equivalent descriptions
            q = draw(c, model)
            n0, s0, k0, t0 = q
            w = val(c.call('mu', fn, n0, s0, k0))
            c.note(q=q)
            if model == 'constant':
                g = sz.mu_piecewise_constant([s0, n0], [k0, 1.]) if 1 < s0 < n0 else w
                c.close('piecewise', g, w, rtol=1e-8)
            elif model == 'linear' and s0 > 1:
                g = sz.mu_piecewise_linear([1, s0, n0], [k0, 1., 1.])
                c.close('piecewise', g, w, rtol=max(t0, 1e-8))
            elif model == 'parabolic' and 1 < s0 < 10 and k0 < 5:
                e = np.linspace(1, s0, 61)
                kk = R.par(s0, k0)(e)
                g = sz.mu_piecewise_constant(e[1:], R.par(s0, k0)((e[1:] + e[:-1]) / 2), n=n0 if n0 > s0 else None, kap_m=1. if n0 > s0 else None)
                c.close('finely divided', g, w, rtol=5e-3 * k0, atol=1e-6)
                g = sz.mu_piecewise_linear(e, kk, n=n0 if n0 > s0 else None, kap_m=1. if n0 > s0 else None)
                c.close('finely divided linear', g, w, rtol=5e-3 * k0, atol=1e-6)
            elif model == 'overlapping' and s0 <= n0:
                c.close('no overlap', val(sz.mu_linear(n0, s0, k0)), w, rtol=1e-12)
    f.__name__ = model
    return f


for _m in MU:
    group(_m, quick=700, thorough=15000)(closed(_m))


@group('pwconst', quick=600, thorough=12000)
def pwconst(c):
    m = c.i(1, 7)
    s = 1 + np.cumsum(c.logu(1e-2, 8, m))
    k = c.logu(.1, 20, m)
    if c.coin(.3):
        k[c.i(0, m - 1)] = 1.
    c.note(s=s, k=k)
    want = R.mu(R.pwconst(s, k))
    a = shapes(c, list(s)), shapes(c, list(k))
    c.close('value', c.call('mu', sz.mu_piecewise_constant, *a), want, rtol=1e-9)
    n = s[-1] * c.u(1.01, 5)
    km = c.pick(None, 1., c.logu(.2, 5))
    w2 = R.mu(R.pwconst(np.append(s, n), np.append(k, k[-1] if km is None else km)))
    c.close('appended', c.call('mu', sz.mu_piecewise_constant, *a, n=n, kap_m=km), w2, rtol=1e-9)
    i = c.i(0, m - 1)
    lo = s[i - 1] if i else 1.
    s2 = np.insert(s, i, lo + (s[i] - lo) * c.u(.05, .95))
    k2 = np.insert(k, i, k[i])
    c.close('split', c.call('mu', sz.mu_piecewise_constant, s2, k2), want, rtol=1e-9)


def drawlin(c):
    m = c.i(2, 7)
    s = np.append(1., 1 + np.cumsum(c.logu(1e-1, 8, m - 1)))
    k = c.logu(.2, 10, m)
    for i in range(1, m):
        w = c.i(0, 6)
        if w == 0:
            k[i] = k[i - 1]
        elif w == 1 and .05 < k[i - 1] * s[i - 1] / s[i] < 20:
            k[i] = k[i - 1] * s[i - 1] / s[i]
        elif w == 2:
            k[i] = k[i - 1] * (1 + c.logu(3e-5, .5) * c.pick(1, -1))
    if c.coin(.3):
        i = c.i(0, m - 1)
        s = np.insert(s, i, s[i])
        k = np.insert(k, i, c.logu(.2, 10))
    return s, k


@group('pwlin', quick=600, thorough=12000)
def pwlin(c):
    s, k = drawlin(c)
    if s[-1] == s[0]:
        s[-1] += 1
    c.note(s=s, k=k)
    want = R.mu(R.pwlin(s, k))
    a = shapes(c, list(s)), shapes(c, list(k))
    c.close('value', c.call('mu', sz.mu_piecewise_linear, *a), want, rtol=1e-7)
    n = s[-1] + c.u(.3, 8)
    km = c.pick(None, k[-1], 2 * k[-1] * (1 + n - s[-1]))
    w2 = R.mu(R.pwlin(np.append(s, n), np.append(k, k[-1] if km is None else km)))
    c.close('appended', c.call('mu', sz.mu_piecewise_linear, *a, n=n, kap_m=km), w2, rtol=1e-7)


@group('well', quick=200, thorough=4000)
def well(c):
    kh, qw, n, H = c.logu(1e-3, 1e2), c.logu(1e-2, 1e3), c.logu(1.1, 100), c.logu(.5, 50)
    z = np.sort(c.u(0, 1, 4)) * H
    c.note(kh=kh, qw=qw, n=n, H=H, z=z)
    w = kh / qw * np.pi * (1 - 1 / n ** 2)
    c.close('at depth', c.call('z', sz.mu_well_resistance, kh, qw, n, H, z), w * z * (2 * H - z), rtol=1e-12)
    c.close('scalar', c.call('z', sz.mu_well_resistance, kh, qw, n, H, float(z[0])), w * z[0] * (2 * H - z[0]), rtol=1e-12)
    x, wt = R.nodes(1., 2.)
    av = np.sum(wt * sz.mu_well_resistance(kh, qw, n, H, (x - 1) * H))
    c.close('average', c.call('avg', sz.mu_well_resistance, kh, qw, n, H), av, rtol=1e-10)
    c.close('top', sz.mu_well_resistance(kh, qw, n, H, 0), 0)


@group('k', quick=500, thorough=10000)
def kfun(c):
    model = c.pick('linear', 'parabolic', 'overlapping')
    n, s, k, tol = draw(c, model)
    fn = dict(linear=sz.k_linear, parabolic=sz.k_parabolic, overlapping=sz.k_overlapping_linear)[model]
    prof = MU[model][1](n, s, k)
    r = 1 + (n - 1) * c.u(0, 1, c.i(1, 8))
    r = np.append(r, [x for x in (1., n, s, (1 + s) / 2) if x <= n and c.coin()])
    r = r[np.argsort(c.u(0, 1, len(r)))]
    c.note(model=model, n=n, s=s, k=k, r=r)
    want = R.kprof(prof, r)
    got = c.call('k', fn, n, s, k, shapes(c, list(r)))
    c.close('profile', got, want, rtol=max(tol, 1e-9))
    c.close('scalar radius', np.ravel(fn(n, s, k, float(r[0]))), want[:1], rtol=max(tol, 1e-9))
    if not (s <= 1 or abs(k - 1) < 2e-5):
        c.close('at the drain', np.ravel(fn(n, s, k, 1.)), [1 / k], rtol=max(tol, 1e-9))


@group('rejects', quick=150, thorough=2000)
def rejects(c):
    n, s, k = c.u(5, 20), c.u(1.5, 4), c.u(1.5, 4)
    bad = c.pick((c.u(.1, 1), s, k), (1., s, k), (n, c.u(.1, .99), k), (n, s, 0.), (n, s, -c.u(0, 3)))
    c.note(bad=bad)
    for m, (fn, _) in MU.items():
        c.raises('mu ' + m, ValueError, fn, *bad)
        if m != 'overlapping':
            c.raises('s>n ' + m, ValueError, fn, n, n * c.u(1.01, 2), k)
        if m != 'constant':
            c.raises('shape ' + m, ValueError, fn, [n, n], [s], [k])
    for fn in (sz.k_linear, sz.k_parabolic, sz.k_overlapping_linear):
        c.raises('k', ValueError, fn, *bad, [1.1])
        c.raises('radius inside drain', ValueError, fn, n, s, k, [1.1, c.u(.1, .99)])
        c.raises('radius outside', ValueError, fn, n, s, k, [1.1, n * c.u(1.001, 3)])
    c.raises('ideal', ValueError, sz.mu_ideal, c.u(.1, 1))
    c.raises('well', ValueError, sz.mu_well_resistance, 1, 1, c.u(.1, 1), 1)
    S, K = np.array([2, 3, 5.]), np.array([3, 2, 1.])
    for fn, T in ((sz.mu_piecewise_constant, S), (sz.mu_piecewise_linear, np.array([1, 3, 5.]))):
        c.raises('length', ValueError, fn, T, K[:2])
        c.raises('order', ValueError, fn, T[[0, 2, 1]], K)
        c.raises('kap', ValueError, fn, T, K * [1, -1, 1])
        c.raises('s<1', ValueError, fn, T * .1, K)
    c.raises('first s', ValueError, sz.mu_piecewise_linear, S, K)
