"""C16: large-strain consolidation (Xie and Leo 2004)."""
import numpy as np
from scipy.special import erfc
from vh import group
from geotecha.consolidation import xieandleo2004 as xl
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

RULE = ('Random surcharge, compressibility, permeability, unit weights, depths, times and number of terms; every reported quantity compared with an'
        ' independent image (erfc) solution where enough terms are kept, and with exact identities (equilibrium, strain-stress law, '
        'integrated void ratio, volume conservation, Darcy law, half of a double-thickness problem).')
ASSUMPTIONS = ['depths and times are numpy arrays; initial void ratio stays positive over the layer.']


def terz(x, T):
    """Image solution, drained at x=0, closed at x=1."""
    x, T = np.asarray(x)[:, None], np.maximum(np.asarray(T), 1e-300)[None, :]
    s = np.ones(np.broadcast(x, T).shape)
    r = 2 * np.sqrt(T)
    for k in range(40):
        s = s - (-1) ** k * (erfc((2 * k + x) / r) + erfc((2 * k + 2 - x) / r))
    return s


def build(c, drn=None):
    mvl = c.logu(1e-4, 5e-2)
    d = dict(qu=c.logu(.02, 3) / mvl, qp=c.u(0, 50), H=c.logu(.5, 40), Hw=c.u(0, 5), kv0=c.logu(1e-10, 1e-2), mvl=mvl, e00=0., Gs=c.u(2.3, 3.), gamw=c.pick(10, 9.81, c.u(8, 11)))
    d['e00'] = c.u(.3, 2) + mvl * d['gamw'] * (d['Gs'] - 1) * d['H']
    n = c.pick(100, 100, c.i(3, 60), 300)
    d['drn'] = c.i(0, 1) if drn is None else drn
    d['nterms'] = n
    kw = dict(d)
    if n == 100:
        kw.pop('nterms')
    if d['gamw'] == 10 and c.coin():
        kw.pop('gamw')
    if d['drn'] == 0 and c.coin():
        kw.pop('drn')
    return xl.XieAndLeo2004(**kw), d


def grid(c, d, lo):
    cv = d['kv0'] / d['mvl'] / d['gamw']
    T = np.sort(c.logu(lo, 2, c.i(1, 5)))
    a = c.u(0, 1, c.i(1, 6))
    a[0] = c.pick(a[0], 0, 1)
    return a[np.argsort(c.u(0, 1, len(a)))] * d['H'], T[np.argsort(c.u(0, 1, len(T)))] * d['H'] ** 2 / cv, cv


M_ = dict(u='u', S='settlement', eff='effective_stress', tot='total_stress', p='total_pore_pressure', e='e', vs='vs', vw='vw', xi='xi')


@group('fields', quick=1500, thorough=30000)
def fields(c):
    o, d = build(c)
    pt = 'PTPB' if c.coin() else 'PTIB'
    two = pt == 'PTPB'
    n = d['nterms']
    lo = max(1e-4, 30 / (np.pi * n) ** 2) if n > 3 else .3
    a, t, cv = grid(c, d, lo)
    c.note(d=d, pt=pt, a=a, t=t)
    H, m, q = d['H'], d['mvl'], d['qu']
    T = cv * t / H ** 2
    x = a / H
    keep = a.copy(), t.copy()
    g = {k: c.call(v, getattr(o, v + '_' + pt), a, t) for k, v in M_.items()}
    for k, v in g.items():
        c.true('shape', np.shape(v) == (len(a), len(t)), (k, np.shape(v)))
    c.true('arguments unchanged', np.array_equal(a, keep[0]) and np.array_equal(t, keep[1]))
    W = terz(2 * x, 4 * T) if two else terz(x, T)
    E = np.exp(m * q)
    lost = 1 - 1 / E
    # series tail dropped by the package
    Mn = np.pi * (n + .5)
    tail = 3 * np.exp(-Mn ** 2 * T * (4 if two else 1)).max()
    tol = 1e-9 + tail
    e0 = d['e00'] - m * d['gamw'] * (d['Gs'] - 1) * a
    c.close('e0', c.call('e0', o.e0, a), e0, rtol=1e-12)
    ef = (1 + e0) / E - 1
    c.close('e final', c.call('efinal', o.efinal, a), ef, rtol=1e-10, scale=1)
    c.close('final settlement', c.call('settlement_final', o.settlement_final), H * lost, rtol=1e-12)
    c.close('Tv', o.Tv(t), T, rtol=1e-12)
    s0 = d['qp'] + np.log((1 + d['e00']) / (1 + e0)) / m
    c.close('initial stress', c.call('initial', o.initial_effective_stress, a), s0, rtol=1e-9)
    u = np.log1p((E - 1) * W) / m
    c.close('u', g['u'], u, rtol=tol * E, scale=q)
    c.close('e', g['e'], ef[:, None] + (e0 - ef)[:, None] * W, rtol=tol, scale=(1 + e0).max())
    # identities between reported quantities
    r = (1 + g['e']) / (1 + e0)[:, None]
    c.close('void ratio follows effective stress', r, np.exp(-m * (q - g['u'])), rtol=1e-9)
    c.close('effective stress', g['eff'], s0[:, None] + q - g['u'], rtol=1e-12)
    c.close('total = effective + pore', g['tot'], g['eff'] + g['p'], rtol=1e-12)
    c.close('coordinate', g['xi'], a[:, None] + g['S'], rtol=1e-12)
    c.close('pore pressure', g['p'], g['u'] + d['gamw'] * (d['Hw'] + g['xi']), rtol=1e-12)
    # settlement is the void ratio change below
    xg, wg = np.polynomial.legendre.leggauss(60)
    i = c.i(0, len(a) - 1)
    edges = np.unique(np.concatenate([[a[i]], a[i] + (H - a[i]) * np.linspace(0, 1, 5 + n // 12)]))
    if a[i] < H:
        h = np.diff(edges) / 2
        y = ((edges[:-1] + h)[:, None] + h[:, None] * xg).ravel()
        w = (h[:, None] * wg).ravel()
        st = 1 - (1 + getattr(o, 'e_' + pt)(y, t)) / (1 + o.e0(y))[:, None]
        # the settlement uses the exact sum of the uniform part
        slack = 2 / (np.pi ** 2 * n) * 2
        c.close('settlement', g['S'][i], (w[:, None] * st).sum(axis=0), rtol=1e-6 + tail, scale=H * lost)
    # velocities: conservation and Darcy
    A = np.array([0., H])
    vs, vw, ee = (getattr(o, k + pt)(A, t) for k in ('vs_', 'vw_', 'e_'))
    flux = ee / (1 + ee) * vw + vs / (1 + ee)
    c.close('bulk flow is the same at every depth', g['e'] / (1 + g['e']) * g['vw'] + g['vs'] / (1 + g['e']), np.broadcast_to(flux[1], g['e'].shape), rtol=1e-9, scale=np.abs(vs).max() + 1e-300)
    if two:
        c.close('drains equally top and bottom', (ee / (1 + ee) * (vw - vs))[0], -(ee / (1 + ee) * (vw - vs))[1], rtol=1e-9, scale=np.abs(vs).max() + 1e-300)
    else:
        c.close('closed bottom', flux[1], 0 * t, scale=np.abs(vs).max() + 1e-300, rtol=1e-9)
    f = 2 if two else 1
    k = np.arange(n)
    M = (k + .5) * np.pi
    Wx = np.array([[np.sum(2 * f / H * np.cos(f * M * p) * np.exp(-f * f * M * M * s)) for s in T] for p in x])
    kk = d['kv0'] * r ** 2
    n_ = g['e'] / (1 + g['e'])
    # W gradient -> pressure gradient in the convective coordinate
    grad = (E - 1) * Wx / (1 + (E - 1) * (W if tail < 1e-8 else np.expm1(m * g['u']) / (E - 1))) / m / r
    c.close('darcy', n_ * (g['vw'] - g['vs']), -kk / d['gamw'] * grad, rtol=1e-7 + tail * E, scale=np.abs(vs).max() + 1e-300)
    # solid velocity is the settlement rate
    dt = t * 1e-4
    S1 = getattr(o, 'settlement_' + pt)(a, t + dt)
    S0 = getattr(o, 'settlement_' + pt)(a, t - dt)
    sc = np.abs(vs).max(axis=0) + 1e-300
    c.close('settlement rate', g['vs'] / sc, (S1 - S0) / (2 * dt) / sc, rtol=1e-4, scale=1)
    # boundaries
    c.close('drained top', getattr(o, 'u_' + pt)(np.array([0.]), t), np.zeros((1, len(t))), scale=q, rtol=1e-12)
    if two:
        c.close('drained base', getattr(o, 'u_' + pt)(np.array([H]), t), np.zeros((1, len(t))), scale=q, rtol=1e-9)


@group('averages', quick=300, thorough=6000)
def averages(c):
    o, d = build(c)
    pt = 'PTPB' if c.coin() else 'PTIB'
    two = pt == 'PTPB'
    n = d['nterms']
    a, t, cv = grid(c, d, max(2e-3, 30 / (np.pi * n) ** 2) if n > 3 else .3)
    c.note(d=d, pt=pt, t=t)
    H, q, m = d['H'], d['qu'], d['mvl']
    T = cv * t / H ** 2 * (4 if two else 1)
    Us = c.call('Us', getattr(o, 'Us_' + pt), t)
    S = getattr(o, 'settlement_' + pt)(np.array([0.]), t)[0]
    c.close('Us is relative settlement', Us, S / o.settlement_final(), rtol=1e-10)
    M = (np.arange(n) + .5) * np.pi
    c.close('Us', Us, [1 - np.sum(2 / M ** 2 * np.exp(-M ** 2 * s)) for s in T], rtol=1e-10)
    Up = c.call('Up', getattr(o, 'Up_' + pt), t)
    x, w = np.polynomial.legendre.leggauss(100)
    e = np.array([0, .01, .05, .1, .2, .4, .6, .8, .9, .95, .99, 1]) * H
    h = np.diff(e) / 2
    y = ((e[:-1] + h)[:, None] + h[:, None] * x).ravel()
    u = getattr(o, 'u_' + pt)(y, t)
    c.close('Up', Up, 1 - ((h[:, None] * w).ravel()[:, None] * u).sum(axis=0) / H / q, rtol=1e-6, scale=1)
    c.true('pressures dissipate no faster than settlement', np.all(Up <= Us + 1e-6 + 2 / np.pi ** 2 / n))
    U = np.sort(c.u(.05, .98, 3))
    ti = c.call('t_from_Us', getattr(o, 't_from_Us_' + pt), U)
    if n >= 40:
        c.close('time for degree of consolidation', getattr(o, 'Us_' + pt)(ti), U, rtol=2e-3, atol=1e-4)
        # right up to the end of consolidation
        tt = np.sort(c.rng.uniform(.3, 8, 3)) / o.dTv / (4 if two else 1)
        Ut = getattr(o, 'Us_' + pt)(tt)
        k = (1 - Ut > 1e-8) & (Ut > .3)
        if k.any():
            c.close('time for nearly complete consolidation', c.call('t_from_Us', getattr(o, 't_from_Us_' + pt), Ut[k]) / tt[k], np.ones(k.sum()), rtol=0, atol=.03)
    # one-way drainage is half of a two-way problem of double thickness
    e0 = d['e00'] + 1
    k = dict(d, H=2 * H, e00=d['e00'] + m * d['gamw'] * 2 * H * 2)
    k1 = dict(k, H=H)
    o2, o1 = xl.XieAndLeo2004(**k), xl.XieAndLeo2004(**k1)
    c.close('half problem u', o1.u_PTIB(a, t), o2.u_PTPB(a, t), rtol=1e-9, scale=q)
    c.close('half problem e', o1.e_PTIB(a, t), o2.e_PTPB(a, t), rtol=1e-9)
    s2 = o2.settlement_PTPB(np.append(a, H), t)
    c.close('half problem S', o1.settlement_PTIB(a, t), s2[:-1] - s2[-1:], rtol=1e-9, scale=H)
    c.close('half problem v', o1.vs_PTIB(a, t), o2.vs_PTPB(a, t) - o2.vs_PTPB(np.array([H]), t), rtol=1e-9, scale=np.abs(o2.vs_PTPB(a, t)).max() + 1e-300)
    c.close('half problem U', o1.Us_PTIB(t), o2.Us_PTPB(t), rtol=1e-9)
    # a point asked for alone
    i, j = c.i(0, len(a) - 1), c.i(0, len(t) - 1)
    for nm in M_.values():
        f = getattr(o, nm + '_' + pt)
        c.close('alone', f(a[i:i + 1], t[j:j + 1])[0, 0], f(a, t)[i, j], rtol=1e-11, scale=np.abs(f(a, t)).max() + 1e-300)


@group('plots', quick=8, thorough=60)
def plots(c):
    o, d = build(c)
    cv = d['kv0'] / d['mvl'] / d['gamw']
    pt = 'PTIB' if d['drn'] == 1 else 'PTPB'
    given = c.coin()
    kw = {}
    if given:
        a, t, _ = grid(c, d, .02)
        kw = dict(a=np.sort(a), t=np.sort(t))
    c.note(d=d, given=given)
    plt.close('all')
    fig = c.call('plot_all', o.plot_all, **kw)
    ax = fig.get_axes()
    c.true('panels', len(ax) == 8, len(ax))
    if given:
        a, t = kw['a'], kw['t']
        xi = getattr(o, 'xi_' + pt)(a, t)
        for i, nm in zip(range(1, 8), ('u', 'total_pore_pressure', 'effective_stress', 'total_stress', 'vs', 'vw', 'e')):
            want = getattr(o, nm + '_' + pt)(a, t)
            L = ax[i].get_lines()
            c.true('lines', len(L) == len(t), (nm, len(L)))
            for k, l in enumerate(L):
                c.close('x ' + nm, l.get_xdata(), want[:, k], rtol=1e-12)
                c.close('y ' + nm, l.get_ydata(), xi[:, k], rtol=1e-12)
    L = ax[0].get_lines()
    Tq = L[0].get_xdata()
    c.close('Us curve', L[0].get_ydata(), getattr(o, 'Us_' + pt)(Tq / o.dTv), rtol=1e-9)
    c.close('Up curve', L[1].get_ydata(), getattr(o, 'Up_' + pt)(Tq / o.dTv), rtol=1e-6, atol=1e-9)
    plt.close('all')
