"""C20: void ratio - effective stress models."""
import numpy as np
import scipy.integrate
from scipy.optimize import brentq
from vh import group
from geotecha.constitutive_models.void_ratio_stress import (
    AvSoilModel, CcCrSoilModel, PwiseLinearSoilModel, FunctionSoilModel, YinAndGrahamSoilModel)

RULE = ('Random soils taken through random load, unload and reload histories: void ratio against an independent evaluation, stress recovered from void '
        'ratio, slope against the derivative of the curve on the branch in force. Creep model: random sequences of stress or void ratio increments (with holds, '
        'unloading, subdivided steps) against closed form integrals, root finding and an ODE solver; state of the model is read between steps.')
ASSUMPTIONS = ['Piecewise linear soils have strictly monotonic data which nowhere is flatter than Cr (as documented) and are used inside their data.',
               'At a corner of the curve either slope may be reported.',
               'Creep model: slope for a stress rate is asked for while loading; stress from void ratio is solved to a relative accuracy of 1e-3 (the tolerance in the code), '
               'so 3e-3 is allowed; steps so large that the solver gives up (RuntimeError) are skipped.',
               'Constant rate simulations by steps use the rate at the start of each step: rates are constant, or the time step fine.']
L10 = np.log(10.)


# ------------------------------------------------------------------ rate independent models
class Ref:
    """virgin curve y=V(x), recompression slope Cr, in (possibly log) scales"""

    def __init__(s, X, Y, Cr, xlog, ylog):
        s.X, s.Y, s.Cr = X, Y, Cr
        s.fx, s.gx = (np.log10, lambda v: 10. ** v) if xlog else (lambda v: v, lambda v: v)
        s.fy, s.gy = (np.log10, lambda v: 10. ** v) if ylog else (lambda v: v, lambda v: v)

    def e(s, sig, p):
        x, xp = s.fx(sig), s.fx(max(p, sig))
        j = min(max(np.searchsorted(s.X, xp) - 1, 0), len(s.X) - 2)
        v = s.Y[j] + (s.Y[j + 1] - s.Y[j]) / (s.X[j + 1] - s.X[j]) * (xp - s.X[j])
        return s.gy(v + s.Cr * (xp - x))


def soil(c):
    k = c.pick('av', 'cccr', 'pw', 'pw', 'pw')
    if k == 'av':
        av, siga, ea = c.logu(1e-5, 1e-2), c.u(0, 100), c.u(.5, 4)
        c.note(k=k, av=av, siga=siga, ea=ea)
        r = Ref(np.array([0., 1e6]), ea - av * (np.array([0., 1e6]) - siga), av, False, False)
        return k, AvSoilModel(av, siga, ea), r, 1., min(500., siga + .8 * ea / av), None
    if k == 'cccr':
        Cc, siga, ea = c.logu(.05, 4), c.u(1, 100), c.u(.5, 5)
        Cr = Cc * c.u(.02, .9)
        c.note(k=k, Cc=Cc, Cr=Cr, siga=siga, ea=ea)
        X = np.array([-4., 8.])
        r = Ref(X, ea - Cc * (X - np.log10(siga)), Cr, True, False)
        return k, CcCrSoilModel(Cc, Cr, siga, ea), r, 1., 500., None
    xlog, ylog = c.coin(), c.coin()
    n = c.i(2, 7)
    siga = np.sort(np.exp(c.u(np.log(1.), np.log(500), n)))
    siga = siga[0] * np.cumprod(np.r_[1, np.maximum(siga[1:] / siga[:-1], 1.05)])
    X = np.log10(siga) if xlog else siga
    Y = np.cumsum(c.u(.05, 1, n))[::-1]
    ytop = c.u(1, 5)
    ea = .2 + (ytop - .2) * (Y - Y[-1]) / (Y[0] - Y[-1])
    Yv = np.log10(ea) if ylog else ea
    Cr = np.min(-np.diff(Yv) / np.diff(X)) * c.u(.05, .95)
    rev = c.coin()
    d = slice(None, None, -1) if rev else slice(None)
    kind = c.pick(list, np.asarray)
    c.note(k=k, siga=siga[d], ea=ea[d], Cr=Cr, xlog=xlog, ylog=ylog)
    return k, PwiseLinearSoilModel(siga=kind(siga[d]), ea=kind(ea[d]), Cr=Cr, xlog=xlog, ylog=ylog), Ref(X, Yv, Cr, xlog, ylog), siga[0], siga[-1], siga


@group('load histories', quick=1500, thorough=20000, cpu=30)
def histories(c):
    k, m, r, lo, hi, knots = soil(c)
    n = 10
    sig = lo + (hi - lo) * c.u(.001, .999, n) ** c.pick(1, 3)
    if knots is not None and c.coin():
        sig[c.i(0, n - 1)] = knots[c.i(0, len(knots) - 1)]
    p0 = sig[0] * c.u(1, 3) if c.coin() else sig[0]
    p0 = min(p0, hi)
    p = np.maximum.accumulate(np.r_[p0, sig])[1:]          # greatest stress so far
    want = np.array([r.e(a, b) for a, b in zip(sig, p)])
    pk = {} if k == 'av' else dict(pstress=p)
    one = lambda i: {} if k == 'av' else dict(pstress=p[i])
    e = c.call('e_from_stress', m.e_from_stress, sig, **pk)
    c.close('void ratio', e, want, rtol=1e-10, scale=5.)
    i = c.i(0, n - 1)
    c.close('void ratio one by one', m.e_from_stress(sig[i].item(), **one(i)), want[i], rtol=1e-10, scale=5.)
    c.close('preconsolidation below the stress', m.e_from_stress(sig, pstress=sig * c.u(.1, 1)), m.e_from_stress(sig), rtol=1e-13, scale=5.)
    # preconsolidation just before and at each point give the same
    before = np.r_[p0, p[:-1]]
    kb = {} if k == 'av' else dict(pstress=before)
    c.close('path', m.e_from_stress(sig, **kb), want, rtol=1e-10, scale=5.)
    got = c.call('stress_from_e', m.stress_from_e, want, **kb)
    c.close('stress recovered', np.log(got), np.log(sig), rtol=0, atol=1e-6)
    c.close('stress recovered', np.log(m.stress_from_e(want[i].item(), **({} if k == 'av' else dict(pstress=before[i])))), np.log(sig[i]), rtol=0, atol=1e-6)
    virgin = np.array([r.e(a, a) for a in sig])
    c.close('virgin stress recovered', np.log(m.stress_from_e(virgin)), np.log(sig), rtol=0, atol=1e-6)
    # slope: derivative of the independent curve to either side
    h = 1e-6 * sig
    up = np.array([-(r.e(a + d, max(b, a + d)) - r.e(a, b)) / d for a, b, d in zip(sig, p, h)])
    dn = np.array([-(r.e(a, b) - r.e(a - d, b if b > a else a - d)) / d for a, b, d in zip(sig, p, h)])
    av = np.broadcast_to(c.call('av_from_stress', m.av_from_stress, sig, **pk), sig.shape)
    err = np.minimum(abs(av / up - 1), abs(av / dn - 1))
    c.true('slope on the branch in force', np.all(err < 1e-3), '%r got %r want %r or %r' % (sig, av, up, dn))
    c.close('slope one by one', np.ravel(m.av_from_stress(sig[i].item(), **one(i))), av[i:i + 1], rtol=1e-12)
    vav = np.broadcast_to(m.av_from_stress(sig), sig.shape)
    up = np.array([-(r.e(a + d, a + d) - r.e(a, a)) / d for a, d in zip(sig, h)])
    dn = np.array([-(r.e(a, a) - r.e(a - d, a - d)) / d for a, d in zip(sig, h)])
    c.true('virgin slope', np.all(np.minimum(abs(vav / up - 1), abs(vav / dn - 1)) < 1e-3), '%r got %r want %r or %r' % (sig, vav, up, dn))
    if knots is not None:
        s = np.array([knots[0], knots[1]])
        want = [(r.gy(r.Y[0]) - r.e(knots[0] * (1 + 1e-7), 0)) / (knots[0] * 1e-7)]
        c.close('slope at the first point', m.av_from_stress(s)[:1], want, rtol=1e-3)
        c.close('void ratio at the points', m.e_from_stress(knots), [r.gy(v) for v in r.Y], rtol=1e-10)
        c.close('stress at the points', m.stress_from_e(np.array([r.gy(v) for v in r.Y])), knots, rtol=1e-9)


@group('model curves', quick=200, thorough=3000, cpu=30)
def curves(c):
    k, m, r, lo, hi, knots = soil(c)
    kw = {}
    p = None
    if k != 'pw':
        kw.update(xmin=lo * c.u(1, 2), xmax=lo * c.u(5, 100))
    if k != 'av' and c.coin():
        p = kw['pstress'] = lo * c.u(1.5, 3) if k == 'cccr' and c.coin() else min(lo * c.logu(2.1, 200), hi)
    if c.coin():
        kw['npts'] = c.i(2, 60)
    c.note(kw=kw)
    x, y = c.call('e_and_stress_for_plotting', m.e_and_stress_for_plotting, **kw)
    x, y = np.asarray(x), np.asarray(y)
    want = [r.e(a, a if p is None else p) for a in x]
    c.close('curve', y, want, rtol=1e-9, scale=5.)
    c.true('number of points', len(x) == kw.get('npts', 100))
    if k == 'pw':
        c.close('range', [x[0], x[-1]], [lo, hi], rtol=1e-12)
    elif p is None:
        c.close('range', [x[0], x[-1]], [kw['xmin'], kw['xmax']], rtol=1e-12)
    elif k == 'cccr' and kw['xmin'] <= p <= kw['xmax']:
        c.true('corner is a point', np.any(x == p))


@group('function model', quick=40, thorough=400, cpu=30)
def functions(c):
    a, b = c.u(1, 3), c.u(.1, .5)
    m = FunctionSoilModel(lambda a, s, b=0, pstress=None: a - b * np.log(s), lambda a, e, b=0: np.exp((a - e) / b), lambda a, s, b=0: b / s, a, b=b)
    s = c.u(1, 50, 4)
    e = m.e_from_stress(s)
    c.close('e', e, a - b * np.log(s), rtol=1e-13)
    c.close('stress', m.stress_from_e(e), s, rtol=1e-10)
    c.close('av', m.av_from_stress(s), b / s, rtol=1e-13)
    c.raises('lengths differ', IndexError, PwiseLinearSoilModel, [1, 2, 3], [2, 1], .1)


# ------------------------------------------------------------------ creep
def creep(c, array=None):
    lam = c.logu(.03, .5)
    q = dict(lam=lam, kap=lam * c.u(.08, .5), psi=lam * c.u(.02, .12), siga=c.u(5, 60), ea=c.u(.8, 3), ta=c.pick(1., c.logu(.1, 50)))
    n = c.i(1, 4) if array is None else array
    s0 = c.u(10, 80, n)
    t0 = q['ta'] * np.exp(c.u(0, 8, n)) if c.coin(.8) else q['ta'] * np.exp(c.u(-1, 1, n))
    al = (lam - q['kap']) / q['psi']
    ocr = (t0 / q['ta']) ** (1 / al)
    p0 = s0 * ocr
    e0 = q['ea'] - lam * np.log(p0 / q['siga']) + q['kap'] * np.log(ocr)
    ic = dict(e0=e0, estress0=s0, pstress0=p0, t0=t0)
    names = sorted(ic)
    i = c.i(0, 3)
    j = (i + c.i(1, 3)) % 4
    scalar = n == 1 and c.coin()
    given = {names[v]: (ic[names[v]][0].item() if scalar else ic[names[v]].copy()) for v in (i, j)}
    c.note(q=q, given=given)
    m = c.call('initial conditions', YinAndGrahamSoilModel, **dict(q, **given))
    return m, q, ic, al, n, scalar


@group('creep initial conditions', quick=500, thorough=6000, cpu=30)
def initial(c):
    m, q, ic, al, n, scalar = creep(c)
    for k, v in ic.items():
        c.close('initial ' + k, np.log(np.ravel(getattr(m, k))) if k != 'e0' else np.ravel(m.e0), np.log(v) if k != 'e0' else v, rtol=0, atol=1e-6)
    # void ratio on the time line through the point, rate of the law
    rate = q['psi'] / q['ta'] * np.exp((ic['e0'] - q['ea']) / q['psi']) * (ic['estress0'] / q['siga']) ** (q['lam'] / q['psi'])
    c.close('creep rate', np.ravel(q['psi'] / m.t0), rate, rtol=1e-5, elem=True)
    if c.coin(.3):
        c.raises('three given', ValueError, YinAndGrahamSoilModel, **dict(q, e0=1., estress0=20., t0=5.))
        c.raises('one given', ValueError, YinAndGrahamSoilModel, **dict(q, e0=1.))
    # without time: reference and instant time lines
    m = YinAndGrahamSoilModel(**q)
    s, p = ic['estress0'], ic['pstress0']
    p = np.maximum(s, p)
    ref = CcCrSoilModel(q['lam'] * L10, q['kap'] * L10, q['siga'], q['ea'])
    c.close('no time', m.e_from_stress(s, pstress=p), ref.e_from_stress(s, pstress=p), rtol=1e-10)
    c.close('no time: state', m.pstress0, p, rtol=1e-12)
    c.close('no time, normally consolidated', m.e_from_stress(s), q['ea'] - q['lam'] * np.log(s / q['siga']), rtol=1e-10)
    c.close('no time: equivalent time', m.t0, np.full(n, q['ta']), rtol=1e-10)
    m = YinAndGrahamSoilModel(**q)
    e = q['ea'] - q['lam'] * np.log(s / q['siga'])
    c.close('stress on the reference time line', m.stress_from_e(e), s, rtol=1e-8)
    c.close('psi zero model', m._psi_zero_model.e_from_stress(s, pstress=p), ref.e_from_stress(s, pstress=p), rtol=1e-10)


def increment(a, b, s0, t0, dt, al):
    """integral over dt of (s/s0)**al/t0, s from a to b"""
    x, w = np.polynomial.legendre.leggauss(40)
    x = (x + 1) / 2
    return dt / t0 * (((a + (b - a) * x[:, None]) / s0) ** al * w[:, None]).sum(axis=0) / 2


@group('creep from stress', quick=700, thorough=8000, cpu=40)
def from_stress(c):
    m, q, ic, al, n, scalar = creep(c)
    s0, t0, e0 = ic['estress0'], ic['t0'], ic['e0']
    s, I = s0.copy(), np.zeros(n)
    e = e0
    out = []
    for step in range(c.i(1, 6)):
        kind = c.pick('load', 'load', 'hold', 'unload', 'small', 'mixed')
        f = {'load': 1 + c.u(.01, .5, n), 'hold': np.ones(n), 'unload': c.u(.6, .99, n), 'small': 1 + c.u(1e-5, 1e-3, n)}.get(kind)
        if f is None:
            f = np.where(c.rng.random(n) < .5, 1., c.u(.8, 1.3, n))
        if n > 1 and kind == 'load' and c.coin():
            f = f[0] * np.ones(n)
        b = s * f
        b = np.where(f == 1., s, b)
        dt = t0.min() * c.logu(1e-3, 1e3)
        sub = c.pick(1, 1, 2, 5)
        for i in range(sub):
            v = s + (b - s) * (i + 1) / sub
            v = np.where(b == s, s, v)
            r = c.call('e_from_stress', m.e_from_stress, v[0].item() if scalar else v.copy(), dt=dt / sub)
        I = I + increment(s, b, s0, t0, dt, al)
        s = b
        e = e0 - q['kap'] * np.log(s / s0) - q['psi'] * np.log1p(I)
        c.close('void ratio', np.ravel(r), e, rtol=0, atol=1e-7)
        c.close('state: integral', np.log1p(np.ravel(m._igral)), np.log1p(I), rtol=0, atol=1e-5)
        c.close('state: stress', np.ravel(m._estress), s, rtol=1e-13)
        out.append((r, np.copy(r)))
        # slopes
        c.close('slope without time', np.ravel(m.av_from_stress(s)), q['kap'] / s, rtol=1e-12)
        sd = c.logu(1e-3, 1e3) * s.min() / t0.min()
        rate = q['psi'] / q['ta'] * np.exp((e - q['ea']) / q['psi']) * (s / q['siga']) ** (q['lam'] / q['psi'])
        c.close('slope while loading', np.ravel(m.av_from_stress(s, estressdot=sd)), q['kap'] / s + rate / sd, rtol=1e-4, elem=True)
    for r, was in out:
        c.close('results stay', r, was, rtol=0)
    m._reset_to_initial_conditions()
    b = s0 * 1.1
    dt = t0.min()
    r = m.e_from_stress(b[0].item() if scalar else b, dt=dt)
    c.close('after reset', np.ravel(r), e0 - q['kap'] * np.log(1.1) - q['psi'] * np.log1p(increment(s0, b, s0, t0, dt, al)), rtol=0, atol=1e-7)


@group('creep from void ratio', quick=600, thorough=8000, cpu=40)
def from_e(c):
    m, q, ic, al, n, scalar = creep(c)
    s0, t0, e0 = ic['estress0'], ic['t0'], ic['e0']
    s, I, e = s0.copy(), np.zeros(n), e0.copy()
    outs = []
    for step in range(c.i(1, 5)):
        dt = t0.min() * c.logu(1e-2, 100)
        kind = c.pick('compress', 'compress', 'hold', 'swell')
        de = {'compress': -q['kap'] * np.exp(c.u(-5, 0, n)), 'hold': np.zeros(n), 'swell': q['kap'] * np.exp(c.u(-5, -1, n))}[kind]
        e = e + de
        try:
            r = m.stress_from_e(e[0].item() if scalar else e.copy(), dt=dt)
        except RuntimeError:
            return
        outs.append((r, np.copy(r)))
        want = []
        for i in range(n):
            def f(x):
                return e0[i] - q['kap'] * np.log(x / s0[i]) - q['psi'] * np.log1p(I[i] + increment(s[i], x, s0[i], t0[i], dt, al)[0]) - e[i]
            lo, hi = s[i] * .99, s[i] * 1.01
            while f(lo) < 0:
                lo *= .8
            while f(hi) > 0:
                hi *= 1.25
            want.append(brentq(f, lo, hi, xtol=1e-12 * s[i]))
        want = np.array(want)
        c.close('stress', np.log(np.ravel(r)), np.log(want), rtol=0, atol=3e-3 * (1 + step))
        got = np.ravel(r)
        c.close('state: stress', np.ravel(m._estress), got, rtol=0)
        # the state must be the one of the returned stress (the law holds for it up to the tolerance of the solution)
        I2 = np.ravel(m._igral)
        c.close('law', e0 - q['kap'] * np.log(got / s0) - q['psi'] * np.log1p(I2), e, rtol=0, atol=1e-8)
        I = I2.copy()
        s = got.copy()
    for r, was in outs:
        c.close('results stay', r, was, rtol=0)


def rates(c, t0, n):
    """piecewise constant rate: times and values with a short ramp between"""
    T = t0 * c.logu(.1, 30)
    if n == 1:
        return np.array([0, T]), np.ones(2)
    b = T * c.u(.2, .8)
    f = c.logu(.05, 5)
    return np.array([0, b, b + T * 1e-4, T]), np.array([1, 1, f, f])


@group('constant rate', quick=60, thorough=1200, cpu=60)
def constant(c):
    m, q, ic, al, n, scalar = creep(c, array=1)
    s0, t0, e0 = ic['estress0'][0], ic['t0'][0], ic['e0'][0]
    which = c.pick('CRSN', 'CRSS')
    tt, v = rates(c, t0, c.i(1, 2))
    V = np.r_[0, np.cumsum((v[1:] + v[:-1]) / 2 * np.diff(tt))]
    if which == 'CRSN':
        v = -v / V[-1] * min(c.u(.5, 4) * q['kap'], .4 * e0)
    else:
        v = v / V[-1] * s0 * c.u(.2, 3)
    V = np.r_[0, np.cumsum((v[1:] + v[:-1]) / 2 * np.diff(tt))]
    if c.coin(.3):            # the simulation starts at the initial conditions whatever happened before
        m.e_from_stress(s0 * 1.2, dt=t0)
    was = (np.copy(m._igral), np.copy(m._estress))
    fn = getattr(m, which)
    seg = 200
    kw = {} if c.coin() else dict(dx=tt[-1] / seg, min_segments=40)
    c.note(which=which, tt=tt, v=v, kw=kw)
    t00 = 0 if c.coin() else c.u(-2, 3) * tt[-1]       # only time differences matter
    c.note(t00=t00)
    fn0 = fn

    def fn(x, y, **k):
        r = fn0(x + t00, y, **k)
        return (r[0] - t00,) + tuple(r[1:])
    try:
        t, s, e, vd = fn(tt, v, **kw)
    except RuntimeError:
        return
    c.close('state kept', np.r_[np.ravel(m._igral), np.ravel(m._estress)], np.r_[np.ravel(was[0]), np.ravel(was[1])], rtol=0)
    again = fn(tt, v, **dict(kw))
    for a, b in zip((t, s, e, vd), again):
        c.close('repeated', a, b, rtol=0)

    def value(x):
        j = min(max(int(np.searchsorted(tt, x)) - 1, 0), len(tt) - 2)
        d = x - tt[j]
        return V[j] + v[j] * d + (v[j + 1] - v[j]) / (tt[j + 1] - tt[j]) * d * d / 2

    def law(e, s):
        return q['psi'] / q['ta'] * np.exp((e - q['ea']) / q['psi']) * (s / q['siga']) ** (q['lam'] / q['psi'])
    driven = np.array([value(x) for x in t])
    c.close('rate', vd, np.interp(t, tt, v), rtol=1e-10)
    if which == 'CRSN':
        f = lambda x, y: [-(np.interp(x, tt, v) + law(e0 + value(x), np.exp(y[0]))) / q['kap']]
        y0 = np.log(s0)
    else:
        f = lambda x, y: [-q['kap'] * np.interp(x, tt, v) / (s0 + value(x)) - law(y[0], s0 + value(x))]
        y0 = e0
    ref = np.full(len(t), np.nan)
    ref[0] = y0
    y = y0
    for j in range(len(tt) - 1):
        k = np.where((t > tt[j] * (1 + 1e-12)) & (t <= tt[j + 1] * (1 + 1e-12)))[0]
        k = k[k > 0]
        te = np.minimum(t[k], tt[j + 1] * (1 - 1e-12))
        r = scipy.integrate.solve_ivp(f, (tt[j], tt[j + 1]), [y], method='LSODA', rtol=1e-8, atol=1e-10, t_eval=np.append(te, tt[j + 1]))
        ref[k] = r.y[0][:-1]
        y = r.y[0][-1]
    got_driven, got = (e - e0, np.log(s)) if which == 'CRSN' else (s - s0, e)
    c.close('prescribed path', got_driven, driven, rtol=1e-3, scale=abs(V[-1]))
    if which == 'CRSN':
        c.close('stress against the rate law', got, ref, rtol=0, atol=.03)
        c.close('stress against the rate law (most)', np.median(abs(got - ref)), 0, rtol=0, atol=.01)
    else:
        c.close('void ratio against the rate law', got, ref, rtol=0, atol=.003 * q['lam'] + 2e-3 * abs(ref[-1] - e0))
    if c.coin(.5):
        t2, s2, e2, _ = fn(tt, v, method='odeint', **dict(kw))
        got = np.log(s2) if which == 'CRSN' else e2
        c.close('odeint', got, ref, rtol=0, atol=1e-4 if which == 'CRSN' else 1e-5)
        c.close('odeint path', e2 - e0 if which == 'CRSN' else s2 - s0, driven, rtol=1e-8, scale=abs(V[-1]))
