"""C21: permeability - void ratio models, flow laws, soil water characteristic curves."""
import numpy as np
import scipy.integrate
from vh import group
from geotecha.constitutive_models.void_ratio_permeability import (
    CkPermeabilityModel, ConstantPermeabilityModel, PwiseLinearPermeabilityModel, FunctionPermeabilityModel)
from geotecha.constitutive_models.velocity_hydraulic_gradient import DarcyFlowModel, HansboNonDarcianFlowModel
from geotecha.constitutive_models import swcc
from geotecha.consolidation.smear_zones import non_darcy_drain_eta

RULE = ('Random parameters; every model function is compared with an independent formula, composed with its inverse, differentiated numerically and '
        'scanned for monotonicity, symmetry, continuity and bounds, with scalar and array arguments; Hansbo models are built from every '
        'documented triple of parameters, including the triples which reduce to Darcy flow.')
ASSUMPTIONS = ['dv_di carries the sign of the hydraulic gradient (the doctests document it); its magnitude is compared with the derivative.',
               'Hansbo triples (kstar, iL, klinear) and (kstar, i0, klinear) with iL or i0 below 1 can have two solutions or none: any consistent model or an exception is accepted.',
               'Piecewise linear permeability models are used inside their data and with strictly monotonic data.',
               'Pham & Fredlund curves: suction of at least 1 and below the suction at which the line ws-s1*log10(psi) meets wr.',
               'Relative permeability by the 500 point midpoint rule agrees with quadrature to the accuracy of that rule.']


def args(c, a):
    """Vary the kind of argument: array, 2d array, single value"""
    k = c.i(0, 3)
    if k == 0:
        return a[c.i(0, len(a) - 1)].item()
    if k == 1:
        return a[:len(a) // 2 * 2].reshape(2, -1)
    if k == 2:
        return a[:1]
    return a


def monotonic(c, n, lo, hi):
    g = np.cumsum(np.r_[0, c.u(.1, 1., n - 1)])
    return lo + (hi - lo) * g / g[-1]


# ------------------------------------------------------------------ permeability
@group('permeability', quick=1500, thorough=20000, cpu=30)
def permeability(c):
    k = c.pick('ck', 'const', 'pw', 'pw', 'pw', 'fn')
    if k == 'ck':
        Ck, ka, ea = c.logu(.05, 5), c.logu(1e-12, 1e2), c.u(.2, 6)
        c.note(k=k, Ck=Ck, ka=ka, ea=ea)
        m = CkPermeabilityModel(Ck, ka, ea)
        e = args(c, c.u(.1, 8, 8))
        kk = c.call('k_from_e', m.k_from_e, e)
        c.close('ck k from e', np.log(kk), np.log(ka) + (np.asarray(e) - ea) / Ck * np.log(10), rtol=1e-10, scale=1. + abs(np.log(ka)) + 8 / Ck)
        c.close('ck e recovered', m.e_from_k(kk), e, rtol=1e-9, scale=8 + Ck * 10)
        c.close('ck anchor', [m.k_from_e(ea), m.k_from_e(ea + Ck)], [ka, 10 * ka], rtol=1e-12, elem=True)
        x, y = m.e_and_k_for_plotting(npts=c.i(2, 30), xmin=ka, xmax=ka * c.u(1.5, 100))
        c.close('ck plot', m.k_from_e(y), x, rtol=1e-8, elem=True)
    elif k == 'const':
        ka = c.logu(1e-12, 1e2)
        c.note(k=k, ka=ka)
        m = ConstantPermeabilityModel(ka)
        e = args(c, c.u(.1, 8, 8))
        if c.coin(.3):
            e = np.asarray(np.ceil(e), dtype=int)
        c.close('const k', m.k_from_e(e), np.full(np.shape(e), ka), rtol=1e-14)
        c.raises('const e', ValueError, m.e_from_k, ka)
    elif k == 'pw':
        n = c.i(2, 7)
        xlog, ylog = c.coin(), c.coin()
        lx = monotonic(c, n, *sorted(c.u(-10, 2, 2)))
        ly = monotonic(c, n, *sorted(c.u(-.6, .9, 2)))
        ka, ea = 10 ** lx, 10 ** ly
        sgn = c.pick((1, 1), (1, 1), (-1, -1), (1, -1), (-1, 1))
        ka, ea = ka[::sgn[0]], ea[::sgn[1]]
        kind = c.pick(list, np.asarray)
        c.note(k=k, ka=ka, ea=ea, xlog=xlog, ylog=ylog)
        m = PwiseLinearPermeabilityModel(kind(ka), kind(ea), xlog=xlog, ylog=ylog)
        X, Y = (np.log(ka) if xlog else ka), (np.log(ea) if ylog else ea)
        j = c.rng.integers(0, n - 1, 8)
        th = c.u(0, 1, 8)
        th[0] = 0
        th[1] = 1
        x, y = X[j] + th * (X[j + 1] - X[j]), Y[j] + th * (Y[j + 1] - Y[j])
        kk, e = (np.exp(x) if xlog else x), (np.exp(y) if ylog else y)
        sc = 1e-6 if (xlog, ylog) == (False, False) else 1e-6
        s = c.i(0, 7)
        if c.coin(.3):
            kk, e = kk[s].item(), e[s].item()
        flat = not xlog                            # a linear axis spanning decades: compare on the scale of its largest value
        c.close('pw e from k', m.e_from_k(kk), e, rtol=sc, scale=np.max(ea))
        got = m.k_from_e(e)
        if flat:
            c.close('pw k from e', got, kk, rtol=sc, scale=np.max(ka))
        else:
            c.close('pw k from e', np.log(got), np.log(kk), rtol=sc, scale=1 + np.ptp(np.log(ka)))
        c.close('pw knots', m.e_from_k(ka), ea, rtol=1e-10, elem=True)
        c.close('pw knots', m.k_from_e(ea), ka, rtol=1e-9, elem=True)
        x, y = m.e_and_k_for_plotting(npts=c.i(2, 30))
        c.close('pw plot', y, m.e_from_k(x), rtol=1e-12)
        c.close('pw plot', [x[0], x[-1]], [min(ka), max(ka)], rtol=1e-12, elem=True)
    else:
        p, q = c.u(1, 3), c.u(.1, 2)
        c.note(k=k, p=p, q=q)
        m = FunctionPermeabilityModel(lambda a, b, kk, off=0: (kk / a) ** (1 / b) + off, lambda a, b, e, off=0: a * (e - off) ** b, q, p, off=.25)
        # fixed arguments go first, the variable last
        e = c.u(.5, 3, 5)
        kk = m.k_from_e(e)
        c.close('fn k', kk, q * (e - .25) ** p, rtol=1e-13)
        c.close('fn e', m.e_from_k(kk), e, rtol=1e-12)


# ------------------------------------------------------------------ flow laws
TRIPLES = [('kstar', 'n', 'iL'), ('kstar', 'n', 'i0'), ('kstar', 'n', 'klinear'), ('kstar', 'iL', 'i0'), ('kstar', 'iL', 'klinear'),
           ('kstar', 'i0', 'klinear'), ('n', 'iL', 'klinear'), ('n', 'i0', 'klinear'), ('iL', 'i0', 'klinear')]


@group('flow laws', quick=1500, thorough=20000, cpu=30)
def flow(c):
    kstar, n, iL = c.logu(1e-8, 10), c.u(1.01, 4), c.logu(.01, 100)
    kind = c.pick('hansbo', 'hansbo', 'hansbo', 'hansbo', 'darcy', 'reduced')
    q = dict(kstar=kstar, n=n, iL=iL, i0=iL * (n - 1) / n, klinear=kstar * n * iL ** (n - 1))
    trip = TRIPLES[c.i(0, 8)]
    loose = kind == 'hansbo' and (trip == ('kstar', 'iL', 'klinear') and iL < 1 or trip == ('kstar', 'i0', 'klinear') and q['i0'] < 1.02)
    if kind == 'darcy':
        c.note(kind=kind, k=kstar)
        m = DarcyFlowModel(k=kstar) if c.coin() else DarcyFlowModel(kstar)
        q = dict(kstar=kstar, klinear=kstar, n=1, iL=0, i0=0)
    elif kind == 'reduced':
        q = dict(kstar=kstar, n=1, iL=0, i0=0, klinear=kstar)
        kw = {k: q[k] for k in trip}
        if 'n' in kw and 'iL' in kw and c.coin():        # either condition alone reduces
            kw[c.pick('n', 'iL')] = c.u(1.1, 3)
        elif 'n' in kw and 'i0' in kw and c.coin():
            kw[c.pick('n', 'i0')] = c.u(1.1, 3)
        elif trip == ('kstar', 'n', 'klinear') and c.coin():
            kw['kstar'] = kstar
        c.note(kind=kind, kw=kw)
        m = c.call('reduced model', HansboNonDarcianFlowModel, **kw)
    else:
        kw = {k: q[k] for k in trip}
        c.note(kind=kind, kw=kw)
        if loose:
            try:
                m = HansboNonDarcianFlowModel(**kw)
            except RuntimeError:
                c.true('no unique model: refused', True)
                return
            q = {k: getattr(m, k) for k in q}
            c.close('given parameters kept', [q[k] for k in trip], [kw[k] for k in trip], rtol=1e-12, elem=True)
            c.true('n>=1', q['n'] >= 1)
            n, iL, kstar = q['n'], q['iL'], q['kstar']
            if n - 1 < 1e-3:
                return
            c.close('consistent model', [q['klinear'] / (kstar * n * iL ** (n - 1)), q['i0'] * n / (iL * (n - 1))], [1, 1], rtol=1e-4)
            q['klinear'], q['i0'] = kstar * n * iL ** (n - 1), iL * (n - 1) / n
        else:
            m = c.call('model', HansboNonDarcianFlowModel, **kw)
    tol = 1e-4 if loose or trip[0] == 'kstar' and trip[2] == 'klinear' and trip[1] != 'n' else 1e-9
    ks = list(q) if kind != 'darcy' else []
    c.close('parameters', [getattr(m, k) for k in ks], [q[k] for k in ks], rtol=tol, elem=True, atol=1e-13)
    if kind == 'hansbo':
        c.close('threshold velocity', m.vL, q['klinear'] * (q['iL'] - q['i0']), rtol=10 * tol)
    n, iL, i0, kstar, kl = q['n'], q['iL'], q['i0'], q['kstar'], q['klinear']

    def v(i):
        a = np.abs(i)
        return np.sign(i) * np.where(a < iL, kstar * a ** n, kl * (a - i0))
    base = iL if iL else 1.
    i = np.r_[base * np.exp(c.u(-4, 3, 10)), base]
    i = i * c.rng.choice([-1., 1.], i.shape)
    i = args(c, i)
    vi = np.asarray(c.call('v_from_i', m.v_from_i, i))
    c.close('velocity', vi, v(i), rtol=max(1e-9, tol), elem=True)
    c.close('odd', m.v_from_i(-np.asarray(i)), -vi, rtol=1e-14, elem=True)
    c.close('gradient recovered', c.call('i_from_v', m.i_from_v, m.v_from_i(i)), i, rtol=1e-8, elem=True)
    c.close('gradient', m.i_from_v(v(i)), i, rtol=max(1e-8, tol), elem=True)
    ia = np.asarray(i)
    h = 1e-5 * np.abs(ia)
    fd = (v(ia + h) - v(ia - h)) / (2 * h)
    c.close('slope', np.abs(c.call('dv_di', m.dv_di, i)), fd, rtol=max(1e-4, 2 * tol), elem=True)
    c.true('slope sign', np.all(np.sign(m.dv_di(i)) == np.sign(ia)))
    g = np.sort(np.r_[base * np.exp(c.u(-5, 3, 30)), base * (1 + np.array([-1e-9, 0, 1e-9]))])
    vg = m.v_from_i(g)
    c.true('increasing', np.all(np.diff(vg) >= -max(1e-15, tol if tol > 1e-8 else 0) * abs(vg[1:])) and np.all(np.diff(vg[::3]) > 0), vg)
    if kind == 'hansbo':
        e = base * np.array([1 - 1e-10, 1 + 1e-10])
        a, b = m.v_from_i(e)
        c.close('velocity continuous', a, b, rtol=max(1e-8, 10 * tol))
        a, b = m.dv_di(e)
        c.close('slope continuous', a, b, rtol=max(1e-7, 10 * tol))
    c.close('no flow', [float(m.v_from_i(0.)), float(m.i_from_v(0.))], [0, 0], atol=0)
    eta, head, gamw = c.logu(1e-3, 1e2), args(c, c.u(.1, 20, 6)), c.u(1, 20)
    # consistent with the strain rate equation: de/dt = klinear/gamw*eta*(u)**n, u = gamw*head
    want = kl / gamw * eta * (gamw * np.asarray(head)) ** n
    c.close('drain strain rate', c.call('vdrain_strain_rate', m.vdrain_strain_rate, eta, head, gamw=gamw), want, rtol=max(1e-9, 20 * tol), elem=True)
    c.close('drain strain rate default gamw', m.vdrain_strain_rate(eta, head), kl / 10 * eta * (10 * np.asarray(head)) ** n, rtol=max(1e-9, 20 * tol), elem=True)
    xm = c.u(0, 3) * base
    x, y = m.v_and_i_for_plotting(npts=c.i(2, 40), xmin=xm, xmax=xm + 3 * base)
    c.close('plot', y, v(x), rtol=max(1e-9, tol))
    c.close('plot', x, np.linspace(xm, xm + 3 * base, len(x)), rtol=1e-12)


@group('bad flow laws', quick=100, thorough=1000, cpu=30)
def bad(c):
    k = c.pick('few', 'many', 'nok', 'i0>iL', 'n<1')
    c.note(k=k)
    if k == 'few':
        c.raises(k, TypeError, HansboNonDarcianFlowModel, kstar=c.u(1, 2), n=1.3)
    elif k == 'many':
        c.raises(k, TypeError, HansboNonDarcianFlowModel, kstar=c.u(1, 2), n=1.3, iL=4, klinear=4)
    elif k == 'nok':
        c.raises(k, TypeError, HansboNonDarcianFlowModel, i0=c.u(1, 2), n=1.3, iL=4)
    elif k == 'i0>iL':
        d = {c.pick('kstar', 'klinear'): c.u(1, 2)}
        a = c.u(1, 5)
        c.raises(k, ValueError, HansboNonDarcianFlowModel, iL=a, i0=a + c.u(.1, 5), **d)
    else:
        d = {c.pick('kstar', 'klinear'): c.u(1, 2)}
        c.raises(k, ValueError, HansboNonDarcianFlowModel, n=c.u(.2, .95), **dict(d, **{c.pick('iL', 'i0'): c.u(1, 5)}))


# ------------------------------------------------------------------ water retention
def correction(psi, psir):
    return 1 - np.log1p(psi / psir) / np.log1p(1e6 / psir)


def make(c):
    if c.coin():
        a, n, m, ws = c.logu(.5, 3000), c.logu(.5, 8), c.logu(.3, 4), c.logu(.1, 60)
        psir, corr = c.logu(50, 1e5), c.pick(None, None, 1, 1., .9)
        kw = dict(a=a, n=n, m=m, ws=ws, psir=psir, correction=corr)
        if c.coin(.2):
            del kw['psir']
            psir = 1e6
        if c.coin(.2):
            del kw['ws']
            ws = 1.
        c.note(fx=kw)
        s = swcc.SWCC_FredlundAndXing1994(**kw)

        def w(psi):
            return ws * np.log(np.e + (psi / a) ** n) ** -m * (correction(psi, psir) if corr is None else corr)

        def dlnw(psi):               # d ln(w) / d psi
            r = (psi / a) ** n
            d = -m / np.log(np.e + r) / (np.e + r) * n * r / psi
            return d - (1 / (psi + psir) / np.log1p(1e6 / psir) / correction(psi, psir) if corr is None else 0)
        return s, w, lambda p: w(p) * dlnw(p), dict(fx=True, ws=ws, corr=corr, top=1e6, lo=1e-3 * a, steep=n)
    ws = c.u(.2, .6)
    wr, b = ws * c.u(.05, .5), c.u(.8, 4)
    a = c.logu(5, 2000) ** b
    s1 = (ws - wr) * c.u(.01, .25)
    corr = c.pick(None, None, 1, 1., .9)
    psir = c.logu(50, 1e5)
    kw = dict(ws=ws, a=a, b=b, wr=wr, s1=s1, correction=corr)
    if c.coin():
        kw['psir'] = psir
    else:
        psir = (2.7 * a) ** (1 / b)
    c.note(pf=kw)
    s = swcc.SWCC_PhamAndFredlund2008(**kw)

    def w(psi):
        return ((ws - s1 * np.log10(psi) - wr) / (1 + psi ** b / a) + wr) * (correction(psi, psir) if corr is None else corr)

    def dw(psi):
        D = 1 + psi ** b / a
        u = (ws - s1 * np.log10(psi) - wr) / D + wr
        du = -s1 / np.log(10) / psi / D - (ws - s1 * np.log10(psi) - wr) / D ** 2 * b * psi ** (b - 1) / a
        if corr is None:
            return du * correction(psi, psir) - u / (psi + psir) / np.log1p(1e6 / psir)
        return du * corr
    return s, w, dw, dict(fx=False, ws=ws, corr=corr, top=min(1e6, 10 ** ((ws - wr) / s1)), lo=1., steep=b)


@group('water retention', quick=1200, thorough=16000, cpu=40)
def retention(c):
    s, w, dw, o = make(c)
    psi = np.exp(c.u(np.log(o['lo']), np.log(1e6), 10))
    psi = args(c, psi)
    c.close('water content', c.call('w', s.w_from_psi, psi), w(np.asarray(psi)), rtol=1e-9, scale=o['ws'])
    pa = np.asarray(psi)
    c.close('slope', np.asarray(c.call('dw', s.dw_dpsi, psi)) * pa, dw(pa) * pa, rtol=1e-9, scale=o['ws'])
    # derivative of the program's own curve
    pin = pa[(pa < 9e5)]
    h = 1e-4
    f = lambda k: s.w_from_psi(pin * np.exp(k * h))
    fd = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
    c.close('derivative of the curve', s.dw_dpsi(pin) * pin, fd, rtol=1e-7, scale=o['ws'])
    g = np.geomspace(o['lo'], o['top'] * .999, 60)
    wg = s.w_from_psi(g)
    c.true('non-increasing', np.all(np.diff(wg) <= 1e-12 * o['ws']), wg)
    c.true('bounded', np.all((wg <= o['ws'] * (1 + 1e-12)) & (wg >= 0)), wg)
    if o['corr'] is None:
        c.close('dry at 1e6', float(s.w_from_psi(1e6)), 0, atol=1e-10 * o['ws'])
    if o['fx']:
        c.close('saturated', float(s.w_from_psi(0.)), o['ws'] * (1 if o['corr'] is None else o['corr']), rtol=1e-12)
    xm, n = o['lo'] * c.u(1, 5), c.i(2, 40)
    x, y = s.psi_and_w_for_plotting(npts=n, xmin=xm, xmax=xm * 100)
    c.close('plot', x, np.geomspace(xm, xm * 100, n), rtol=1e-10, elem=True)
    c.close('plot', y, w(x), rtol=1e-9, scale=o['ws'])


def quadrature(w, dw, w0, lo):
    """integral of (w(e^y)-w0)/e^y*w'(e^y) over y from ln(lo) to ln(1e6)"""
    n = 120
    xq, wq = np.polynomial.legendre.leggauss(8)
    e = np.linspace(np.log(lo), np.log(1e6), n + 1)
    y = ((e[1:] + e[:-1])[:, None] + (e[1:] - e[:-1])[:, None] * xq) / 2
    p = np.exp(y)
    return ((w(p) - w0) / p * dw(p) * wq).sum() * (e[1] - e[0]) / 2


@group('relative permeability', quick=500, thorough=8000, cpu=40)
def relative(c):
    s, w, dw, o = make(c)
    if o['corr'] not in (None, 1):
        return
    lo = o['lo'] if o['fx'] else 1.
    aev = lo * c.u(1, 3)
    npts = c.pick(500, 500, 1200)
    psi = np.exp(c.u(np.log(aev), np.log(aev) + 9, 6))
    psi = psi[(psi < 5e5) & (psi < o['top'])]
    if not len(psi):
        return
    if c.coin(.3):
        psi = psi[0].item()
    kw = dict(aev=aev)
    if npts != 500:
        kw['npts'] = npts
    got = np.asarray(c.call('k_from_psi', s.k_from_psi, psi, **kw))
    den = quadrature(w, dw, o['ws'] if o['fx'] else w(aev), aev)
    want = np.array([quadrature(w, dw, w(p), p) for p in np.atleast_1d(psi)]).reshape(np.shape(psi)) / den
    dy = np.log(1e6 / aev) / npts
    tol = 1e-6 + (dy * (2 * o['steep'] + 2)) ** 2 / 12
    c.close('relative permeability', got, want, rtol=tol, scale=1.)
    ok = want > 1e-12
    c.close('relative permeability (log)', np.log(got[ok]), np.log(want[ok]), atol=4 * tol)
    g = np.geomspace(aev, min(o['top'], 1e5) * .9, 40)
    kg = s.k_from_psi(g, **kw)
    c.true('k non-increasing', np.all(np.diff(kg) <= tol), kg)
    c.true('k bounded', np.all((kg >= -tol) & (kg <= 1 + 4 * tol)), kg)
    if not o['fx']:
        c.close('k saturated', float(s.k_from_psi(aev, **kw)), 1., rtol=1e-12)


@group('discrete curve', quick=500, thorough=8000, cpu=40)
def discrete(c):
    s, w, dw, o = make(c)
    kind = c.pick('dense', 'any', 'air')
    c.note(kind=kind)
    if kind == 'air':
        Sr, q = c.u(0, 1, 8), c.u(.2, 3)
        Sr[:2] = 0, 1
        if c.coin():
            Sr = Sr[c.i(0, 7)].item()
        want = np.sqrt(1 - np.asarray(Sr)) * (1 - np.asarray(Sr) ** (1 / q)) ** (2 * q)
        got = c.call('karel_air', swcc.karel_air_from_saturation, Sr, q)
        c.close('air permeability', got, want, rtol=1e-12)
        if c.coin():
            c.close('air permeability default', swcc.karel_air_from_saturation(Sr), np.sqrt(1 - np.asarray(Sr)) * (1 - np.asarray(Sr) ** 2), rtol=1e-12)
        return
    if kind == 'any':
        n = c.i(4, 30)
        x = np.exp(np.cumsum(c.u(.05, 1, n)) - 3)
        y = np.sort(c.u(.05, .5, n))[::-1]
    else:
        n = 600
        x = np.geomspace(o['lo'], o['top'] * .999, n)
        y = w(x)
    j = np.sort(c.rng.integers(0, n - 1, 6))
    psi = x[j] ** (1 - .5) * x[j + 1] ** .5
    one = c.coin(.3)
    if one:
        j, psi = j[:1], psi[0].item()
    got = np.asarray(c.call('krel', swcc.kwrel_from_discrete_swcc, psi, x, y))
    d = np.diff(np.log(x))
    xb, yb, dy = np.sqrt(x[1:] * x[:-1]), (y[1:] + y[:-1]) / 2, np.diff(y)
    f = lambda k: sum((yb[i] - yb[k]) / xb[i] ** 2 * dy[i] for i in range(k, n - 1))      # slope per unit suction is dy/d/xb
    want = np.array([f(k) for k in j]) / f(0)
    c.close('discrete relative permeability', np.ravel(got), want, rtol=1e-8, scale=1.)
    c.close('discrete relative permeability', np.ravel(got), want, rtol=1e-5, elem=True, atol=1e-13)
    c.true('discrete bounded', np.all((got >= 0) & (got <= 1 + 1e-12)))
    c.true('discrete non-increasing', np.all(np.diff(np.ravel(got)) <= 1e-12))
    if kind == 'dense':
        den = quadrature(w, dw, w(x[0]), x[0])
        ref = np.array([quadrature(w, dw, w(p), p) - 0 for p in np.atleast_1d(psi)]) / den
        dl = d[0]
        if o['corr'] == 1 or o['corr'] is None:
            tail = x[-1] < 9e5
            if not tail:
                c.close('discrete against quadrature', np.ravel(got), ref, rtol=1e-3 + 2 * dl + (dl * (2 * o['steep'] + 2)) ** 2, scale=1.)


@group('outside discrete curve', quick=40, thorough=400, cpu=40)
def outside(c):
    n = c.i(4, 30)
    x = np.exp(np.cumsum(c.u(.05, 1, n)) - 3)
    y = np.sort(c.u(.05, .5, n))[::-1]
    lo, hi = x[0] * c.u(.01, .99), x[-1] * c.u(1.01, 3)
    c.note(x=x, lo=lo, hi=hi)
    c.close('saturated below the data', float(swcc.kwrel_from_discrete_swcc(lo, x, y)), 1., rtol=1e-12)
    c.close('saturated below the data', swcc.kwrel_from_discrete_swcc(np.array([x[0] * .5, x[0] * 1.0001]), x, y), [1., 1.], rtol=1e-12)
    c.raises('above the data', IndexError, swcc.kwrel_from_discrete_swcc, c.pick(hi, np.array([x[1], hi])), x, y)
