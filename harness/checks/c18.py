"""C18: vertical-drain solutions (Tang & Onitsuka 2000, Deng et al. 2013/2014, Lu et al. 2010)."""
import numpy as np
import scipy.linalg
import scipy.integrate as si
import layerref as L
import smearref as S
from layerref import load, times
from vh import group
from geotecha.consolidation.tangandonitsuka2000 import tangandonitsuka2000
from geotecha.consolidation.dengetal2013and2014 import dengetal2013, dengetal2014
from geotecha.consolidation.luetal2010 import luetal2010

RULE = ('Random drain geometry, smear, soil, drain and column properties, depths, times, load histories and numbers of terms; results compared with '
        'independent solutions of the governing equations (spectral elements for soil and drain flow with exact time response, quadrature of the well '
        'resistance over depth and of the consolidation rate over time, two-field modal problem for soil and column), with the simpler solution when an '
        'effect is off, and point by point.')
ASSUMPTIONS = ['Depths within the layer; load histories start from zero and do not end in a step at an output time.']


def smear(c):
    n = c.logu(3, 60)
    s = c.pick(1., c.u(1.01, min(6, .9 * n)), c.u(1.01, min(6, .9 * n)))
    kap = c.pick(1., c.logu(.5, 20))
    prof = [(1., s, S.const(kap)), (s, n, S.one)] if s > 1 else [(1., n, S.one)]
    return n, s, kap, S.mu(prof)


class Drained(object):
    """ubar_t = cv ubar'' - r(ubar - w),  w'' = -rho(ubar - w); modes by spectral elements"""

    def __init__(self, H, cv, r, rho, nm, closed):
        M = L.Modes([H], [1.], [1.], 'drained', 'closed' if closed else 'drained', 0, P=2 * nm + 30)
        K, Ms = M.Kred, M.Mred
        A = cv * K
        if r:
            A = A + r * (Ms - Ms.dot(np.linalg.solve(Ms + K / rho, Ms)))
            A = (A + A.T) / 2
        lam, v = scipy.linalg.eigh(A, Ms)
        self.M = M
        M.lam, M.v = lam[:nm], np.zeros((len(M.keep), nm))
        M.v[M.keep] = v[:, :nm]
        M.c = M.mint = M.Wv.dot(M.v)
        M.int = M.Vv.dot(M.v)


@group('tang', quick=300, thorough=12000)
def tang(c):
    n, s, kap, mu = smear(c)
    rw = c.logu(.02, .3)
    re, rs = n * rw, s * rw
    H, mv, gamw, kh = c.logu(.5, 40), c.logu(1e-4, 1), c.pick(10., 9.81), c.logu(1e-6, 1)
    kv = kh * c.pick(c.logu(.03, 3), 1e-3)
    drn = c.i(0, 1)
    Hd = H if drn else H / 2
    kw = kh * (Hd / rw) ** 2 * c.logu(.03, 300)
    nt = c.i(1, 40)
    r = 2 * kh / (gamw * mv * re ** 2 * mu)
    rho = 2 * kh * (n ** 2 - 1) / (kw * re ** 2 * mu)
    D = Drained(H, kv / mv / gamw, r, rho, nt if drn else 2 * nt, drn)
    M = D.M
    T = 1 / M.lam[0]
    x, y = load(c, T)
    t, tp = times(c, T, x), times(c, T, x)
    z = [float(v) for v in c.u(0, H, c.i(1, 4))]
    if c.coin():
        z[0] = c.pick(0., H, H / 2)
    a = dict(kv=kv, kh=kh, ks=kh / kap, kw=kw, mv=mv, gamw=gamw, rw=rw, rs=rs, re=re, H=H, drn=drn)
    c.note(z=z, t=t, tpor=tp, load=(x, y), nterms=nt, **a)
    kw_ = dict(a, surcharge_vs_time=(x, y), nterms=nt, tpor=tp)
    if nt == 20 and c.coin():
        kw_.pop('nterms')
    if c.coin(.3):
        kw_.pop('tpor')
        tp = t
    arr = c.pick(np.array, list)
    zin, tin = arr(z), arr(t)
    por, avp, settle = c.call('tangandonitsuka2000', tangandonitsuka2000, zin, tin, **kw_)
    c.true('depths and times not modified', list(zin) == z and list(tin) == t)
    R, Rp = L.ramp(x, y, M.lam, t), L.ramp(x, y, M.lam, tp)
    sc = np.ptp(y)
    c.close('pore pressure', por, (M.at(z) * M.c).dot(Rp), rtol=1e-6, scale=sc)
    av = (M.int * M.c).dot(R) / H
    c.close('average pore pressure', avp, av, rtol=1e-6, scale=sc)
    c.close('settlement', settle, H * mv * (L.load_at(x, y, t) - av), rtol=1e-6, scale=H * mv * sc)
    i, j, k = c.i(0, len(z) - 1), c.i(0, len(t) - 1), c.i(0, len(tp) - 1)
    one = c.call('tangandonitsuka2000', tangandonitsuka2000, z[i], t[j], **dict(kw_, tpor=tp[k]))
    c.close('one depth and time', np.r_[one[0].ravel(), one[1], one[2] / mv / H], [por[i, k], avp[j], settle[j] / mv / H], rtol=1e-12, scale=sc)


def drain(c):
    n, s, kap, mu = smear(c)
    rw = c.logu(.02, .3)
    H, mv, gamw, kh, ui = c.logu(.5, 40), c.logu(1e-4, 1), c.pick(10, 9.81), c.logu(1e-8, 1), c.u(1, 200)
    kw0 = kh * (H / rw) ** 2 * c.logu(.03, 100)
    a = dict(rw=rw, re=n * rw, H=H, kw0=kw0, kh=kh, mv=mv, gamw=gamw, ui=ui)
    if s > 1 or c.coin():
        a.update(rs=s * rw, ks=kh / kap)
    rate = 2 * kh / (gamw * mv * a['re'] ** 2)    # divided by mu: rate of consolidation
    z = np.atleast_1d(c.u(0, H, c.i(1, 5)))
    if c.coin():
        z[0] = c.pick(0, H)
    t = np.sort(np.atleast_1d(c.logu(.01, 4, c.i(1, 4)))) * mu / rate
    A3 = c.pick(0, c.logu(.03, 3) * rate / mu)
    return n, mu, a, rate, z, t, A3


def strip(c, a):
    d = dict(a)
    for k, v in (('gamw', 10),):
        if d[k] == v and c.coin():
            d.pop(k)
    return d


@group('deng 2013', quick=500, thorough=12000)
def d13(c):
    n, mu, a, rate, z, t, A3 = drain(c)
    A1 = c.pick(1, c.u(.2, 3))
    A2 = A1 * c.pick(0, 1, c.u(.01, .99), c.u(.01, .99), -c.u(.05, 2))
    d = strip(c, a)
    d.update((k, v) for k, v, dv in (('A1', A1, 1), ('A2', A2, 0), ('A3', A3, 0)) if v != dv or c.coin())
    c.note(z=z, t=t, **d)
    por = c.call('dengetal2013', dengetal2013, z, t, **d)
    H = a['H']
    qw0 = np.pi * a['rw'] ** 2 * a['kw0']
    want = np.zeros((len(z), len(t)))
    xq, wq = np.polynomial.legendre.leggauss(60)
    for i, zi in enumerate(z):
        q = (xq + 1) / 2 * zi
        res = 2 * np.pi * a['kh'] * (wq * zi / 2 * (H - q) / (qw0 * (A1 - A2 * q / H))).sum()
        for j, tj in enumerate(t):
            tt = (xq + 1) / 2 * tj
            want[i, j] = a['ui'] * np.exp(-(wq * tj / 2 * rate / (mu + res * np.exp(A3 * tt))).sum())
    c.close('pore pressure', por, want, rtol=1e-7, scale=a['ui'])
    i, j = c.i(0, len(z) - 1), c.i(0, len(t) - 1)
    c.close('one depth and time', c.call('dengetal2013', dengetal2013, float(z[i]), float(t[j]), **d), [[por[i, j]]], rtol=1e-12)
    c.leq('no pressure above the initial', por, a['ui'] * (1 + 1e-12))
    if 0 in z:
        c.close('drained end is an ideal drain', por[z == 0][0], a['ui'] * np.exp(-rate / mu * t), rtol=1e-9, scale=a['ui'])


@group('deng 2014', quick=400, thorough=12000)
def d14(c):
    n, mu, a, rate, z, t, A3 = drain(c)
    d = strip(c, a)
    nt = c.pick(100, c.i(1, 60))
    if A3 or c.coin():
        d['A3'] = A3
    if nt != 100:
        d['nterms'] = nt
    c.note(z=z, t=t, **d)
    por = c.call('dengetal2014', dengetal2014, z, t, **d)
    H = a['H']
    xq, wq = np.polynomial.legendre.leggauss(60)
    M = (np.arange(nt) + .5) * np.pi
    # drain: kw pi rw^2/gamw w'' = -(2 pi kh (n^2-1)/(n^2 mu gamw))(u - w), flow to the drain ~ (u-w)/mu
    well = 2 * np.pi * a['kh'] * (n ** 2 - 1) / n ** 2 / (a['kw0'] * np.pi * a['rw'] ** 2) * H ** 2 / M ** 2
    want = np.zeros((len(z), len(t)))
    for j, tj in enumerate(t):
        tt = (xq + 1) / 2 * tj
        dec = np.exp(-(wq * tj / 2 * rate / (mu + well[:, None] * np.exp(A3 * tt))).sum(axis=1))
        want[:, j] = a['ui'] * (2 / M * np.sin(np.outer(z / H, M)) * dec).sum(axis=1)
    c.close('pore pressure', por, want, rtol=1e-7, scale=a['ui'])
    i, j = c.i(0, len(z) - 1), c.i(0, len(t) - 1)
    c.close('one depth and time', c.call('dengetal2014', dengetal2014, float(z[i]), float(t[j]), **d), [[por[i, j]]], rtol=1e-12, scale=a['ui'])
    if A3 == 0:
        p2, _, _ = tangandonitsuka2000(z, t, 0., a['kh'], a.get('ks', a['kh']), a['kw0'], a['mv'], a['gamw'], a['rw'], a.get('rs', a['rw']), a['re'], H, 1,
                                       ((0, 0, 10 * t[-1]), (0, a['ui'], a['ui'])), None, nt)
        c.close('same as Tang and Onitsuka without vertical flow', por, p2, rtol=1e-6, scale=a['ui'])
    # lower discharge capacity never speeds up (first mode)
    if nt == 1:
        d2 = dict(d, kw0=a['kw0'] / 2)
        if H > 0 and np.all(z > 0):
            c.leq('less discharge capacity is slower', por, dengetal2014(z, t, **d2) * (1 + 1e-12))


@group('lu', quick=500, thorough=12000)
def lu(c):
    n, s, kap, mu = smear(c)
    rc = c.logu(.02, .6)
    re, H = n * rc, c.logu(.5, 40)
    kh, gamw, mvs = c.logu(1e-8, 1), c.pick(10, 9.81), c.logu(1e-4, 1)
    kv = kh * c.logu(.1, 3)
    kvc = kv * c.pick(1, c.logu(.1, 1e4))
    khc = kh * c.logu(.1, 1e4)
    mvc = mvs / c.pick(1, c.logu(1, 300), c.logu(.1, 1))
    ut, ub = c.u(0, 100), c.u(0, 100)
    nt = c.pick(100, c.i(1, 60))
    d = dict(rc=rc, re=re, H=H, kv=kv, kvc=kvc, kh=kh, khc=khc, mvs=mvs, mvc=mvc, gamw=gamw, utop=ut, ubot=ub, nterms=nt)
    if s > 1 or c.coin():
        d.update(rs=s * rc, ks=kh / kap)
    if gamw == 10 and c.coin():
        d.pop('gamw')
    if nt == 100:
        d.pop('nterms')
    # equal strain: eps = mvs n^2/(n^2-1+Y) (load - u), u the overall average
    a = n ** 2 - 1
    R = gamw * (re ** 2 * mu / 2 / kh + rc ** 2 * a / 8 / khc)       # (us - uc) per unit soil inflow
    st = mvs / (a + mvs / mvc)
    M = (np.arange(nt) + .5) * np.pi
    lam, rs_, rc_ = np.zeros(nt), np.zeros(nt), np.zeros(nt)
    for i, m in enumerate(M):
        k2 = (m / H) ** 2 / gamw
        # lam st (a us + uc) = kv k2 us + (us-uc)/R ;  = kvc k2 uc - a (us-uc)/R
        A = np.array([[kv * k2 + 1 / R, -1 / R], [-a / R, kvc * k2 + a / R]])
        # eliminate: both right sides equal -> ratio; then the rate
        dif = A[0] - A[1]
        v = np.array([-dif[1], dif[0]])
        v = v / ((a * v[0] + v[1]) / n ** 2)
        lam[i] = A[0].dot(v) / (st * n ** 2)
        rs_[i], rc_[i] = v
    z = np.atleast_1d(c.u(0, H, c.i(1, 5)))
    if c.coin():
        z[0] = c.pick(0, H)
    t = np.sort(np.atleast_1d(c.logu(.001, 4, c.i(1, 4)))) / lam[0]
    c.note(z=z, t=t, **d)
    por, pors, porc, avp, settle = c.call('luetal2010', luetal2010, z, t, **d)
    # coefficients of the initial pressure by quadrature
    xq, wq = np.polynomial.legendre.leggauss(3 * nt + 20)
    xq, wq = (xq + 1) / 2, wq / 2
    cf = 2 * (np.sin(np.outer(M, xq)) * (wq * (ut + (ub - ut) * xq))).sum(axis=1)
    sn = np.sin(np.outer(z / H, M)) * cf
    E = np.exp(-np.outer(lam, t))
    sc = max(ut, ub)
    c.close('overall pore pressure', por, sn.dot(E), rtol=1e-8, scale=sc)
    c.close('soil pore pressure', pors, (sn * rs_).dot(E), rtol=1e-8, scale=sc)
    c.close('column pore pressure', porc, (sn * rc_).dot(E), rtol=1e-8, scale=sc)
    av = (cf / M).dot(E)
    c.close('average pore pressure', avp, av, rtol=1e-8, scale=sc)
    f = H * st * n ** 2
    c.close('settlement', settle, f * ((ut + ub) / 2 - av), rtol=1e-8, scale=f * sc)
    i, j = c.i(0, len(z) - 1), c.i(0, len(t) - 1)
    one = c.call('luetal2010', luetal2010, float(z[i]), float(t[j]), **d)
    c.close('one depth and time', np.r_[[o.ravel()[0] for o in one[:4]], one[4] / f], [por[i, j], pors[i, j], porc[i, j], avp[j], settle[j] / f], rtol=1e-12, scale=sc)
    c.close('overall average of soil and column', n ** 2 * por, a * pors + porc, rtol=1e-9, scale=n ** 2 * sc)
