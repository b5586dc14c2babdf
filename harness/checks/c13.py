"""C13: Terzaghi and fractional (Cosenza & Korosak) one-dimensional solutions."""
import numpy as np
from scipy.special import erfc
from vh import group
from geotecha.consolidation.terzahi import terzaghi_1d, terzaghi_1d_flowrate
from geotecha.consolidation.cosenzaandkorosak2014 import cosenzaandkorosak2014

RULE = ('Random geometry, permeability, compressibility, initial pressure, depths, times, argument containers and number of terms; pore pressure'
        ' compared with the image (complementary error function) solution of the heat equation and with an independent truncated'
        ' series; creep modes inverted on a different contour (hyperbola).')
ASSUMPTIONS = ['Creep solution at positive times; derivative order in (0,1).']


def pars(c):
    d = dict(H=c.logu(.05, 50), kv=c.logu(1e-5, 1e2), mv=c.logu(1e-4, 10), gamw=c.pick(10, 9.81, c.u(5, 12)), ui=c.pick(1, c.u(-50, 200)))
    return d, d['kv'] / d['mv'] / d['gamw']


def wrap(c, x):
    return c.pick(lambda q: q, list, tuple)(np.asarray(x))


def draw(c, t0=True, lo=1e-3):
    d, cv = pars(c)
    z = c.u(0, 1, c.i(1, 6)) * d['H']
    if c.coin(.5):
        z[0] = c.pick(0, d['H'])
    T = c.logu(lo, 3, c.i(1, 6))
    t = T * d['H'] ** 2 / cv
    if t0 and c.coin(.2):
        t[0] = 0
    return d, cv, z, t


@group('terzaghi', quick=1500, thorough=30000)
def terzaghi(c):
    d, cv, z, t = draw(c)
    n = c.pick(1, 2, 5, 100, c.i(1, 60))
    c.note(d=d, z=z, t=t, n=n)
    za, ta = wrap(c, z), wrap(c, t)
    if len(z) == 1 and c.coin():
        za = float(z[0])
    if len(t) == 1 and c.coin():
        ta = float(t[0])
    kw = dict(d, nterms=n)
    if n == 100:
        kw.pop('nterms')
    por, doc = c.call('terzaghi_1d', terzaghi_1d, za, ta, **kw)
    q = c.call('flowrate', terzaghi_1d_flowrate, za, ta, **kw)
    H, ui = d['H'], d['ui']
    k = np.arange(n)
    M = (k + .5) * np.pi
    # truncated series, summed term by term
    P = np.zeros((len(z), len(t)))
    Q = P * 0
    A = np.zeros(len(t))
    for m in M:
        e = np.exp(-m * m * cv * t / H ** 2)
        P += 2 / m * np.outer(np.sin(m * z / H), e)
        Q += 2 / H * np.outer(np.cos(m * z / H), e)
        A += 2 / m ** 2 * e
    c.close('series por', por, ui * P, rtol=1e-10, scale=abs(ui))
    c.close('series doc', doc, 1 - A, rtol=1e-10, scale=1)
    c.close('series flow', q, d['kv'] / d['gamw'] * ui * Q, rtol=1e-9, scale=abs(d['kv'] / d['gamw'] * ui / H * n))
    if n >= 40:
        s = t > 3e-3 * H ** 2 / cv
        r = 2 * np.sqrt(cv * np.where(s, t, 1))
        im, fl = np.ones((len(z), len(t))), np.zeros((len(z), len(t)))
        for j in range(9):
            for sg, x in ((-1, 2 * j * H + z), (-1, 2 * (j + 1) * H - z)):
                im += sg * (-1) ** j * erfc(x[:, None] / r)
            g = lambda x: 2 / np.sqrt(np.pi) * np.exp(-(x[:, None] / r) ** 2) / r
            fl += (-1) ** j * (g(2 * j * H + z) - g(2 * (j + 1) * H - z))
        c.close('heat equation', por[:, s], ui * im[:, s], rtol=1e-8, scale=abs(ui))
        c.close('Darcy flow', q[:, s], d['kv'] / d['gamw'] * ui * fl[:, s], rtol=1e-7, scale=abs(d['kv'] / d['gamw'] * ui / H * n))
        top = z == 0
        c.close('drained end', por[top], 0 * por[top], atol=1e-12 * abs(ui))
        c.true('monotone', (np.diff(doc[np.argsort(t)]) >= -1e-12).all() and ((doc > -.03) & (doc < 1 + 1e-12)).all())
    # degree of consolidation is the depth average
    x, w = np.polynomial.legendre.leggauss(200)
    pz, _ = terzaghi_1d((x + 1) / 2 * H, t, **kw)
    c.close('doc is the average', doc, 1 - w @ pz / 2 / ui, rtol=1e-9, scale=1)


@group('linear', quick=200, thorough=2000)
def linear(c):
    """points requested together or alone; ui scales; only cv t/H^2 matters"""
    d, cv, z, t = draw(c)
    por, doc = terzaghi_1d(z, t, **d)
    i, j = c.i(0, len(z) - 1), c.i(0, len(t) - 1)
    p1, d1 = terzaghi_1d(z[i], t[j], **d)
    c.close('alone', p1[0, 0], por[i, j], rtol=1e-12, atol=1e-13 * abs(d['ui']))
    c.close('alone doc', d1[0], doc[j], rtol=1e-12, atol=1e-14)
    f = c.u(.2, 5)
    p2, d2 = terzaghi_1d(z * f, t * f ** 2 * 3, H=d['H'] * f, kv=d['kv'] / 3, mv=d['mv'], gamw=d['gamw'], ui=d['ui'])
    c.close('similarity', p2, por, rtol=1e-9, scale=abs(d['ui']))
    p, _ = terzaghi_1d(z, t, d['H'], d['kv'], d['mv'], d['gamw'], d['ui'])
    c.close('positional', p, por, rtol=0)


def hyper(F, t, N=48):
    """Laplace inversion on a hyperbola (Weideman & Trefethen), independent of Talbot's contour"""
    h, mu, al = 1.081792140 / N, 4.492075287 * N, 1.172104229
    u = (np.arange(-N, N) + .5) * h
    out = []
    for x in t:
        s = mu / x * (1 + np.sin(1j * u - al))
        ds = mu / x * 1j * np.cos(1j * u - al)
        out.append((h / (2j * np.pi) * np.sum(np.exp(s * x) * F(s) * ds)).real)
    return np.array(out)


@group('creep', quick=500, thorough=6000)
def creep(c):
    d, cv, z, t = draw(c, t0=False, lo=1e-4)
    d['L'] = d.pop('H')
    L, ui = d['L'], d['ui']
    tc = L ** 2 / cv
    k = c.pick(1, 1, 2, 3)
    v = c.u(.02, .98, k)
    theta = c.logu(1e-3, 3, k) * tc ** (v - 1) ** 1
    theta = theta * tc ** 0
    n = c.pick(1, 3, 10, 20)
    tp = c.pick(None, t, c.logu(1e-4, 3, c.i(1, 4)) * tc)
    c.note(d=d, z=z, t=t, theta=theta, v=v, n=n, tpor=tp)
    a = (float(theta[0]), float(v[0])) if k == 1 and c.coin() else (wrap(c, theta), wrap(c, v))
    por, doc = c.call('cosenza', cosenzaandkorosak2014, wrap(c, z), wrap(c, t), *a, tpor=None if tp is None else wrap(c, tp), nterms=n, **d)
    tq = t if tp is None else tp
    P, A = np.zeros((len(z), len(tq))), np.zeros(len(t))
    for j in range(n):
        m = (j + .5) * np.pi
        lam = m * m / tc
        F = lambda s: (1 + sum(q * s ** (w - 1) for q, w in zip(theta, v))) / (s + sum(q * s ** w for q, w in zip(theta, v)) + lam)
        P += 2 / m * np.outer(np.sin(m * z / L), hyper(F, tq))
        A += 2 / m ** 2 * hyper(F, t)
    c.close('por', por, ui * P, rtol=1e-6, scale=abs(ui))
    c.close('doc', doc, 1 - A, rtol=1e-6, scale=1)
    # no creep: the classical solution with as many terms
    p0, d0 = c.call('no creep', cosenzaandkorosak2014, z, t, c.pick(0.0, [0., 0]), c.pick([.5, .3], [.9, .1]), tpor=tp, nterms=n, **d)
    dd = dict((q if q != 'L' else 'H', w) for q, w in d.items())
    p1, d1 = terzaghi_1d(z, tq, nterms=n, **dd)
    c.close('no creep por', p0, p1, rtol=1e-6, scale=abs(ui))
    c.close('no creep doc', d0, terzaghi_1d(z, t, nterms=n, **dd)[1], rtol=1e-6, scale=1)
    # creep retards late dissipation but keeps consolidation between 0 and 1
    c.true('range', ((doc > -1e-6) & (doc < 1 + 1e-6)).all())
