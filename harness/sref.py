"""Independent reference for the spectral models: Gauss-Legendre depth
integrals and exactly evaluated time convolutions (no geotecha code)."""
import numpy as np
from math import factorial

_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


class PL(object):
    """Piecewise linear function on [x0, xn]: breakpoints with one-sided
    values.  pieces: list of (a, b, ya, yb), a < b, contiguous."""

    def __init__(self, pieces):
        self.p = [tuple(map(float, q)) for q in pieces]

    @classmethod
    def xy(cls, x, y):
        return cls([(a, b, p, q) for a, b, p, q in zip(x[:-1], x[1:], y[:-1], y[1:]) if a != b])

    @classmethod
    def const(cls, v=1.0, a=0.0, b=1.0):
        return cls([(a, b, v, v)])

    @classmethod
    def lin(cls, y0, y1, a=0.0, b=1.0):
        return cls([(a, b, y0, y1)])

    def x4(self):
        return [list(v) for v in zip(*self.p)]

    def xylist(self):
        x, y = [self.p[0][0]], [self.p[0][2]]
        for a, b, p, q in self.p:
            if y[-1] != p:
                x.append(a); y.append(p)
            x.append(b); y.append(q)
        return x, y

    def breaks(self):
        return [self.p[0][0]] + [q[1] for q in self.p]

    def at(self, z, mid):
        """values at array z, all in the piece containing mid"""
        for a, b, p, q in self.p:
            if a <= mid <= b:
                return p + (q - p) * ((z - a) / (b - a))
        if mid < self.p[0][0]:
            return np.full(np.shape(z), self.p[0][2])
        return np.full(np.shape(z), self.p[-1][3])

    def slope(self, mid):
        for a, b, p, q in self.p:
            if a <= mid <= b:
                return (q - p) / (b - a)
        return 0.0

    def val(self, v, last=True):
        r = None
        for a, b, p, q in self.p:
            if a <= v <= b:
                r = p + (q - p) * ((v - a) / (b - a))
                if not last:
                    return r
        if r is None:
            r = getattr(self, 'start', self.p[0][2]) if v < self.p[0][0] else getattr(self, 'final', self.p[-1][3])
        return r

    def vals(self, t, last=True):
        return np.array([self.val(float(v), last) for v in np.atleast_1d(t)])

    def scaled(self, f):
        return PL([(a, b, p * f, q * f) for a, b, p, q in self.p])


def nodes(fs, mmax, lo=0.0, hi=1.0, extra=()):
    """-> list of (z, w, mid) per smooth panel of all fs"""
    br = sorted(set([lo, hi] + [v for f in fs for v in f.breaks() if lo < v < hi] + [v for v in extra if lo < v < hi]))
    out = []
    for a, b in zip(br[:-1], br[1:]):
        n = int(12 + 1.2 * 2 * mmax * (b - a))
        k = 1
        if n > 60:
            k = int(np.ceil(n / 60.)); n = 60
        g, w = gl(n)
        e = np.linspace(a, b, k + 1)
        for p, q in zip(e[:-1], e[1:]):
            out.append(((q - p) / 2 * g + (p + q) / 2, (q - p) / 2 * w, (a + b) / 2))
    return out


def mat(m, fs, dl=0, dr=0, lo=0., hi=1.):
    """int prod(fs) * phi_i^(dl) * phi_j^(dr)"""
    m = np.asarray(m, float)
    A = np.zeros((len(m), len(m)))
    for z, w, mid in nodes(fs, m.max(), lo, hi):
        c = w.copy()
        for f in fs:
            c = c * f.at(z, mid)
        A += (basis(m, z, dl).T * c) @ basis(m, z, dr)
    return A


def vec(m, fs, d=0, lo=0., hi=1., dfs=()):
    m = np.asarray(m, float)
    A = np.zeros(len(m))
    for z, w, mid in nodes(list(fs) + list(dfs), m.max(), lo, hi):
        c = w.copy()
        for f in fs:
            c = c * f.at(z, mid)
        for f in dfs:
            c = c * f.slope(mid)
        A += basis(m, z, d).T @ c
    return A


def basis(m, z, d=0):
    z = np.asarray(z, float)[:, None]
    if d == 0:
        return np.sin(z * m)
    if d == 1:
        return m * np.cos(z * m)
    if d == 2:
        return -m ** 2 * np.sin(z * m)


def scal(fs, lo, hi):
    t = 0.0
    for z, w, mid in nodes(fs, 1.0, lo, hi):
        c = w.copy()
        for f in fs:
            c = c * f.at(z, mid)
        t += c.sum()
    return t


def f1(X):
    X = np.asarray(X, complex)
    small = np.abs(X) < 1.5
    s = np.where(small, X, 0)
    r = np.zeros_like(s)
    for k in range(25, -1, -1):
        r = r * (-s) + 1.0 / factorial(k + 1)
    L = np.where(small, 1.0, X)
    return np.where(small, r, (1 - np.exp(-L)) / L)


def f2(X):
    X = np.asarray(X, complex)
    small = np.abs(X) < 1.5
    s = np.where(small, X, 0)
    r = np.zeros_like(s)
    for k in range(25, -1, -1):
        r = r * (-s) + 1.0 / (factorial(k) * (k + 2))
    L = np.where(small, 1.0, X)
    return np.where(small, r, (1 - (1 + L) * np.exp(-L)) / L ** 2)


def _prep(load, t):
    """pieces of the load before t: (a, b, value at b, slope)"""
    out = []
    for a, b, p, q in load.p:
        if t <= a:
            break
        e = min(b, t)
        sl = (q - p) / (b - a)
        out.append((a, e, p + sl * (e - a), sl))
    return out


def conv(load, lam, tvals, om=None, cplx=False):
    """int_{data, tau<t} load(tau) cos(omega tau+phase) exp(-lam (t-tau)) dtau -> (nt, neig)"""
    lam = np.asarray(lam)
    w, ph = om if om is not None else (0.0, 0.0)
    R = np.zeros((len(tvals), len(lam)), complex)
    for i, t in enumerate(tvals):
        for a, b, vb, sl in _prep(load, t):
            h = b - a
            for sg in ((1, -1) if om is not None else (1,)):
                s = lam + 1j * sg * w
                c = np.exp(-lam * (t - b)) * np.exp(1j * sg * (w * b + ph))
                R[i] += c * (vb * h * f1(s * h) - sl * h * h * f2(s * h)) * (0.5 if om is not None else 1)
    return R if np.iscomplexobj(lam) else R.real


def convsin(load, lam, tvals, om):
    return conv(load, lam, tvals, (om[0], om[1] - np.pi / 2))


def convD(load, lam, tvals, om=None, start=None):
    """same with d/dtau of (load cos); jumps at tau<=t count in full.
    load: PL, jumps are between consecutive pieces; start: value before the
    first point (jump at the start) or None"""
    lam = np.asarray(lam)
    w, ph = om if om is not None else (0.0, 0.0)
    cs = lambda x: np.cos(w * x + ph) if om is not None else 1.0
    R = np.zeros((len(tvals), len(lam)), complex)
    der = PL([(a, b, (q - p) / (b - a), (q - p) / (b - a)) for a, b, p, q in load.p])
    R += conv(der, lam, tvals, om)
    if om is not None:
        R -= w * convsin(load, lam, tvals, om)
    prev = start
    for a, b, p, q in load.p:
        if prev is not None and prev != p:
            for i, t in enumerate(tvals):
                if a <= t:
                    R[i] += (p - prev) * cs(a) * np.exp(-lam * (t - a))
        prev = q
    fin = getattr(load, 'final', None)
    if fin is not None and fin != prev:
        b = load.p[-1][1]
        for i, t in enumerate(tvals):
            if b <= t:
                R[i] += (fin - prev) * cs(b) * np.exp(-lam * (t - b))
    return R if np.iscomplexobj(lam) else R.real


def layers(c, nl=None, minh=0.04):
    nl = nl or c.pick(1, 1, 2, 3, 4, 6)
    while True:
        z = np.sort(np.concatenate([[0, 1], np.round(c.u(0, 1, nl - 1), 3)]))
        if np.diff(z).min() > minh:
            return z


def prof(c, z=None, lo=.3, hi=3., kind=None, neg=False):
    """random piecewise linear profile on [0,1]"""
    if z is None:
        z = layers(c)
    n = len(z) - 1
    k = c.i(0, 3) if kind is None else kind
    g = (lambda: round(c.logu(lo, hi), 3) * (c.pick(1, -1) if neg else 1))
    out = []
    v = g()
    for i in range(n):
        if k == 0:                      # uniform
            p = q = v
        elif k == 1:                    # constant per layer
            p = q = g()
        elif k == 2:                    # continuous ramps
            p = out[-1][3] if out else g()
            q = g()
        else:
            p, q = g(), g()
            if c.coin(.3):
                q = p
        out.append((z[i], z[i + 1], p, q))
    return PL(out)
