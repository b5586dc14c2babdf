"""Independent reference for layered one-dimensional consolidation.

Spectral elements (vertex functions and integrated Legendre bubbles) give all
lower eigenpairs of  -(k u')' + g u = lam m u  on 0..H at once, so no
eigenvalue can be missed; responses are then exact in time for piecewise linear
loads.  Radial part: modes of an annulus drained at r0, closed at r1.
No geotecha code."""
import numpy as np
import scipy.linalg
import scipy.special as sp
import scipy.optimize as so
from numpy.polynomial import legendre as leg


def basis(P, x):
    """values, derivatives of the P+1 element functions at x in [-1, 1]"""
    L = leg.legvander(x, P + 1)
    B = np.zeros((len(x), P + 1))
    D = np.zeros((len(x), P + 1))
    B[:, 0] = (1 - x) / 2; D[:, 0] = -.5
    B[:, 1] = (1 + x) / 2; D[:, 1] = .5
    for j in range(2, P + 1):
        f = 1 / np.sqrt(2.0 * (2 * j - 1))
        B[:, j] = (L[:, j] - L[:, j - 2]) * f
        D[:, j] = np.sqrt((2 * j - 1) / 2.0) * L[:, j - 1]
    return B, D


class Modes(object):
    """k, m, g: per element constant or callable of depth.
    top/bot: 'drained', 'closed' or a leakage conductance (k/h of a thin layer)"""

    def __init__(self, h, k, m, top, bot, n, g=None, P=48):
        h = np.asarray(h, float)
        ne = len(h)
        self.ends = np.r_[0, np.cumsum(h)]
        self.P = P
        nd = ne + 1 + ne * (P - 1)
        K = np.zeros((nd, nd)); M = np.zeros((nd, nd))
        xq, wq = leg.leggauss(P + 24)
        B, D = basis(P, xq)
        self.map = []
        W = np.zeros(nd)           # integral of m * function
        V = np.zeros(nd)           # integral of function
        self.mtot = 0.0
        ev = lambda f, e, z: (f[e] if not callable(f) else f(z)) * np.ones_like(z)
        for e in range(ne):
            idx = np.r_[e, e + 1, ne + 1 + e * (P - 1) + np.arange(P - 1)]
            self.map.append(idx)
            J = h[e] / 2
            z = self.ends[e] + (xq + 1) * J
            ke, me = ev(k, e, z), ev(m, e, z)
            K[np.ix_(idx, idx)] += (D.T * (ke * wq / J)).dot(D)
            if g is not None:
                K[np.ix_(idx, idx)] += (B.T * (ev(g, e, z) * wq * J)).dot(B)
            M[np.ix_(idx, idx)] += (B.T * (me * wq * J)).dot(B)
            W[idx] += (B.T * (me * wq * J)).sum(axis=1)
            V[idx] += (B.T * (wq * J)).sum(axis=1)
            self.mtot += (me * wq * J).sum()
        keep = np.ones(nd, bool)
        for nm, i in ((top, 0), (bot, ne)):
            if nm == 'drained':
                keep[i] = False
            elif nm != 'closed':
                K[i, i] += nm
        self.keep, self.Wv, self.Vv = keep, W, V
        self.Kred, self.Mred = K[np.ix_(keep, keep)], M[np.ix_(keep, keep)]
        if n == 0:
            return
        lam, v = scipy.linalg.eigh(self.Kred, self.Mred)
        self.all = lam
        self.lam = lam[:n]
        self.v = np.zeros((nd, n))
        self.v[keep] = v[:, :n]
        self.c = W.dot(self.v)          # coefficient of a uniform unit pressure
        self.mint = W.dot(self.v)       # integral of m*mode
        self.int = V.dot(self.v)        # integral of mode

    def at(self, z):
        """modes at depths z: (len(z), n)"""
        z = np.atleast_1d(np.asarray(z, float))
        out = np.zeros((len(z), self.v.shape[1]))
        for i, zz in enumerate(z):
            e = min(max(np.searchsorted(self.ends, zz, 'left') - 1, 0), len(self.ends) - 2)
            x = 2 * (zz - self.ends[e]) / (self.ends[e + 1] - self.ends[e]) - 1
            B, D = basis(self.P, np.array([x]))
            out[i] = B[0].dot(self.v[self.map[e]])
        return out


def ramp(x, y, lam, t):
    """int dq/dtau exp(-lam (t-tau)) dtau for a piecewise linear load: (len(lam), len(t));
    a step exactly at t counts"""
    lam = np.asarray(lam, float)[:, None]
    t = np.asarray(t, float)[None, :]
    out = np.zeros(np.broadcast(lam, t).shape)
    for a, b, u, v in zip(x[:-1], x[1:], y[:-1], y[1:]):
        if b == a:
            out += np.where(t >= a, (v - u) * np.exp(-lam * np.maximum(t - a, 0)), 0)
        else:
            s = np.minimum(t, b)
            d = np.maximum(s - a, 0)
            out += (v - u) / (b - a) * np.exp(-lam * np.maximum(t - s, 0)) * np.where(d > 0, -np.expm1(-lam * d) / lam, 0)
    return out


def load_at(x, y, t):
    """value just after t"""
    out = []
    for s in np.atleast_1d(t):
        k = np.searchsorted(x, s, 'right') - 1
        if k >= len(x) - 1:
            out.append(y[-1])
        elif k < 0:
            out.append(0.0)
        else:
            out.append(y[k] + (y[k + 1] - y[k]) * (s - x[k]) / (x[k + 1] - x[k]))
    return np.array(out)


class Annulus(object):
    def __init__(self, r0, r1, n, r=None):
        N = r1 / float(r0)
        U = lambda s, q, o: sp.jv(o, q * s) * sp.yv(0, s) - sp.jv(0, s) * sp.yv(o, q * s)
        f = lambda s: U(s, N, 1)
        roots, s, ds = [], 1e-6 / N, np.pi / (N - 1) / 60
        # first root can be far below the later spacing: geometric then uniform steps
        a, fa = s, f(s)
        while len(roots) < n:
            b = min(a * 1.02, a + ds)
            fb = f(b)
            if fa * fb < 0:
                roots.append(so.brentq(f, a, b, xtol=1e-15, rtol=1e-14))
            a, fa = b, fb
        self.s = np.array(roots)
        self.rate = self.s / r0                      # u_rr + u_r/r = -rate^2 u
        xq, wq = leg.leggauss(200)
        q = 1 + (xq + 1) / 2 * (N - 1)
        w = wq * (N - 1) / 2 * q
        R = np.array([U(s, q, 0) for s in self.s])
        c = (R * w).sum(1) / (R ** 2 * w).sum(1)
        self.f = c * ((R * w).sum(1) / w.sum() if r is None else np.array([U(s, r / r0, 0) for s in self.s]))


def load(c, T):
    """load history starting from zero: x, y lists (steps and ramps)"""
    k = c.i(0, 3)
    if k == 0:
        return [0., 0., 9 * T], [0., 10., 10.]
    x, y, now, val = [0.], [0.], 0., 0.
    for _ in range(c.i(1, 4)):
        if c.coin(.4):
            val = c.pick(c.u(-50, 100), val, 0.)
            x.append(now); y.append(val)
        else:
            now += T * c.logu(.03, 1.5)
            val = c.pick(c.u(-50, 100), val)
            x.append(now); y.append(val)
    if max(abs(v) for v in y) == 0:
        x.append(now + T); y.append(20.)
    if x[-1] == x[-2]:
        # (a step at the very end of a history has no value 'at' its instant)
        x.append(now + T); y.append(y[-1])
    # consecutive equal abscissae: keep one step at most per time
    X, Y = [x[0]], [y[0]]
    for a, b in zip(x[1:], y[1:]):
        if len(X) > 1 and X[-1] == a and X[-2] == a:
            Y[-1] = b
        else:
            X.append(a); Y.append(b)
    return X, Y


def times(c, T, x):
    t = list(T * c.logu(.005, 3, c.i(1, 4)))
    if c.coin(.5):
        t.append(c.pick(*x))
    if c.coin(.2):
        t.append(0.)
    return [float(v) for v in sorted(t)]
