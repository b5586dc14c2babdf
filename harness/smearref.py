"""Independent references for radial flow to a drain through a smear zone.

A permeability profile is a list of segments (a, b, f) in radius ratio; f(x)
is kh/k(x).  Everything is integrated numerically (composite Gauss-Legendre in
ln x), nothing uses the closed forms of the package."""
import numpy as np
GX, GW = np.polynomial.legendre.leggauss(24)


def nodes(a, b, m=8):
    """Nodes and weights for int_a^b f(x) dx, panels equal in ln x."""
    e = np.exp(np.linspace(np.log(a), np.log(b), m + 1))
    e[0], e[-1] = a, b
    h = np.diff(e) / 2
    x = (e[:-1] + h)[:, None] + h[:, None] * GX
    return x.ravel(), (h[:, None] * GW).ravel()


def integ(prof, g, lo=1., hi=None):
    """int g(x) kappa(x) dx between lo and hi over the profile."""
    t = 0.
    hi = prof[-1][1] if hi is None else hi
    for a, b, f in prof:
        a, b = max(a, lo), min(b, hi)
        if b > a:
            x, w = nodes(a, b)
            t += np.sum(w * f(x) * g(x))
    return t


def mu(prof):
    n = prof[-1][1]
    return integ(prof, lambda x: (n * n - x * x) ** 2 / x) / n ** 2 / (n ** 2 - 1)


def drop(prof, r):
    """u(r)-u(1) for unit (uavg-uw)/(mu+muw)."""
    n = prof[-1][1]
    return np.array([integ(prof, lambda x: (n * n - x * x) / x / n ** 2, hi=q) for q in r])


def series(x, n, p, nt):
    """(1-(x/n)^2)^(1/p), binomial series cut after nt terms."""
    t = np.ones_like(x)
    s = np.zeros_like(x)
    for j in range(nt):
        s = s + t
        t = t * (j - 1 / p) / (j + 1) * (x / n) ** 2
    return s


def pw(prof, p):
    return [(a, b, (lambda f: lambda x: f(x) ** (1 / p))(f)) for a, b, f in prof]


def beta(prof, p, nt=None):
    n = prof[-1][1]
    fl = (lambda x: (1 - (x / n) ** 2) ** (1 / p)) if nt is None else lambda x: series(x, n, p, nt)
    return integ(pw(prof, p), lambda x: x ** (-1 / p) * fl(x) * (n * n - x * x)) / (n * n - 1)


def ndrop(prof, p, r, nt=None):
    n = prof[-1][1]
    fl = (lambda x: (1 - (x / n) ** 2) ** (1 / p)) if nt is None else lambda x: series(x, n, p, nt)
    return np.array([integ(pw(prof, p), lambda x: x ** (-1 / p) * fl(x), hi=q) for q in r])


one = lambda x: np.ones_like(x)


def const(v):
    return lambda x: v * np.ones_like(x)


def lin(a, b, ka, kb):
    """kappa when permeability 1/kappa is linear from a to b."""
    return lambda x: 1 / (1 / ka + (1 / kb - 1 / ka) * (x - a) / (b - a))


def par(s, k):
    return lambda x: 1 / (1 / k + (1 - 1 / k) * (1 - ((s - x) / (s - 1)) ** 2))


def clean(prof):
    return [p for p in prof if p[1] > p[0]]


def ideal(n):
    return [(1., n, one)]


def constant(n, s, k):
    return clean([(1., s, const(k)), (s, n, one)])


def linear(n, s, k):
    return clean([(1., s, lin(1., s, k, 1.)), (s, n, one)])


def parabolic(n, s, k):
    return clean([(1., s, par(s, k)), (s, n, one)])


def overlapping(n, s, k):
    if n >= s:
        return linear(n, s, k)
    sx = 2 * n - s
    if sx <= 1:
        return [(1., n, const(k))]
    f = lin(1., s, k, 1.)
    return clean([(1., sx, f), (sx, n, const(float(f(np.array(sx)))))])


def pwconst(s, k):
    e = [1.] + list(s)
    return [(a, b, const(q)) for a, b, q in zip(e, e[1:], k)]


def pwlin(s, k):
    return clean([(a, b, lin(a, b, ka, kb) if b > a else None) for a, b, ka, kb in zip(s, s[1:], k, k[1:])])


def kprof(prof, r):
    """k/kh at radii (right-continuous, last segment closed)."""
    o = []
    for q in r:
        for a, b, f in prof:
            if a <= q < b or b is prof[-1][1]:
                o.append(1 / float(f(np.array(float(q)))))
                break
    return np.array(o)
