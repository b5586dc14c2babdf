"""C09 piecewise-linear evaluation, integration, averaging: exact-arithmetic oracle.

The oracle keeps the function as a list of straight pieces with Fraction
coordinates and evaluates/integrates it exactly."""
from fractions import Fraction as F
import math
import numpy as np
from vh import group
import geotecha.piecewise.piecewise_linear_1d as pw

RULE = ('Random piecewise-linear functions (1-9 pieces, ramps, plateaus, steps inside/at either end, repeated points, '
        'increasing or decreasing abscissae, integer or float data), evaluated at nodes, interior, outside points.')
ASSUMPTIONS = ['Interval integrals are requested over non-empty intervals inside the range of the function, from lower to higher'
               ' position in data order (the documented domain).']


def gen(c, inc=None, steps=True, n=None):
    """-> x, y float lists, dyadic-ish values, non-decreasing (or reversed)"""
    n = n or c.i(1, 9)
    x = [c.pick(0.0, float(c.i(-5, 5)), round(c.u(-3, 10), 3))]
    y = [round(c.u(-5, 5), 2)]
    if steps and c.coin(.25):
        x.append(x[-1]); y.append(round(c.u(-5, 5), 2))
    for k in range(n):
        x.append(x[-1] + c.pick(1.0, 0.5, round(c.logu(.01, 20), 3)))
        y.append(c.pick(y[-1], round(c.u(-5, 5), 2), float(c.i(-3, 3))))
        if steps and c.coin(.35):
            for _ in range(c.pick(1, 1, 1, 2)):
                x.append(x[-1]); y.append(c.pick(round(c.u(-5, 5), 2), y[-1]))
    if steps and c.coin(.1):
        pass
    if inc is None:
        inc = c.coin(.7)
    if not inc:
        x, y = x[::-1], y[::-1]
    return x, y


def segs(x, y):
    return [(F(a), F(b), F(p), F(q)) for a, b, p, q in zip(x[:-1], x[1:], y[:-1], y[1:]) if a != b]


def val(s, v, last=False):
    v = F(v)
    r = None
    for (a, b, p, q) in s:
        if min(a, b) <= v <= max(a, b):
            r = p + (q - p) * (v - a) / (b - a)
            if not last:
                return r
    return r


def ev(x, y, v, last=False):
    s = segs(x, y)
    r = val(s, v, last)
    if r is None:
        r = F(y[0]) if abs(F(v) - F(x[0])) < abs(F(v) - F(x[-1])) else F(y[-1])
    return float(r)


def evseg(s, v, last=False):
    r = val(s, v, last)
    if r is None:
        r = s[0][2] if abs(F(v) - s[0][0]) < abs(F(v) - s[-1][1]) else s[-1][3]
    return float(r)


def integ(s, xi, xj, t=None):
    """integral of f (times g with segs t) from xi to xj; same direction as data"""
    xi, xj = F(xi), F(xj)
    sg = 1 if xj >= xi else -1
    lo, hi = min(xi, xj), max(xi, xj)
    brk = {lo, hi}
    for q in [s] + ([t] if t else []):
        for a, b, _, _ in q:
            for w in (a, b):
                if lo < w < hi:
                    brk.add(w)
    brk = sorted(brk)
    tot = F(0)

    def at(q, v, mid):
        for (a, b, p, r) in q:
            if min(a, b) <= mid <= max(a, b):
                return p + (r - p) * (v - a) / (b - a)
        # beyond: constant
        return q[0][2] if abs(mid - q[0][0]) < abs(mid - q[-1][1]) else q[-1][3]
    for a, b in zip(brk[:-1], brk[1:]):
        m = (a + b) / 2
        f = [at(s, v, m) for v in (a, m, b)]
        if t:
            f = [u * at(t, v, m) for u, v in zip(f, (a, m, b))]
        tot += (b - a) * (f[0] + 4 * f[1] + f[2]) / 6
    return float(sg * tot)


def pts(c, x, n=8):
    lo, hi = min(x), max(x)
    out = []
    for _ in range(n):
        k = c.i(0, 4)
        if k == 0:
            out.append(float(x[c.i(0, len(x) - 1)]))
        elif k == 1:
            out.append(lo - c.u(.1, 5))
        elif k == 2:
            out.append(hi + c.u(.1, 5))
        else:
            out.append(lo + (hi - lo) * c.u(.001, .999))
    return out


def intervals(c, x, n=6):
    """pairs inside the range, in data direction"""
    xi, xj = [], []
    lo, hi = min(x), max(x)
    xs = sorted(set(x))
    while len(xi) < n:
        p = [c.pick(c.pick(*xs), lo + (hi - lo) * c.u(0.001, .999)) for _ in range(2)]
        if c.coin(.15):
            p = [lo, hi]
        p.sort()
        if p[1] - p[0] < 1e-6 * (hi - lo):
            continue
        if x[0] > x[-1]:
            p = p[::-1]
        xi.append(p[0]); xj.append(p[1])
    return xi, xj


def form(c, *v):
    k = c.i(0, 2)
    f = [list, tuple, lambda a: np.array(a, dtype=float)][k]
    return [f(a) for a in v]


def split4(c, n=None, inc=True):
    """x1,x2,y1,y2 data"""
    n = n or c.i(1, 7)
    x = np.concatenate([[c.pick(0., round(c.u(-2, 2), 3))], np.round(c.logu(.05, 5, n), 3)]).cumsum()
    y1 = np.round(c.u(-4, 4, n), 2); y2 = np.round(c.u(-4, 4, n), 2)
    for i in range(n):
        if c.coin(.3):
            y2[i] = y1[i]
        if i and c.coin(.4):
            y1[i] = y2[i - 1]
    x1, x2 = x[:-1].copy(), x[1:].copy()
    if not inc:
        x1, x2, y1, y2 = x2[::-1], x1[::-1], y2[::-1], y1[::-1]
    return [list(map(float, v)) for v in (x1, x2, y1, y2)]


def s4(x1, x2, y1, y2):
    return [tuple(F(v) for v in t) for t in zip(x1, x2, y1, y2)]


@group('interp', quick=400, thorough=6000)
def interp(c):
    x, y = gen(c)
    c.note(x=x, y=y)
    xi = pts(c, x)
    fx, fy = form(c, x, y)
    for cm in (False, True):
        want = [ev(x, y, v, cm) for v in xi]
        got = c.call('interp_x_y', pw.interp_x_y, fx, fy, form(c, xi)[0], choose_max=cm)
        c.close('interp_x_y', got, want, rtol=1e-10, atol=1e-10)
        got = c.call('pinterp_x_y', pw.pinterp_x_y, pw.PolyLine(x, y), xi, choose_max=cm)
        c.close('pinterp_x_y', got, want, rtol=1e-10, atol=1e-10)
    c.close('interp scalar', pw.interp_x_y(fx, fy, xi[0]), [ev(x, y, xi[0])], rtol=1e-10, atol=1e-10)
    d = split4(c, inc=c.coin(.7))
    c.note(d=d)
    s = s4(*d)
    xi = pts(c, d[0] + d[1])
    for cm in (False, True):
        want = [evseg(s, v, cm) for v in xi]
        c.close('interp_x1_x2_y1_y2', c.call('interp4', pw.interp_x1_x2_y1_y2, *form(c, *d), xi, choose_max=cm), want, rtol=1e-10, atol=1e-10)
        c.close('pinterp_x1_x2_y1_y2', c.call('pinterp4', pw.pinterp_x1_x2_y1_y2, pw.PolyLine(*d), xi, choose_max=cm), want, rtol=1e-10, atol=1e-10)
        # x-y data through the x1x2 interface: same function
        if d[0][0] < d[0][-1] or len(d[0]) == 1:
            xx, yy = pw.convert_x1_x2_y1_y2_to_x_y(*d)
            c.close('interp of converted', pw.interp_x_y(xx, yy, xi, choose_max=cm), want, rtol=1e-10, atol=1e-10)


@group('integrate', quick=400, thorough=6000)
def integrate(c):
    x, y = gen(c)
    c.note(x=x, y=y)
    s = segs(x, y)
    xi, xj = intervals(c, x)
    c.note(xi=xi, xj=xj)
    w = np.array([integ(s, a, b) for a, b in zip(xi, xj)])
    sc = max(abs(v) for v in y) * (max(x) - min(x))
    tol = dict(rtol=0, atol=1e-11 * (sc + 1))
    fx, fy, gi, gj = form(c, x, y, xi, xj)
    P = pw.PolyLine(x, y)
    c.close('integrate_x_y', c.call('int', pw.integrate_x_y_between_xi_xj, fx, fy, gi, gj), w, **tol)
    c.close('pintegrate_x_y', c.call('int', pw.pintegrate_x_y_between_xi_xj, P, gi, gj), w, **tol)
    av = w / (np.array(xj) - xi)
    at = 1e-11 * (sc + 1) / min(abs(np.array(xj) - xi))
    c.close('avg_x_y', c.call('avg', pw.avg_x_y_between_xi_xj, fx, fy, gi, gj), av, rtol=0, atol=at)
    c.close('pavg_x_y', c.call('avg', pw.pavg_x_y_between_xi_xj, P, gi, gj), av, rtol=0, atol=at)
    c.close('integrate_x1 of P', c.call('int', pw.pintegrate_x1_x2_y1_y2_between_xi_xj, P, gi, gj), w, **tol)
    # additivity
    m = [(a + b) / 2 for a, b in zip(xi, xj)]
    c.close('additive', pw.integrate_x_y_between_xi_xj(x, y, xi, m) + pw.integrate_x_y_between_xi_xj(x, y, m, xj), w, **tol)
    d = split4(c, inc=c.coin(.75))
    c.note(d=d)
    s = s4(*d)
    xs = [d[0][0]] + d[1]
    xi, xj = intervals(c, xs)
    w = np.array([integ(s, a, b) for a, b in zip(xi, xj)])
    av = w / (np.array(xj) - xi)
    at = 1e-11 * (30) / min(abs(np.array(xj) - xi)) * (max(xs) - min(xs))
    P = pw.PolyLine(*d)
    fd = form(c, *d)
    tol = dict(rtol=0, atol=1e-11 * 30 * (1 + max(xs) - min(xs)))
    c.close('integrate_x1_x2', c.call('int4', pw.integrate_x1_x2_y1_y2_between_xi_xj, *fd, xi, xj), w, **tol)
    c.close('pintegrate_x1_x2', c.call('int4', pw.pintegrate_x1_x2_y1_y2_between_xi_xj, P, xi, xj), w, **tol)
    c.close('avg_x1_x2', c.call('avg4', pw.avg_x1_x2_y1_y2_between_xi_xj, *fd, xi, xj), av, rtol=0, atol=at)
    c.close('pavg_x1_x2', c.call('avg4', pw.pavg_x1_x2_y1_y2_between_xi_xj, P, xi, xj), av, rtol=0, atol=at)
    c.close('pintegrate_x_y of 4', c.call('int', pw.pintegrate_x_y_between_xi_xj, P, xi, xj), w, **tol)


def common4(c, n, inc=True):
    d = split4(c, n, inc)
    e = split4(c, n, inc)
    e[0], e[1] = list(d[0]), list(d[1])
    return d, e


@group('units', quick=300, thorough=4000)
def units(c):
    # the same functions in other units and far from the origin (late, fast
    # loading; small or large values)
    x, y = gen(c)
    s, t = 2.0**c.i(-20, 14), 2.0**c.i(-45, 30)
    off = c.pick(0., 1., -1.) * s * 2.0**c.i(3, 17)
    x = [off + s * v for v in x]
    y = [t * v for v in y]
    xi = pts(c, x)
    xi = [off + 1.0 * s * round((v - off) / s, 4) if v not in x else v for v in xi]
    c.note(x=x, y=y, xi=xi)
    R = max(abs(v) for v in y)
    T = dict(rtol=0, atol=1e-7 * R)
    P = pw.PolyLine(x, y)
    for cm in (False, True):
        want = [ev(x, y, v, cm) for v in xi]
        c.close('interp_x_y', c.call('interp_x_y', pw.interp_x_y, *form(c, x, y), xi, choose_max=cm), want, **T)
        c.close('interp of x1x2', c.call('interp4', pw.pinterp_x1_x2_y1_y2, P, xi, choose_max=cm), [evseg(segs(x, y), v, cm) for v in xi], **T)
    n = len(x) - 1
    idx = range(n)
    con = lambda v, last: [i for i in idx if x[i] != x[i + 1] and min(x[i], x[i + 1]) <= v <= max(x[i], x[i + 1])]
    for cm in (False, True):
        got = c.call('containing', pw.segment_containing_xi, x, xi, choose_max=cm)
        for v, g in zip(xi, got):
            w = con(v, cm)
            c.true('segment_containing_xi', list(map(int, g)) == ([w[-1 if cm else 0]] if w else []), (v, g, w))
    p, q = intervals(c, x)
    w = np.array([integ(segs(x, y), a, b) for a, b in zip(p, q)])
    d = abs(np.array(q) - p)
    span = max(x) - min(x)
    c.close('integrate_x_y', c.call('int', pw.integrate_x_y_between_xi_xj, *form(c, x, y, p, q)), w, rtol=0, atol=1e-8 * R * span)
    c.close('integrate_x1_x2', c.call('int', pw.pintegrate_x1_x2_y1_y2_between_xi_xj, P, p, q), w, rtol=0, atol=1e-8 * R * span)
    k = d > 1e-3 * span
    if k.any():
        c.close('average', np.array(c.call('avg', pw.pavg_x_y_between_xi_xj, P, p, q))[k], (w / (np.array(q) - p))[k], rtol=0, atol=1e-4 * R)
    ramps = [i for i in range(n) if x[i] != x[i + 1] and y[i] != y[i + 1]]
    cons = [i for i in range(n) if x[i] != x[i + 1] and y[i] == y[i + 1]]
    steps = [i for i in range(n) if x[i] == x[i + 1] and y[i] != y[i + 1]]
    r = pw.ramps_constants_steps(x, y)
    c.true('ramps_constants_steps', all(list(map(int, a)) == b for a, b in zip(r, (ramps, cons, steps))), (r, ramps, cons, steps))
    c.true('has_steps', bool(pw.has_steps(x)) == any(a == b for a, b in zip(x[:-1], x[1:])))
    b4 = pw.convert_x_y_to_x1_x2_y1_y2(x, y)
    c.close('x_y -> x1_x2_y1_y2', np.array([np.array(v, float) for v in b4]).T, np.array([[float(v) for v in g] for g in segs(x, y)]), rtol=0)
    # products keep their precision near the origin only
    d4, e4 = common4(c, c.i(1, 5))
    k1, k2 = 2.0**c.i(-45, 30), 2.0**c.i(-45, 30)
    big = max(abs(v) for v in d4[0] + d4[1]) + 1
    slope = max([1.] + [abs((v - u) / (b - a)) for a, b, u, v in zip(*d4)]) * max([1.] + [abs((v - u) / (b - a)) for a, b, u, v in zip(*e4)])
    p, q = intervals(c, [d4[0][0]] + d4[1])
    w = np.array([integ(s4(*d4), a, b, s4(*e4)) for a, b in zip(p, q)])
    sx = lambda v: [s * u for u in v]
    A = [sx(d4[0]), sx(d4[1]), [k1 * u for u in d4[2]], [k1 * u for u in d4[3]]]
    B = [sx(e4[0]), sx(e4[1]), [k2 * u for u in e4[2]], [k2 * u for u in e4[3]]]
    g = c.call('product', pw.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between, *form(c, *A), *form(c, *B), sx(p), sx(q))
    c.close('integrate product', np.array(g) / (k1 * k2 * s), w, rtol=0, atol=1e-12 * slope * big ** 3 + 1e-10)


@group('products', quick=300, thorough=4000)
def products(c):
    n = c.i(1, 6)
    d, e = common4(c, n)
    xa, ya = gen(c)
    c.note(d=d, e=e, xa=xa, ya=ya)
    sd, se = s4(*d), s4(*e)
    xs = [d[0][0]] + d[1]
    xi, xj = intervals(c, xs)
    t = pts(c, xa, 5)
    w = np.array([integ(sd, a, b, se) for a, b in zip(xi, xj)])
    big = max(abs(v) for v in xs) + 1
    tol = dict(rtol=0, atol=1e-11 * 200 * big ** 3)
    slope = max([1.] + [abs((q - p) / (b - a)) for a, b, p, q in zip(*d)]) * max([1.] + [abs((q - p) / (b - a)) for a, b, p, q in zip(*e)])
    tol['atol'] = 1e-13 * slope * big ** 3 * 10 + 1e-10
    c.close('integrate product', c.call('prod', pw.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between, *(form(c, *d) + form(c, *e) + form(c, xi, xj))), w, **tol)
    A, B, C = pw.PolyLine(xa, ya), pw.PolyLine(*d), pw.PolyLine(*e)
    c.close('pintegrate product', c.call('prod', pw.pintegrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between, B, C, xi, xj), w, **tol)
    for cm in (False, True):
        f = np.array([ev(xa, ya, v, cm) for v in t])
        for bm in (True, False):
            g = np.array([evseg(sd, v, bm) for v in xi])
            k = dict(achoose_max=cm, bchoose_max=bm)
            if not cm and bm and c.coin():
                k = {}
            c.close('interp multiply', c.call('im', pw.interp_xa_ya_multipy_x1b_x2b_y1b_y2b, xa, ya, *d, t, xi, **k), g[:, None] * f, rtol=1e-10, atol=1e-9)
            c.close('pinterp multiply', c.call('im', pw.pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b, A, B, t, xi, **k), g[:, None] * f, rtol=1e-10, atol=1e-9)
        k = {} if not cm and c.coin() else dict(achoose_max=cm)
        av = np.array([integ(sd, a, b) for a, b in zip(xi, xj)]) / (np.array(xj) - xi)
        at = 1e-9 / min(1, min(abs(np.array(xj) - xi)))
        c.close('multiply avg', c.call('ma', pw.xa_ya_multipy_avg_x1b_x2b_y1b_y2b_between, xa, ya, *d, t, xi, xj, **k), av[:, None] * f, rtol=1e-10, atol=at)
        c.close('pmultiply avg', c.call('ma', pw.pxa_ya_multipy_avg_x1b_x2b_y1b_y2b_between, A, B, t, xi, xj, **k), av[:, None] * f, rtol=1e-10, atol=at)
        T = dict(rtol=0, atol=tol['atol'] * 5)
        c.close('multiply integrate', c.call('mi', pw.xa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between, xa, ya, *d, *e, t, xi, xj, **k), w[:, None] * f, **T)
        c.close('pmultiply integrate', c.call('mi', pw.pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between, A, B, C, t, xi, xj, **k), w[:, None] * f, **T)
        om, ph = c.u(-3, 6), c.u(-3, 3)
        cs = np.cos(om * np.array(t) + ph)
        c.close('cos multiply integrate', c.call('mi', pw.xa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between, xa, ya, om, ph, *d, *e, t, xi, xj, **k), w[:, None] * f * cs, **T)
        c.close('pcos multiply integrate', c.call('mi', pw.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between, A, om, ph, B, C, t, xi, xj, **k), w[:, None] * f * cs, **T)


@group('superposed', quick=120, thorough=1500)
def superposed(c):
    m = c.i(1, 3)
    cpl = split4(c, c.i(1, 4))
    lo, hi = cpl[0][0], cpl[1][-1]
    al, bl, sa, sb, om = [], [], [], [], []
    for k in range(m):
        xa, ya = gen(c)
        al.append((xa, ya))
        # b spans the same range, other interior break points (well apart)
        nb = c.i(1, 4)
        g = np.linspace(0, 1, nb + 1)
        x = lo + (hi - lo) * g
        y1, y2 = np.round(c.u(-3, 3, nb), 2), np.round(c.u(-3, 3, nb), 2)
        d = [list(map(float, v)) for v in (x[:-1], x[1:], y1, y2)]
        bl.append(d)
        om.append(None if c.coin(.4) else (c.u(-3, 3), c.u(-3, 3)))
    c.note(al=al, bl=bl, cpl=cpl, om=om)
    allx = sorted(set([v for d in bl + [cpl] for v in [d[0][0]] + d[1]]))
    if np.diff(allx).min() < 1e-3:
        return
    xi, xj = intervals(c, allx, 4)
    t = [c.u(-5, 20) for _ in range(4)]
    plain = np.zeros((len(xi), len(t)))
    cos = np.zeros((len(xi), len(t)))
    for (xa, ya), d, o in zip(al, bl, om):
        f = np.array([ev(xa, ya, v) for v in t])
        w = np.array([integ(s4(*d), a, b, s4(*cpl)) for a, b in zip(xi, xj)])
        plain += w[:, None] * f
        cos += w[:, None] * f * (1 if o is None else np.cos(o[0] * np.array(t) + o[1]))
    A = [pw.PolyLine(*v) for v in al]
    B = [pw.PolyLine(*v) for v in bl]
    C = pw.PolyLine(*cpl)
    sc = max(abs(v) for v in allx) + 1
    T = dict(rtol=1e-7, atol=1e-4 * 0 + 1e-9 * sc ** 3)
    one = m == 1 and c.coin()
    a, b, o = (A[0], B[0], om[0]) if one else (A, B, om)
    c.close('super', c.call('super', pw.pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super, a, b, C, t, xi, xj), plain, **T)
    c.close('super no cos', c.call('super', pw.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super, a, b, C, t, xi, xj), plain, **T)
    c.close('super cos', c.call('super', pw.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super, a, b, C, t, xi, xj, omega_phase=o), cos, **T)


@group('convert', quick=200, thorough=2000)
def convert(c):
    x, y = gen(c)
    c.note(x=x, y=y)
    r = c.call('to4', pw.convert_x_y_to_x1_x2_y1_y2, *form(c, x, y))
    c.close('x_y -> x1_x2_y1_y2', np.array([np.array(v, float) for v in r]).T, np.array([[float(v) for v in s] for s in segs(x, y)]), rtol=0)
    d = split4(c, inc=c.coin(.75))
    c.note(d=d)
    xx, yy = c.call('to2', pw.convert_x1_x2_y1_y2_to_x_y, *form(c, *d))
    wx, wy = [d[0][0]], [d[2][0]]
    for k in range(len(d[0])):
        if k and wy[-1] != d[2][k]:
            wx.append(d[0][k]); wy.append(d[2][k])
        wx.append(d[1][k]); wy.append(d[3][k])
    c.close('x1_x2_y1_y2 -> x_y', np.array([xx, yy], float), [wx, wy], rtol=0)
    back = pw.convert_x_y_to_x1_x2_y1_y2(xx, yy)
    c.close('round trip', np.array(back, float), np.array(d), rtol=0)
    # superfluous points removal keeps the function
    m = c.i(2, 10)
    x, y = gen(c, inc=True)
    X, Y = [x[0]], [y[0]]
    for a, b, p, q in zip(x[:-1], x[1:], y[:-1], y[1:]):
        if a != b:
            for k in range(1, c.i(1, 4)):
                f = k / 4.
                X.append(a + (b - a) * f); Y.append(p + (q - p) * f)
        X.append(b); Y.append(q)
    c.note(X=X, Y=Y)
    sx, sy = c.call('superfluous', pw.remove_superfluous_from_x_y, *form(c, X, Y))
    v = [t for t in pts(c, x, 10)]
    v = [t for t in v if min(abs(t - q) for q in x) > 1e-6]
    c.close('superfluous removal keeps values', [ev(list(map(float, sx)), list(map(float, sy)), t) for t in v], [ev(x, y, t) for t in v], rtol=0, atol=1e-6)
    c.true('superfluous end points', float(sx[0]) == X[0] and float(sx[-1]) == X[-1] and float(sy[0]) == Y[0] and float(sy[-1]) == Y[-1], (sx, sy))
    sl = [(float(q - p) / float(b - a)) if b != a else None for a, b, p, q in zip(sx[:-1], sx[1:], sy[:-1], sy[1:])]
    for k in range(len(sl) - 1):
        if sl[k] is not None and sl[k + 1] is not None:
            L = min(sx[k + 1] - sx[k], sx[k + 2] - sx[k + 1])
            c.true('no collinear point left', abs(sl[k] - sl[k + 1]) * L > 1e-12, (sx, sy, k))


@group('segments', quick=300, thorough=3000)
def segments(c):
    x, y = gen(c)
    c.note(x=x, y=y)
    n = len(x) - 1
    fx, fy = form(c, x, y)
    ramps = [i for i in range(n) if x[i] != x[i + 1] and y[i] != y[i + 1]]
    cons = [i for i in range(n) if x[i] != x[i + 1] and y[i] == y[i + 1]]
    steps = [i for i in range(n) if x[i] == x[i + 1] and y[i] != y[i + 1]]
    eq = lambda a, b: list(map(int, a)) == list(b)
    c.true('ramps', eq(pw.start_index_of_ramps(fx, fy), ramps), pw.start_index_of_ramps(fx, fy))
    c.true('constants', eq(pw.start_index_of_constants(fx, fy), cons), pw.start_index_of_constants(fx, fy))
    c.true('steps', eq(pw.start_index_of_steps(fx, fy), steps), pw.start_index_of_steps(fx, fy))
    r = pw.ramps_constants_steps(fx, fy)
    c.true('ramps_constants_steps', all(eq(a, b) for a, b in zip(r, (ramps, cons, steps))), r)
    xi = pts(c, x, 7)
    c.note(xi=xi)
    sub = None if c.coin(.6) else [i for i in range(n) if c.coin(.6)]
    idx = range(n) if sub is None else sub
    def contain(v, last):
        h = [i for i in idx if x[i] != x[i + 1] and min(x[i], x[i + 1]) <= v <= max(x[i], x[i + 1])]
        return [h[-1 if last else 0]] if h else []
    for cm in (False, True):
        got = c.call('containing', pw.segment_containing_xi, fx, xi, subset=sub, choose_max=cm)
        c.true('segment_containing_xi', [list(map(int, g)) for g in got] == [contain(v, cm) for v in xi], (got, sub, cm))
    a, b = pw.segment_containing_xi_also_containing_xj(fx, xi, xi[::-1], sub)
    c.true('containing xi also xj', [list(map(int, g)) for g in a] == [contain(v, True) for v in xi] and
           [list(map(int, g)) for g in b] == [contain(v, False) for v in xi[::-1]], (a, b))
    if x[0] <= x[-1]:
        for oe in (False, True):
            less = lambda v, ix, o: [i for i in ix if (x[i + 1] <= v if o else x[i + 1] < v)]
            s2 = None if sub is None or not len(sub) else sub
            i2 = range(n) if s2 is None else s2
            got = pw.segments_less_than_xi(fx, xi, subset=s2, or_equal_to=oe)
            c.true('segments_less_than_xi', [list(map(int, g)) for g in got] == [less(v, i2, oe) for v in xi], (got, s2, oe))
        so, ro, cm = c.coin(), c.coin(), c.coin()
        got = c.call('less', pw.segment_containing_also_segments_less_than_xi, fx, fy, xi, steps_or_equal_to=so, ramp_const_or_equal_to=ro, choose_max=cm)
        idx = range(n)
        want = ([less(v, ramps, ro) for v in xi], [less(v, cons, ro) for v in xi], [less(v, steps, so) for v in xi],
                [[i for i in contain(v, cm) if i in ramps] for v in xi], [[i for i in contain(v, cm) if i in cons] for v in xi])
        got = tuple([list(map(int, g)) for g in k] for k in got)
        c.true('containing also less than', got == tuple(want), (got, want))
        dflt = pw.segment_containing_also_segments_less_than_xi(fx, fy, xi)
        want = ([less(v, ramps, False) for v in xi], [less(v, cons, False) for v in xi], [less(v, steps, True) for v in xi],
                [[i for i in contain(v, False) if i in ramps] for v in xi], [[i for i in contain(v, False) if i in cons] for v in xi])
        c.true('containing also less than, defaults', tuple([list(map(int, g)) for g in k] for k in dflt) == tuple(want), dflt)
    # between
    p, q = intervals(c, x)
    idx = range(n)
    got = pw.segments_between_xi_and_xj(fx, p, q)
    for k, (a, b) in enumerate(zip(p, q)):
        i1, i2 = contain(a, True)[0], contain(b, False)[0]
        if i1 == i2:
            want = ([i1], [], [], [])
        else:
            want = ([], [i1], [i2], list(range(i1 + 1, i2)))
        c.true('segments_between', tuple(list(map(int, g[k])) for g in got) == want, (got, want, a, b))


@group('monotone', quick=300, thorough=3000)
def monotone(c):
    kind = c.i(0, 3)
    if kind == 0:
        x, y = gen(c)
    elif kind == 1:
        x = [float(c.i(0, 4)) for _ in range(c.i(2, 8))]
        y = [c.u(-1, 1) for _ in x]
    elif kind == 2:
        x, y = gen(c, steps=False)
    else:
        x = [int(v) for v in np.cumsum([c.i(0, 2) for _ in range(c.i(2, 7))])]
        y = [c.i(0, 5) for _ in x]
        if c.coin():
            x = x[::-1]
    if c.coin(.3):
        x, y = np.array(x), np.array(y)
    c.note(kind=kind, x=x, y=y)
    d = [b - a for a, b in zip(list(x)[:-1], list(x)[1:])]
    c.true('has_steps', bool(pw.has_steps(x)) == any(v == 0 for v in d))
    c.true('strictly_increasing', bool(pw.strictly_increasing(x)) == all(v > 0 for v in d))
    c.true('strictly_decreasing', bool(pw.strictly_decreasing(x)) == all(v < 0 for v in d))
    c.true('non_increasing', bool(pw.non_increasing(x)) == all(v <= 0 for v in d))
    c.true('non_decreasing', bool(pw.non_decreasing(x)) == all(v >= 0 for v in d))
    nz = [v for v in d if v]
    if not nz:
        return
    c.true('is_initially_increasing', bool(pw.is_initially_increasing(x)) == (nz[0] > 0))
    # parts
    runs = []
    for e in (False, True):
        got = pw.non_increasing_and_non_decreasing_parts(x, include_end_point=e)
        flat = []
        for k, A in enumerate(got):
            A = list(map(int, A))
            B = A[:-1] if e else A
            flat += B
            if e:
                c.true('part end point', A[-1] == B[-1] + 1 if B else False, got)
            s = set(np.sign(d[i]) for i in B) - {0}
            c.true('part is monotone', len(s) <= 1, got)
            runs.append(s)
        c.true('parts cover all segments once', flat == list(range(len(d))), got)
    sg = [s for s in runs[:len(got)] if s]
    c.true('parts are maximal', all(a != b for a, b in zip(sg[:-1], sg[1:])), got)
    mono = all(v <= 0 for v in d) or all(v >= 0 for v in d)
    bx, by = np.array(x).copy(), np.array(y).copy()
    eps = c.pick(1e-15, 1e-9, 1e-6)
    ends = c.coin()
    if not mono:
        c.raises('force_strictly_increasing rejects', ValueError, pw.force_strictly_increasing, x, y)
        c.raises('force_non_decreasing rejects', ValueError, pw.force_non_decreasing, x, y)
    else:
        xs, ys = list(map(float, x)), list(map(float, y))
        if xs[0] > xs[-1]:
            xs, ys = xs[::-1], ys[::-1]
        gx, gy = c.call('force_nd', pw.force_non_decreasing, x, y)
        c.close('force_non_decreasing', np.array([gx, gy], float), [xs, ys], rtol=0)
        dx = [v for v in np.diff(xs) if v > 0]
        big = max(abs(v) for v in xs)
        # eps must be resolvable and small with respect to the steps
        if eps * len(xs) < .1 * min(dx) and eps > 4e-16 * big or not any(v == 0 for v in d):
            gx, gy = c.call('force_si', pw.force_strictly_increasing, x, y, keep_end_points=ends, eps=eps)
            c.close('force_strictly_increasing y', gy, np.array(ys), rtol=0)
            c.close('force_strictly_increasing x', np.array(gx, float), xs, rtol=0, atol=1.01 * eps * len(xs) + 1e-15 * big)
            c.true('strictly increasing result', np.all(np.diff(gx) > 0), (gx, ends, eps))
            if ends and any(v == 0 for v in d):
                # upper member of each step is unmoved
                last = [i for i in range(len(xs)) if i == len(xs) - 1 or xs[i + 1] != xs[i]]
                c.true('keep_end_points keeps', all(float(gx[i]) == xs[i] for i in last), (gx, xs))
            elif any(v == 0 for v in d):
                first = [i for i in range(len(xs)) if i == 0 or xs[i - 1] != xs[i]]
                c.true('start points kept', all(float(gx[i]) == xs[i] for i in first), (gx, xs))
    c.true('arguments unchanged', np.array_equal(bx, np.array(x)) and np.array_equal(by, np.array(y)), (x, y))
