"""C10 PolyLine arithmetic and data-preparation helpers."""
import copy, operator
import numpy as np
from vh import group
import geotecha.piecewise.piecewise_linear_1d as pw
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from checks.c09 import gen, pts, ev, evseg, split4, s4, form

RULE = ('Random polylines (steps, plateaus, repeated points, either direction, given as pairs, two lists or four lists),'
        ' random operation chains, subdivision settings and layer sets; operands are snapshotted and compared afterwards.')
ASSUMPTIONS = ['Polyline combination merges abscissae closer than its documented tolerance (1e-5): generated abscissae are'
               ' further apart or equal, and the result is compared away from merged points to that tolerance.']


def mk(c, x, y):
    k = c.i(0, 3)
    if k == 0:
        return PolyLine(x, y)
    if k == 1:
        return PolyLine(np.array([x, y]).T)
    if k == 2:
        return PolyLine(list(zip(x, y)))
    return PolyLine(np.array(x), np.array(y))


def snap(p):
    return copy.deepcopy((np.array(p.xy), [np.array(v) for v in p.x1_x2_y1_y2], np.array(p.x), np.array(p.y)))


def same(a, b):
    f = lambda s: [s[0]] + s[1] + [s[2], s[3]]
    return all(np.array_equal(u, v) for u, v in zip(f(a), f(b)))


def grid(v):
    return [round(t, 3) for t in v]


def pl(c, **k):
    while True:
        x, y = gen(c, **k)
        x = grid(x)
        d = [abs(b - a) for a, b in zip(x[:-1], x[1:])]
        if min([1] + [v for v in d if v]) > 5e-3:
            return x, y


def mono_up(x, y):
    return (x, y) if x[-1] > x[0] else (x[::-1], y[::-1])


def inner_steps(x, y):
    """drop steps at the extreme ends: outside the data the polyline's value
    there is a matter of representation"""
    while len(x) > 2 and x[0] == x[1]:
        x, y = x[1:], y[1:]
    while len(x) > 2 and x[-1] == x[-2]:
        x, y = x[:-1], y[:-1]
    return x, y


@group('scalar ops', quick=300, thorough=4000)
def scalar_ops(c):
    x, y = pl(c)
    s = c.pick(c.u(-5, 5), c.i(-3, 4), np.float64(c.u(-2, 2)), 0, 1.5)
    c.note(x=x, y=y, s=repr(s))
    P = mk(c, x, y)
    b = snap(P)
    X, Y = np.array(x), np.array(y)
    ops = [('+', lambda: P + s, Y + s), ('r+', lambda: s + P, s + Y), ('-', lambda: P - s, Y - s), ('r-', lambda: s - P, s - Y),
           ('*', lambda: P * s, Y * s), ('r*', lambda: s * P, s * Y)]
    if s != 0:
        ops.append(('/', lambda: P / s, Y / s))
    if np.all(Y != 0):
        ops.append(('r/', lambda: s / P, s / Y))
    for name, f, w in ops:
        r = c.call(name, f)
        c.true(name + ' gives a PolyLine', isinstance(r, PolyLine), type(r))
        c.close(name + ' scalar', r.xy, np.array([X, w]).T, rtol=1e-14)
        c.true(name + ' leaves operand alone', same(b, snap(P)), (x, y, snap(P)))
        rx1, rx2, ry1, ry2 = r.x1_x2_y1_y2
        k = X[:-1] != X[1:]
        c.close(name + ' x1x2 view', [rx1, rx2, ry1, ry2], [X[:-1][k], X[1:][k], w[:-1][k], w[1:][k]], rtol=1e-14)
        if not isinstance(r, PolyLine):
            continue
        r.xy[:, 1] += 1  # result must not share storage with the operand
        c.true(name + ' result is independent', same(b, snap(P)), '')


@group('polyline ops', quick=600, thorough=8000)
def poly_ops(c):
    xa, ya = pl(c)
    xb, yb = pl(c)
    mode = c.i(0, 3)
    if mode == 0:   # share break points
        lo = min(xa)
        sh = c.pick(lo, xa[len(xa) // 2], lo - 5, max(xa), max(xa) + 3) - min(xb)
        xb = [v + sh for v in xb]
    elif mode == 1 and len(xb) > 1:
        # same abscissae
        xb = list(xa); yb = [round(c.u(-4, 4), 2) for _ in xa]
    xb = grid(xb)
    xa2, ya2 = inner_steps(*mono_up(xa, ya)); xb2, yb2 = inner_steps(*mono_up(xb, yb))
    allx = sorted(set(xa) | set(xb))
    if min(np.diff(allx)) < 1e-4:
        return
    if c.coin(.5):
        xa, ya = inner_steps(xa, ya); xb, yb = inner_steps(xb, yb)
    # values in any unit
    tt = 2.0**c.i(-45, 30) if c.coin(.4) else 1.0
    ya, yb = [v * tt for v in ya], [v * tt for v in yb]
    c.note(xa=xa, ya=ya, xb=xb, yb=yb)
    A, B = mk(c, xa, ya), mk(c, xb, yb)
    a0, b0 = snap(A), snap(B)
    lo, hi = allx[0], allx[-1]
    v = [lo + (hi - lo) * t for t in c.u(0, 1, 25)]
    v += [(p + q) / 2 for p, q in zip(allx[:-1], allx[1:])]
    v += [p + 1e-4 * (q - p) for p, q in zip(allx[:-1], allx[1:])] + [q - 1e-4 * (q - p) for p, q in zip(allx[:-1], allx[1:])]
    v = [t for t in v if min(abs(t - q) for q in allx) > 2.1e-5]
    if not v:
        return
    E = lambda x, y, t: ev(*(mono_up(x, y) + (t,)))
    # outside its own data a polyline takes its first or last value; an end
    # step makes that the outermost value
    fa = np.array([E(xa, ya, t) for t in v]); fb = np.array([E(xb, yb, t) for t in v])
    from checks.c09 import segs
    endstep = any(p[0] == p[1] or p[-1] == p[-2] for p in (xa, xb))
    sl = 1 + max([abs(float((s[3] - s[2]) / (s[1] - s[0]))) for s in segs(xa, ya) + segs(xb, yb)])
    for nm, op in (('+', operator.add), ('-', operator.sub)):
        r = c.call(nm, op, A, B)
        c.true('%s gives monotone abscissae' % nm, np.all(np.diff(r.x) >= 0), r.x)
        got = pw.interp_x_y(r.x, r.y, v)
        want = op(fa, fb)
        if endstep:
            # inside the common range only: the representation cannot carry
            # steps at an end into the region beyond it
            ok = np.array([max(min(xa), min(xb)) < t < min(max(xa), max(xb)) for t in v])
            if not ok.any():
                continue
            got, want = got[ok], want[ok]
        c.close('poly %s poly' % nm, got, want, rtol=1e-9, atol=3e-5 * tt)
        # values on nodes: approached from both sides
        c.true('%s operands unchanged' % nm, same(a0, snap(A)) and same(b0, snap(B)), '')
        c.true('%s nodes' % nm, all(min(abs(r.x - q)) < 2e-5 for q in (allx[0], allx[-1])), r.x)
        if isinstance(r, PolyLine):
            r.xy[:, 1] += 3
            c.true('%s result independent' % nm, same(a0, snap(A)) and same(b0, snap(B)), '')
    d = c.call('-', operator.sub, A, B)
    e = c.call('-', operator.sub, B, A)
    c.close('a-b = -(b-a)', pw.interp_x_y(d.x, d.y, v), -pw.interp_x_y(e.x, e.y, v), rtol=1e-9, atol=1e-9 * tt)
    z = c.call('-', operator.sub, A, A)
    c.close('a-a = 0', z.y, np.zeros(len(z.y)), atol=1e-9)
    for nm, op in (('*', operator.mul), ('/', operator.truediv)):
        c.raises('poly %s poly' % nm, TypeError, op, A, B)


@group('views', quick=200, thorough=2000)
def views(c):
    d = split4(c, inc=c.coin(.8))
    c.note(d=d)
    P = PolyLine(*form(c, *d))
    if c.coin():
        P.xy
    c.close('x1 x2 y1 y2 kept', [P.x1, P.x2, P.y1, P.y2], d, rtol=0)
    xx, yy = pw.convert_x1_x2_y1_y2_to_x_y(*d)
    c.close('xy view', P.xy, np.array([xx, yy]).T, rtol=0)
    c.close('x, y views', [P.x, P.y], [xx, yy], rtol=0)
    Q = PolyLine(xx, yy)
    c.close('back view', np.array(Q.x1_x2_y1_y2), np.array(d), rtol=0)
    c.true('equal', (P == Q) and not (P != Q))
    for R in (copy.copy(P), copy.deepcopy(P)):
        c.true('copy equal', (R == P) and not (R != P))
        c.close('copy same data', R.xy, P.xy, rtol=0)
    R = copy.deepcopy(P)
    R.xy[c.i(0, len(xx) - 1), c.i(0, 1)] += c.pick(1e-2, -3.)
    c.true('changed copy differs', (R != P) and not (R == P))
    c.close('deep copy independent', P.xy, np.array([xx, yy]).T, rtol=0)
    k = c.i(0, len(xx) - 1)
    y2 = np.array(yy, float); y2[k] += 1e-3
    c.true('different y differs', PolyLine(xx, y2) != P)
    x2 = np.array(xx, float) + 1e-3
    c.true('different x differs', PolyLine(x2, yy) != P)
    c.true('within tolerance equal', PolyLine(xx, np.array(yy) + 5e-7) == P)
    c.true('different length differs', PolyLine(list(xx) + [xx[-1] + 1], list(yy) + [0]) != P)
    rr = eval(repr(P).replace('array', 'np.array'), dict(PolyLine=PolyLine, np=np))
    c.close('repr evaluates to the same', rr.xy, P.xy, rtol=1e-7, atol=1e-8)
    bad = [((1, 2, 3), (1, 2)), ((1,), (2,)), (([1, 2], [3, 4]), ([1],), ([2],)), ([[1, 2, 3], [3, 4, 5]],), ([[1, 2]],), ([1, 2], [2, 3], [1, 2], [1])]
    c.raises('bad data rejected', TypeError, PolyLine, *bad[c.i(0, len(bad) - 1)])
    # construction does not tie the polyline to its caller's lists, nor alter them
    x, y = np.array(xx, float), np.array(yy, float)
    p = PolyLine(x, y)
    x[0] += 100
    c.close('two-argument data are copied', p.xy, np.array([xx, yy]).T, rtol=0)


@group('common', quick=300, thorough=4000)
def common(c):
    m = c.i(1, 4)
    ls = [pl(c) for _ in range(m)]
    if c.coin():
        off = [c.pick(0., 1., -2.) for _ in ls]
        ls = [([round(v - x[0] + o, 3) for v in x], y) for (x, y), o in zip(ls, off)]
    allx = sorted(set(v for x, y in ls for v in x))
    if len(allx) < 2 or min(np.diff(allx)) < 1e-4:
        return
    tt = [2.0**c.i(-45, 30) if c.coin(.4) else 1.0 for _ in ls]
    ls = [(x, [v * k for v in y]) for (x, y), k in zip(ls, tt)]
    c.note(ls=ls)
    P = [mk(c, x, y) for x, y in ls]
    b = [snap(p) for p in P]
    R = c.call('common', pw.polyline_make_x_common, *P)
    if m == 1:
        c.true('single line returned', R == P[0])
        return
    c.true('as many lines', len(R) == m)
    v = [allx[0] + (allx[-1] - allx[0]) * t for t in c.u(0, 1, 15)] + [(p + q) / 2 for p, q in zip(allx[:-1], allx[1:])]
    v = [t for t in v if min(abs(t - q) for q in allx) > 2.1e-5]
    for (x, y), r, k in zip(ls, R, tt):
        ux = np.unique(r.x)
        c.close('abscissae are the union', ux, allx, rtol=0, atol=1.1e-5)
        x, y = mono_up(x, y)
        ends = x[0] == x[1] or x[-1] == x[-2]
        w = [t for t in v if x[0] < t < x[-1]] if ends else v
        if w:
            c.close('same function', pw.interp_x_y(r.x, r.y, w), [ev(x, y, t) for t in w], rtol=1e-9, atol=3e-5 * k)
    c.true('x1/x2 of all equal', all(np.allclose(r.x1, R[0].x1) and np.allclose(r.x2, R[0].x2) for r in R))
    c.true('lines unchanged', all(same(s, snap(p)) for s, p in zip(b, P)))
    sw = PolyLine([0, 1, .5], [0, 1, 2])
    c.raises('switchback rejected', TypeError, pw.polyline_make_x_common, P[0], sw)


@group('subdivide', quick=400, thorough=5000)
def subdivide(c):
    x, y = gen(c)
    logx, logy = c.coin(.3), c.coin(.2)
    lz, ly = c.pick(.1, .01), c.pick(.1, .02)
    if logx:
        x = [abs(v - min(x)) + c.pick(0, 1, .3) for v in x]
        if c.coin(.4):
            m = min(x); x = [v - m for v in x]
        x = [v if v == 0 or v > 2e-1 else v + .2 for v in x]
    if logy:
        y = [abs(v) if abs(v) > 1e-2 else 0. for v in y]
    def lg(v, z):
        return [np.log10(z if abs(t) < 1e-7 else t) for t in v]
    X = lg(x, lz) if logx else list(x)
    Y = lg(y, ly) if logy else list(y)
    span = max(X) - min(X)
    if span == 0:   # no extent: nothing to subdivide
        return
    dx = None if c.coin(.4) else span / c.u(1, 30)
    ms = c.i(1, 4)
    jb = None if c.coin(.5) else c.pick(1e-6, 1e-3, .05)
    kw = dict(dx=dx, min_segments=ms, just_before=jb, logx=logx, logxzero=lz)
    if ms == 2 and c.coin():
        kw.pop('min_segments')
    kwy = dict(kw, logy=logy, logyzero=ly)
    c.note(x=x, y=y, kw=kwy)
    ax, ay = form(c, x, y)
    bx, by = copy.deepcopy(ax), copy.deepcopy(ay)
    gx, gy = c.call('subdivide_x_y', pw.subdivide_x_y_into_segments, ax, ay, **kwy)
    g2 = c.call('subdivide_x', pw.subdivide_x_into_segments, ax, **kw)
    c.true('arguments unchanged', np.array_equal(ax, bx) and np.array_equal(ay, by))
    c.close('x same in both', g2, gx, rtol=1e-14, atol=1e-14)
    gX = np.log10(gx) if logx else np.array(gx)
    gY = np.log10(gy) if logy else np.array(gy)
    # walk through the original segments
    k = 0
    n = len(gX)
    tol = 1e-9 * (span + max(abs(v) for v in X) + 1)
    okall = True
    for s in range(len(X) - 1):
        a, b = X[s], X[s + 1]
        L = abs(b - a)
        if dx is None:
            cand = {ms, max(ms, 0)}
        else:
            f = L / dx
            cand = {max(ms, int(np.floor(f + 1e-9))), max(ms, int(np.floor(f - 1e-9)))}
            if b < a:
                cand |= {max(ms, int(np.ceil(f + 1e-9))), max(ms, int(np.ceil(f - 1e-9)))}
        ok = False
        for num in cand:
            fr = np.arange(num) / num if jb is None else np.arange(num + 1) / num * (1 - jb)
            if k + len(fr) <= n and np.allclose(gX[k:k + len(fr)], a + fr * (b - a), rtol=0, atol=tol) and \
                    np.allclose(gY[k:k + len(fr)], Y[s] + fr * (Y[s + 1] - Y[s]), rtol=0, atol=1e-9 * (1 + max(map(abs, Y)))):
                nxt = k + len(fr)
                if nxt < n and abs(gX[nxt] - b) <= tol:
                    ok = True
                    break
        if not ok:
            okall = False
            break
        k = nxt
    c.true('segments evenly divided as requested', okall, (s, a, b, dx, k, gX[k:k + 6].tolist(), len(gX)))
    if okall:
        c.true('ends at last point', k == n - 1 and abs(gX[-1] - X[-1]) <= tol and abs(gY[-1] - Y[-1]) < 1e-9 * (1 + max(map(abs, Y))))


@group('layers', quick=200, thorough=2000)
def layers(c):
    n = c.i(1, 7)
    h = [c.pick(float(c.i(1, 5)), round(c.logu(.05, 20), 2)) for _ in range(n)]
    sg, ms = c.i(1, 40), c.i(1, 5)
    c.note(h=h, segs=sg, min_segs=ms)
    a = form(c, h)[0]
    b = copy.deepcopy(a)
    z = c.call('layer_coords', pw.layer_coords, a, sg, ms) if c.coin(.8) or ms != 1 else c.call('layer_coords', pw.layer_coords, a, sg)
    c.true('argument unchanged', np.array_equal(a, b))
    z = np.array(z, float)
    e = np.concatenate([[0], np.cumsum(h)])
    dx = sum(h) / sg
    k = 0
    for i in range(n):
        j = int(np.argmin(abs(z - e[i + 1])))
        c.true('layer boundary present', abs(z[j] - e[i + 1]) < 1e-9 * e[-1], (z, e))
        part = z[k:j + 1]
        num = len(part) - 1
        f = h[i] / dx
        c.true('segments in layer', num in (max(ms, int(np.floor(f + 1e-7))), max(ms, int(np.floor(f - 1e-7)))), (num, f, ms))
        c.close('layer evenly divided', part, np.linspace(e[i], e[i + 1], num + 1), rtol=0, atol=1e-9 * e[-1])
        k = j
    c.true('nothing after the last layer', k == len(z) - 1, z)
    n = c.i(2, 20)
    H = c.pick(c.u(.1, 20), 1.0, 3)
    p = c.pick(1, 1.0, 2, c.u(.5, 2), .5)
    sy = c.coin()
    c.note(n=n, H=H, p=p, sy=sy)
    r = np.array(c.call('elements', pw.subdivide_into_elements, n=n, h=H, p=p, symmetry=sy), float)
    c.true('number of elements', r.shape == (n,))
    c.close('elements sum to h', r.sum(), H, rtol=1e-10)
    c.true('positive', np.all(r > 0), r)
    if sy and p != 1:
        c.close('symmetric', r, r[::-1], rtol=1e-10)
        m = (n + 1) // 2
        c.close('ratio', r[1:m] / r[:m - 1], np.full(m - 1, float(p)), rtol=1e-9)
    else:
        c.close('ratio', r[1:] / r[:-1], np.full(n - 1, float(p)), rtol=1e-9)
    c.raises('bad ratio', ValueError, pw.subdivide_into_elements, n=n, h=H, p=-1)
    c.raises('bad n', ValueError, pw.subdivide_into_elements, n=1, h=H, p=2)
