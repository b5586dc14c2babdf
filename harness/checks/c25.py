"""C25: beams on foundations (spectral beam, Ding et al) and moving load helpers."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import block_diag
from vh import group
from beamcase import poly, vehicles, stationary, force, config, build, drop
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from geotecha.beam_on_foundation import specbeam as sb
from geotecha.beam_on_foundation.dingetal2012 import DingEtAl2012

RULE = ('Random beams (uniform and piecewise linear properties, normalised or dimensional input), random groups of moving loads in both directions and stationary '
        '(ramped, stepped, cyclic) loads: deflections against an independent Galerkin solution (own quadrature, own time integration split at every load event); '
        'superposition, mirror image, causality; moving load helpers against their definitions; infinite beam formulas against their differential equation.')
ASSUMPTIONS = ['No axle is on the beam before the first time.', 'Ding et al: trial functions of simply supported and clamped beams; few enough terms for the 30 point rule '
               'to resolve the cubic term.', 'Infinite beam: damped or below the critical velocity.']

GX, GW = np.polynomial.legendre.leggauss(24)


def nodes(breaks, nterms):
    e = np.unique(np.r_[0, breaks, 1])
    e = np.unique(np.concatenate([np.linspace(a, b, 2 + int((b - a) * nterms)) for a, b in zip(e[:-1], e[1:])]))
    h = np.diff(e) / 2
    x = ((e[1:] + e[:-1]) / 2)[:, None] + h[:, None] * GX
    return x.ravel(), (h[:, None] * GW).ravel()


class Beam(object):
    """own Galerkin solution; properties f(x), foundation numbers, loads as force(t) -> list of (x, p)"""

    def __init__(self, n, props, breaks, kf, mu, k1, k3=0.):
        self.b = np.pi * np.arange(1, n + 1)
        x, w = nodes(breaks, n)
        S = np.sin(np.outer(self.b, x))
        p = {k: f(x) for k, f in props.items()}
        I = lambda q: (S * (w * q)) @ S.T
        bb = self.b ** 2
        self.M = I(p['rho'] * p['A'])
        self.K = kf ** 2 * np.outer(bb, bb) * I(p['E'] * p['I']) + k1 * I(p['k1'])
        self.C = mu * I(p['mu'])
        self.n = n
        self.S, self.w3 = S, w * p['k3'] * k3
        self.k3 = k3

    def solve(self, events, force, t, rtol=1e-9):
        n, b = self.n, self.b
        Mi = np.linalg.inv(self.M)
        out = np.zeros((n, len(t)))
        y, a = np.zeros(2 * n), 0.
        ev = [v for v in np.unique(np.r_[events, t[-1]]) if 0 < v <= t[-1]]
        big = max(1e-14, self.scale)
        for e in ev:
            mid = (a + e) / 2

            def rhs(tt, y):
                f = np.zeros(n)
                for x, p in force(tt, mid):
                    f += p * np.sin(b * x)
                f -= self.K @ y[:n] + self.C @ y[n:]
                if self.k3:
                    f -= self.S @ (self.w3 * (y[:n] @ self.S) ** 3)
                return np.r_[y[n:], Mi @ f]
            k = (t > a) & (t <= e)
            te = np.unique(np.r_[t[k], e])
            r = solve_ivp(rhs, (a, e), y, method='DOP853', t_eval=te, rtol=rtol, atol=big * 1e-10)
            out[:, np.flatnonzero(k)] = r.y[:n][:, np.searchsorted(te, t[k])]
            y, a = r.y[:, -1], e
        return out


@group('spectral beam', quick=240, thorough=5000, cpu=60)
def spectral(c):
    n, pl, props, br, kf, k1, mu, tend = config(c)
    mv, ms = c.pick((1, 0), (2, 0), (0, 1), (0, 2), (1, 1))
    veh, own = vehicles(c, mv, tend)
    sta, own2 = stationary(c, ms, tend)
    own = own + own2
    t = np.r_[0, np.sort(c.u(0, 1, c.i(2, 8))) * tend, tend]
    x = np.r_[0, np.sort(c.u(0, 1, c.i(1, 5))), 1]
    dim = c.coin(.4)
    full = dict((k, list(v)) for k, v in veh.items())
    c.note(n=n, kf=kf, k1=k1, mu=mu, tend=tend, veh=veh if mv else None, sta=(sta['x'], sta['omega_phase']), dim=dim, bars={k: (v.x, v.y) for k, v in pl.items()})
    drop2 = dict(veh) if mv else None, dict(sta) if ms else None
    if not dim:
        drop(c, *drop2)
    kw = build(c, n, pl, kf, k1, mu, tend, drop2[0], drop2[1], t, x, dim)
    if c.coin(.3):
        kw['k3' if dim else 'k3_norm'] = 0
    a = c.call('SpecBeam', sb.SpecBeam, use_analytical=True, force_calc=True, **kw)
    c.call('runme', a.runme)
    B = Beam(n, props, br, kf, mu, k1)
    B.scale = 1e-4 / k1
    q = B.solve(np.array([v for o in own for v in o[2:]]), force(own), t)
    want = np.sin(np.outer(x, B.b)) @ q
    sc = np.max(np.abs(want)) + 1e-5 * B.scale
    c.close('deflection', np.reshape(a.defl_norm, want.shape), want, rtol=0, atol=5e-5 * sc)
    c.close('pinned ends', np.reshape(a.defl_norm, want.shape)[[0, -1]], 0 * want[[0, -1]], rtol=0, atol=1e-12 * sc + 1e-18)
    c.close('at rest at first', np.reshape(a.defl_norm, want.shape)[:, 0], 0 * want[:, 0], rtol=0, atol=1e-9 * sc)
    if dim:
        c.close('not normalised', a.defl, np.asarray(a.defl_norm) * kw['L'], rtol=1e-12)
    if c.coin(.35) and n <= 4:
        kw.pop('k3', None), kw.pop('k3_norm', None)
        b = sb.SpecBeam(use_analytical=False, force_calc=True, **kw)
        b.time_independant_matrices()
        b.tvals_norm = b.t_norm = np.unique(np.r_[np.linspace(0, tend, 200), t])     # keep the integrator from stepping over the loads
        hmax = tend / 400
        b.calulate_qk(t_norm=b.tvals_norm, rtol=1e-8, atol=1e-9 * B.scale, hmax=hmax, mxstep=5000)
        w = b.wofx(x_norm=x)[:, np.searchsorted(b.t_norm, t)]
        c.close('time stepping', w, want, rtol=0, atol=2e-3 * sc)
    if mv:
        c.call('under the loads', a.defl_vs_time_under_loads)
        i = c.i(0, mv - 1)
        m = np.asarray(a.moving_load_w_norm[i])
        v, x0, L = full['v'][i], full['x0'][i], full['L'][i]
        xs = np.array(full['x'][i]) + full['offset'][i]
        pos = (x0 if v > 0 else x0 + L) + np.sign(v) * xs[:, None] + v * (t - full['t0'][i])
        d = np.reshape(a.defl_norm, want.shape)
        exp = np.array([[np.interp(p, x, d[:, j]) if 0 <= p <= 1 else np.nan for j, p in enumerate(r)] for r in pos])
        edge = np.min(np.abs(np.subtract.outer(pos, [0, 1])), axis=-1) < 1e-9
        exp[edge] = m[edge]
        c.close('deflection under the loads', m, exp, rtol=1e-6, atol=1e-9 * sc)


@group('spectral beam laws', quick=120, thorough=2500, cpu=40)
def laws(c):
    n, pl, props, br, kf, k1, mu, tend = config(c, nmax=8)
    t = np.r_[0, np.sort(c.u(0, 1, c.i(2, 6))) * tend]
    x = np.sort(c.u(0, 1, c.i(2, 6)))
    veh, _ = vehicles(c, c.i(1, 3), tend)
    sta, _ = stationary(c, c.i(1, 2), tend)
    kind = c.pick('superposition', 'scale', 'mirror', 'causal', 'implementation', 'dimensions', 'uniform')
    c.note(kind=kind, n=n, kf=kf, k1=k1, mu=mu, tend=tend, veh=veh)

    def run(veh=None, sta=None, pl=pl, x=x, **kw):
        o = dict(kf=kf, mu_norm=mu, k1_norm=k1, tvals_norm=t, xvals_norm=x, nterms=n, **pl)
        if veh:
            o.update({'moving_loads_%s_norm' % k: v for k, v in veh.items()})
        if sta:
            o.update({'stationary_loads_%s_norm' % k: v for k, v in sta.items()})
        o.update(kw)
        a = c.call('SpecBeam', sb.SpecBeam, use_analytical=True, force_calc=True, **o)
        c.call('runme', a.runme)
        return np.asarray(a.defl_norm)
    w = run(veh, sta)
    sc = np.max(np.abs(w)) + 1e-9 / k1
    if kind == 'superposition':
        parts = sum(run({k: [v[i]] for k, v in veh.items()}) for i in range(len(veh['v']))) + sum(run(None, {k: [v[i]] for k, v in sta.items()}) for i in range(len(sta['x'])))
        c.close(kind, w, parts, rtol=0, atol=1e-9 * sc)
        axles = [{k: ([[v[i][j]]] if k in ('x', 'Fz') else [v[i]]) for k, v in veh.items()} for i in range(len(veh['v'])) for j in range(len(veh['x'][i]))]
        c.close('axle by axle', run(veh), sum(run(a) for a in axles), rtol=0, atol=1e-9 * sc)
    elif kind == 'scale':
        k = c.logu(.01, 100) * c.pick(1, 1, 1e-9, 1e4, 1e8) * c.pick(-1, 1)
        c.close(kind, run(dict(veh, Fz=[[k * q for q in v] for v in veh['Fz']]), dict(sta, vs_t=[PolyLine(v.x, k * v.y) for v in sta['vs_t']])), k * w, rtol=0, atol=1e-9 * sc * abs(k))
    elif kind == 'mirror':
        flip = lambda p: PolyLine(list(1 - p.x[::-1]), list(p.y[::-1]))
        w2 = run(dict(veh, v=[-v for v in veh['v']], x0=[1 - a - b for a, b in zip(veh['x0'], veh['L'])]), dict(sta, x=[1 - v for v in sta['x']]),
                 {k: flip(v) for k, v in pl.items()}, 1 - x[::-1])
        c.close(kind, w2[::-1], w, rtol=0, atol=1e-8 * sc)
    elif kind == 'causal':
        tc = c.u(.2, .8) * tend
        late = dict(veh, t0=[max(v, tc) for v in veh['t0']])
        w2 = run(late)
        k = t <= tc
        c.close('nothing before the loads', w2[:, k], 0 * w2[:, k], rtol=0, atol=1e-9 * sc)
    elif kind == 'implementation':
        c.close(kind, run(veh, sta, implementation='scalar'), run(veh, sta, implementation="vectorized"), rtol=0, atol=1e-7 * sc)
    elif kind == 'dimensions':
        v2, s2 = dict(veh), dict(sta)
        kw = build(c, n, pl, kf, k1, mu, tend, v2, s2, t, x, True)
        a = sb.SpecBeam(use_analytical=True, force_calc=True, **kw)
        a.runme()
        c.close(kind, a.defl_norm, w, rtol=0, atol=1e-8 * sc)
        c.close('dimensional', a.defl, w * kw['L'], rtol=0, atol=1e-8 * sc * kw['L'])
        L = kw['L']
        for p, q in zip(a.moving_loads, a.moving_loads_norm):
            tq = c.u(0, tend)
            X, P = p.point_loads_on_beam(tq * L * np.sqrt(kw['rho'] / kw['E']))
            Y, Q = q.point_loads_on_beam(tq)
            c.close('dimensional positions', X, Y * L, rtol=0, atol=1e-8 * L)
    else:
        one = PolyLine([0, .3, 1], [1, 1, 1])
        c.close('uniform as a polyline', run(veh, sta, {k + 'bar': one for k in ('E', 'I', 'rho', 'A', 'k1', 'mu')}), run(veh, sta, {}), rtol=0, atol=1e-8 * sc)


@group('cubic foundation', quick=60, thorough=900, cpu=60)
def cubic(c):
    kind = c.pick('spec', 'SS', 'CC')
    n = c.i(1, 3)
    kf = c.logu(.02, .3)
    w1 = kf * np.pi ** 2 * (2.2 if kind == 'CC' else 1)
    k1 = w1 ** 2 * c.logu(.05, 10)
    wn = np.sqrt(w1 ** 2 + k1)
    mu = wn * c.logu(.05, 2)
    tend = 2 * np.pi / wn * c.u(.5, 2)
    F = 1e-2
    size = F / (w1 ** 2 + k1) * 2
    k3 = c.pick(0., k1 / size ** 2 * c.logu(.05, 2))
    t = np.linspace(0, tend, 25)
    x = np.sort(c.u(.1, .9, 3))
    v = c.u(.3, 2.5) / tend
    c.note(kind=kind, n=n, kf=kf, k1=k1, mu=mu, k3=k3, v=v, tend=tend)
    one = lambda x: np.ones_like(x)
    props, br, pl = dict.fromkeys(('E', 'I', 'rho', 'A', 'k1', 'mu', 'k3'), one), [], {}
    if kind == 'spec' and c.coin():
        for k in ('k1', 'k3'):
            v0, v1 = c.u(.5, 2, 2)
            pl[k + 'bar'] = PolyLine([0, 1], [v0, v1])
            props[k] = lambda x, v0=v0, v1=v1: v0 + (v1 - v0) * x
    B = Beam(n, props, br, kf, mu, k1, k3)
    B.scale = size
    if kind == 'CC':                                   # own clamped functions
        from scipy.optimize import brentq
        b = np.array([brentq(lambda q: np.cos(q) - 1 / np.cosh(q), (m + .5) * np.pi - .3, (m + .5) * np.pi + .3, xtol=1e-13) for m in range(1, n + 1)])
        xi = (np.cosh(b) - np.cos(b)) / (np.sinh(b) - np.sin(b))
        phi = lambda x: np.cosh(np.outer(b, x)) - np.cos(np.outer(b, x)) - xi[:, None] * (np.sinh(np.outer(b, x)) - np.sin(np.outer(b, x)))
        gx, gw = nodes([], 12 * n + 8)
        B.S, B.w3 = phi(gx), gw * k3
        B.M, B.C, B.K = np.eye(n), mu * np.eye(n), np.diag(kf ** 2 * b ** 4 + k1)
    else:
        phi = lambda x: np.sin(np.outer(B.b, x))
    y, te = np.zeros(2 * n), 1 / v
    out = np.zeros((n, len(t)))

    Mi = np.linalg.inv(B.M)

    def rhs(on):
        def f(tt, y):
            g = F * phi([v * tt])[:, 0] if on else np.zeros(n)
            g = g - B.K @ y[:n] - B.C @ y[n:] - B.S @ (B.w3 * (y[:n] @ B.S) ** 3)
            return np.r_[y[n:], Mi @ g]
        return f
    a = 0
    for e, on in ((min(te, tend), 1), (tend, 0)):
        if e <= a:
            break
        k = (t > a) & (t <= e)
        T = np.unique(np.r_[t[k], e])
        r = solve_ivp(rhs(on), (a, e), y, method='DOP853', rtol=1e-9, atol=size * 1e-10, t_eval=T)
        out[:, k] = r.y[:n][:, np.searchsorted(T, t[k])]
        y, a = r.y[:, -1], e
    want = phi(x).T @ out
    sc = np.max(np.abs(want)) + 1e-6 * size
    tol = 2e-2 if kind == 'CC' and n == 3 else 2e-3   # the 30 point rule resolves fewer clamped functions
    opts = dict(rtol=1e-8, atol=1e-9 * size, hmax=tend / 200, mxstep=5000)
    if kind == 'spec':
        a = c.call('SpecBeam', sb.SpecBeam, nterms=n, kf=kf, k1_norm=k1, mu_norm=mu, k3_norm=k3, moving_loads_x_norm=[[0.]], moving_loads_Fz_norm=[[F]],
                   moving_loads_v_norm=[v], tvals_norm=t, xvals_norm=x, use_analytical=False, force_calc=True, **pl)
        c.call('calulate_qk', a.calulate_qk, t_norm=t, **opts)
        got = a.wofx(x_norm=x)
    else:
        kw = dict(BC=kind, nterms=n)
        if c.coin():
            L, E, A, rho = c.u(5, 50), c.logu(1e6, 1e11), c.logu(.01, 2), c.logu(500, 8000)
            kw.update(E=E, I=(kf * L) ** 2 * A, rho=rho, A=A, L=L, k1=k1 * E * A / L ** 2, k3=k3 * E * A / L ** 4, mu=mu * A * np.sqrt(rho * E) / L,
                      Fz=F * E * A, v=v * np.sqrt(E / rho))
            a = c.call('Ding', DingEtAl2012, **kw)
            c.call('calulate_qk', a.calulate_qk, t=t * L * np.sqrt(rho / E), **opts)
            c.close('not normalised', a.wofx(x=x * L, normalise_w=False), want * L, rtol=0, atol=tol * sc * L)
        else:
            kw.update(kf=kf, k1_norm=k1, k3_norm=k3, mu_norm=mu, Fz_norm=F, v_norm=v)
            if c.coin(.1) and n < 3:
                kw['nquad'] = None
            a = c.call('Ding', DingEtAl2012, **kw)
            c.call('calulate_qk', a.calulate_qk, t_norm=t, **opts)
        got = a.wofx(x_norm=x)
        c.close('one point', a.wofx(x_norm=x[0]), got[0], rtol=1e-12)
        c.close('time slice', a.wofx(x_norm=x, tslice=slice(-1, None)), got[:, -1:], rtol=1e-12)
        if kind == 'CC':
            xx = np.r_[0, 1]
            c.close('clamped ends', a.wofx(x_norm=xx), np.zeros((2, len(t))), rtol=0, atol=1e-9 * sc)
    c.close('deflection', got, want, rtol=0, atol=tol * sc)


@group('free ends', quick=2, thorough=4, cpu=10)
def free(c):
    a = c.call('Ding', DingEtAl2012, BC='FF', nterms=3, kf=.1, k1_norm=1., k3_norm=0., mu_norm=.1, Fz_norm=1e-3, v_norm=.1)
    c.call('calulate_qk', a.calulate_qk, t_norm=np.linspace(0, 1, 3))
    c.note(BC='FF')
    c.true('free beam gives numbers', np.all(np.isfinite(a.wofx(x_norm=np.array([.2, .6])))), 'nan')


# ------------------------------------------------------------------ helpers
@group('moving loads', quick=300, thorough=6000, cpu=10)
def moving(c):
    k = c.i(1, 5)
    x = np.r_[0., -np.cumsum(c.u(.5, 8, k - 1))] if c.coin() else c.u(-20, 0, k)
    p = c.u(-10, 10, k)
    off = c.pick(0, -c.u(0, 5), c.u(0, 5))
    v = c.logu(.5, 50) * c.pick(-1, 1)
    L, t0, x0 = c.u(5, 100), c.pick(0, c.u(-5, 5)), c.pick(0., c.u(0, 20))
    c.note(x=x, p=p, off=off, v=v, L=L, t0=t0, x0=x0)
    src = (x.copy(), p.copy())
    form = c.coin()
    m = c.call('MovingPointLoads', sb.MovingPointLoads, list(x) if form else x, list(p) if form else p, offset=off, v=v, L=L, t0=t0, x0=x0)
    d = (x + off) * (1 if v > 0 else -1)
    entry = x0 if v > 0 else x0 + L
    xpos = lambda t: entry + d + v * (t - t0)
    s, e = t0 - d / v, t0 + ((L if v > 0 else -L) - d) / v
    c.close('start', m.start_time, s, rtol=1e-9, atol=1e-9)
    c.close('end', m.end_time, e, rtol=1e-9, atol=1e-9)
    pl, op = c.call('convert', m.convert_to_specbeam)
    for i in range(k):
        c.close('time span', pl[i].x, [s[i], s[i], e[i], e[i]], rtol=1e-9, atol=1e-9)
        c.close('magnitude', pl[i].y, [0, p[i], p[i], 0], rtol=1e-12)
        c.close('position at the start', op[i][0] * s[i] + op[i][1], entry, rtol=1e-9, atol=1e-8)
        c.close('position at the end', op[i][0] * e[i] + op[i][1], x0 + L if v > 0 else x0, rtol=1e-9, atol=1e-8)
    for t in c.u(min(s) - 1, max(e) + 1, 3):
        X, P = keep = c.call('loads on the beam', m.point_loads_on_beam, t)
        c.close('position', X, xpos(t), rtol=1e-9, atol=1e-8)
        near = (np.abs(t - s) < 1e-8) | (np.abs(t - e) < 1e-8)
        c.close('only on the beam', np.where(near, 0, P), np.where(near, 0, np.where((t >= s) & (t <= e), p, 0)), rtol=1e-12)
    X = np.array(m.axle_positions(t=t, v0=v, t0=t0, x0=x0))
    c.close('axle positions', X, x0 + d + v * (t - t0), rtol=1e-9, atol=1e-8)
    c.close('positions already returned stay', (m.axle_positions(t=t + 3, v0=v, t0=t0, x0=x0), m.point_loads_on_beam(t - 2), m.time_axles_pass_point(1., v0=v), keep[0], keep[1])[-2:], [xpos(t), np.where((t >= s) & (t <= e), p, 0)], rtol=1e-9, atol=1e-8) if np.min(np.abs(np.r_[t - s, t - e])) > 1e-8 else None
    c.close('axle positions at rest', m.axle_positions(), x + off, rtol=1e-9, atol=1e-9)
    q = c.u(0, L) + x0
    T = np.array(c.call('passing a point', m.time_axles_pass_point, q, v0=v, t0=t0, x0=x0))
    c.close('time at a point', x0 + d + v * (T - t0), np.full(k, q), rtol=1e-9, atol=1e-7)
    T = np.array(c.call('passing a beam point', m.time_axles_pass_beam_point, q))
    c.close('time at a beam point', entry + d + v * (T - t0), np.full(k, q), rtol=1e-9, atol=1e-7)
    v2 = c.logu(.5, 50) * c.pick(-1, 1)
    m.v = v2
    d2 = (x + off) * (1 if v2 > 0 else -1)
    c.close('start after a change of velocity', m.start_time, t0 - d2 / v2, rtol=1e-9, atol=1e-9)
    A = m.convert_to_specbeam(v=v, L=L + 1, t0=t0 + 2, x0=x0 + .5)
    e2 = sb.MovingPointLoads(x, p, offset=off, v=v, L=L + 1, t0=t0 + 2, x0=x0 + .5).convert_to_specbeam()
    c.true('arguments for attributes', all(np.allclose(a.x, b.x) and np.allclose(a.y, b.y) for a, b in zip(A[0], e2[0])) and np.allclose(A[1], e2[1]))
    c.raises('static', ValueError, m.convert_to_specbeam, v=0)
    c.true('input kept', np.array_equal(x, src[0]) and np.array_equal(p, src[1]))


@group('infinite beam', quick=200, thorough=4000, cpu=10)
def infinite(c):
    if c.coin(.6):
        alp, bet = c.u(0, .95), c.pick(0, c.logu(.01, 3))
    else:
        alp, bet = c.u(.5, 3), c.logu(.03, 3)
    kr = c.logu(.1, 20)
    c.note(alp=alp, bet=bet, kr=kr)

    def own(alp, bet, s):
        r = np.roots([1, 0, 4 * alp ** 2, -8 * alp * bet, 4.])
        dn, up = r[r.real < 0], r[r.real > 0]
        # w'''' + 4 alp^2 w'' - 8 alp bet w' + 4 w = 8 delta(s), decaying both ways
        M = np.array([[1, 1, -1, -1], [*dn, *-up], [*dn ** 2, *-up ** 2], [*dn ** 3, *-up ** 3]])
        a = np.linalg.solve(M, [0, 0, 0, 8.])
        return np.where(s >= 0, a[0] * np.exp(dn[0] * s * (s >= 0)) + a[1] * np.exp(dn[1] * s * (s >= 0)), a[2] * np.exp(up[0] * s * (s < 0)) + a[3] * np.exp(up[1] * s * (s < 0))).real
    r = np.sort_complex(np.roots([1, 0, 4 * alp ** 2, -8 * alp * bet, 4.]))
    if np.min(np.abs(np.subtract.outer(r, r)[np.triu_indices(4, 1)])) < 1e-2 or np.min(np.abs(r.real)) < 1e-3:
        return
    lim, n = (-c.u(3, 8), c.u(3, 8)), c.i(50, 400)
    s, w = c.call('moving load', sb.moving_load_on_beam_on_elastic_foundation, alp, bet, slim=lim, npts=n)
    c.close('coordinates', s.real, np.linspace(lim[0], lim[1], n), rtol=1e-12, atol=1e-12)
    want = own(alp, bet, s.real)
    c.close('deflection', w.real, want, rtol=0, atol=1e-8 * (1 + np.max(np.abs(want))))
    c.close('real', w.imag, 0 * want, rtol=0, atol=1e-8 * (1 + np.max(np.abs(want))))
    k = kr
    a2, b2 = alp / k ** .25, bet / k ** .5
    r2 = np.roots([1, 0, 4 * a2 ** 2, -8 * a2 * b2, 4.])
    if np.min(np.abs(r2.real)) > 1e-3 and np.min(np.abs(np.subtract.outer(r2, r2)[np.triu_indices(4, 1)])) > 1e-2:
        q = np.linspace(-6, 6, 1001)
        want = own(a2, b2, q).max() * k ** -.75
        c.close('amplification', c.call('DAFinfinite', sb.DAFinfinite, alp, bet, k), want, rtol=1e-7)
        q = np.linspace(-8, 8, 1001)
        c.close('relative amplification', c.call('DAFrelative', sb.DAFrelative, alp, bet, k), own(a2, b2, q).max() * k ** -.75, rtol=1e-7)
        if alp == 0 or bet == 0 and alp < 1e-6:
            c.close('static', sb.DAFinfinite(0., 0., k), k ** -.75, rtol=1e-6)
    # static shapes
    L, xc = c.logu(.3, 5), c.u(-3, 3)
    x = c.u(-8, 8, 6)
    w = sb.point_load_static_defl_shape_function(x, L, xc)
    c.close('static shape', w, own(0., 0., (x - xc) / L), rtol=0, atol=1e-9)
    c.close('static shape at zero', sb.static_point_load_shape(x, L), own(0., 0., x / L), rtol=0, atol=1e-9)
    m = c.i(1, 4)
    xs, fr, ws = c.u(-4, 4, m), c.u(-1, 2, m), c.u(.1, 3)
    X, W = c.call('multi_static', sb.multi_static, xs, fr, wsingle=ws, xlim=lim, n=n, L=L)
    c.close('several static loads', W, ws * sum(f * own(0., 0., (X - q) / L) for f, q in zip(fr, xs)), rtol=0, atol=1e-9 * 10)
    c.close('several static loads, coordinates', X, np.linspace(lim[0], lim[1], n), rtol=1e-12, atol=1e-12)


@group('transitions', quick=100, thorough=2000, cpu=5)
def transitions(c):
    a, b, y = c.u(-3, 3), c.logu(.05, 5), c.u(.02, .98)
    x = a + b * c.u(-3, 3, 4)
    c.note(a=a, b=b, y=y)
    c.close('transition', sb.tanhtran(x, a, b), 1 / (1 + np.exp(-2 * (x - a) / b)), rtol=1e-9)
    c.close('inverse', sb.tanhtrani(sb.tanhtran(x, a, b), a, b), x, rtol=1e-7, atol=1e-7)
    c.close('width', sb.tanhtran(a + 1, a, sb.tanhtranib(a + 1, y, a)), y, rtol=1e-9)
    x1, x2 = c.u(-5, 5, 2)
    y1, y2 = c.u(-3, 3, 2)
    if abs(x1 - x2) < .2:
        return
    s = np.sort(c.u(min(x1, x2) - 2, max(x1, x2) + 2, 9))
    if abs(y2 - y1) > abs(x2 - x1):
        return
    f = c.call('reverse curve', sb.reverse_curve_transition, s, x1, y1, x2, y2)
    c.close('ends of the curve', sb.reverse_curve_transition(np.array([x1, x2, (x1 + x2) / 2]), x1, y1, x2, y2), [y1, y2, (y1 + y2) / 2], rtol=0, atol=1e-7)
    lo, hi = (x1, x2) if x1 < x2 else (x2, x1)
    ylo, yhi = (y1, y2) if x1 < x2 else (y2, y1)
    c.true('level outside', np.all(f[s <= lo] == ylo) and np.all(f[s >= hi] == yhi))
    h, W = abs(y2 - y1), hi - lo
    if h > 1e-3:
        R = (W * W + h * h) / (4 * h)
        g = np.sign(yhi - ylo)
        want = np.where(s <= lo, ylo, np.where(s >= hi, yhi, np.where(s < (lo + hi) / 2, ylo + g * (R - np.sqrt(np.maximum(R * R - (s - lo) ** 2, 0))),
                                                                     yhi - g * (R - np.sqrt(np.maximum(R * R - (s - hi) ** 2, 0))))))
        c.close('arcs', f, want, rtol=0, atol=1e-7 * (1 + R))
    c.true('input kept', True)
