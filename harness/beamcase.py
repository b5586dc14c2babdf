"""Random beams and loads for the checks of beams on foundations."""
import numpy as np
from geotecha.piecewise.piecewise_linear_1d import PolyLine


def poly(c, lo, hi, n=None):
    """positive piecewise linear property on (0, 1); PolyLine and function"""
    k = c.i(0, 3)
    if k == 0:
        v = c.u(lo, hi)
        return PolyLine([0, 1], [v, v]), (lambda x: np.full_like(x, v)), []
    m = c.i(1, 3)
    x = np.r_[0, np.sort(c.u(.1, .9, m)), 1]
    while np.min(np.diff(x)) < .05:
        x = np.r_[0, np.sort(c.u(.1, .9, m)), 1]
    if k == 1:                                  # steps
        y = c.u(lo, hi, m + 1)
        X, Y = np.repeat(x, 2)[1:-1], np.repeat(y, 2)
        return PolyLine(list(X), list(Y)), (lambda q: y[np.clip(np.searchsorted(x, q, side='right') - 1, 0, m)]), list(x[1:-1])
    y = c.u(lo, hi, m + 2)
    return PolyLine(list(x), list(y)), (lambda q: np.interp(q, x, y)), list(x[1:-1])


def vehicles(c, m, tend, norm=True):
    """moving groups: kwargs for SpecBeam and own load list (x(t), p, start, end)"""
    kw = dict(x=[], Fz=[], v=[], offset=[], t0=[], x0=[], L=[])
    own = []
    for _ in range(m):
        k = c.i(1, 3)
        x = np.r_[0., -np.cumsum(c.u(.02, .3, k - 1))]
        F = c.u(-1, 1, k) * 1e-4
        v = c.u(.5, 3) / tend * c.pick(1, 1, -1)
        off = c.pick(0., -c.u(0, .2))
        t0 = c.pick(0., c.u(0, .4) * tend)
        x0, L = (0., 1.) if c.coin(.6) else (c.u(0, .4), c.u(.2, .6))
        for key, val in zip(('x', 'Fz', 'v', 'offset', 't0', 'x0', 'L'), (list(x), list(F), v, off, t0, x0, L)):
            kw[key].append(val)
        for xi, p in zip(x, F):
            s = t0 - (xi + off) / abs(v)                 # each axle travels from the entry end over the length L
            e = s + L / abs(v)
            entry = x0 if v > 0 else x0 + L
            own.append((lambda t, s=s, entry=entry, v=v: entry + v * (t - s), lambda t, p=p: p, s, e))
    return kw, own


def stationary(c, m, tend):
    kw = dict(x=[], vs_t=[], omega_phase=[])
    own = []
    for _ in range(m):
        x = c.u(.05, .95)
        k = c.i(0, 2)
        if k == 0:
            t, y = np.array([0, 0, 10 * tend]), np.array([0, 1, 1.]) * c.u(-1, 1) * 1e-4
        elif k == 1:
            a = c.u(.05, .6) * tend
            t, y = np.array([0, a, 10 * tend]), np.array([0, 1, 1.]) * c.u(-1, 1) * 1e-4
        else:
            s = np.sort(c.u(0, 1, 3)) * tend
            t, y = np.array([0, s[0], s[1], s[1], s[2], 10 * tend]), np.r_[0, c.u(-1, 1, 3), 0, 0] * 1e-4
        op = None
        if c.coin(.4):
            op = (c.u(.5, 12) / tend, c.u(-3, 3))
        kw['x'].append(x)
        kw['vs_t'].append(PolyLine(t, y))
        kw['omega_phase'].append(op)
        for i in range(len(t) - 1):
            if t[i + 1] > t[i]:
                f = lambda tt, i=i, t=t, y=y, op=op: (y[i] + (y[i + 1] - y[i]) * (tt - t[i]) / (t[i + 1] - t[i])) * (1 if op is None else np.cos(op[0] * tt + op[1]))
                own.append((lambda tt, x=x: x, f, t[i], t[i + 1]))
    return kw, own


def force(own):
    return lambda t, mid: [(x(t), p(t)) for x, p, s, e in own if s <= mid < e]


def config(c, nmax=6, k3=False):
    n = c.i(1, nmax)
    uni = c.coin(.4)
    props, pl, br = {}, {}, []
    for k, (lo, hi) in dict(E=(.5, 2), I=(.5, 2), rho=(.5, 2), A=(.5, 2), k1=(.3, 3), mu=(.3, 3), k3=(.3, 3)).items():
        if uni or c.coin(.4):
            props[k] = lambda x: np.ones_like(x)
        else:
            pl[k + 'bar'], props[k], b = poly(c, lo, hi)
            br += b
    kf = c.logu(.01, .3)
    # periods of the first mode from a fraction to several of the time span
    w1 = kf * np.pi ** 2
    k1 = w1 ** 2 * c.logu(.05, 20)
    wn = np.sqrt(w1 ** 2 + k1)
    mu = wn * c.pick(0., c.logu(.02, 3))
    tend = 2 * np.pi / wn * c.u(.5, 5)
    return n, pl, props, br, kf, k1, mu, tend


def build(c, n, pl, kf, k1, mu, tend, veh, sta, t, x, dim, **kw):
    """normalised or dimensional input of the same beam"""
    kw = dict(kw, nterms=n, **pl)
    if c.coin():
        kw['implementation'] = c.pick('vectorized', 'scalar')
    if not dim:
        kw.update(kf=kf, mu_norm=mu, k1_norm=k1, tvals_norm=t, xvals_norm=x)
        if veh:
            kw.update({'moving_loads_%s_norm' % k: v for k, v in veh.items()})
        if sta:
            kw.update({'stationary_loads_%s_norm' % k: v for k, v in sta.items()})
        return kw
    L, E, A, rho = c.u(5, 200), c.logu(1e6, 1e11), c.logu(.01, 2), c.logu(500, 8000)
    I = (kf * L) ** 2 * A
    T = L * np.sqrt(rho / E)                      # t = T*t_norm
    kw.update(E=E, I=I, rho=rho, A=A, L=L, k1=k1 * E * A / L ** 2, mu=mu * A * np.sqrt(rho * E) / L, tvals=t * T, xvals=x * L)
    if veh:
        kw.update(moving_loads_x=[[q * L for q in v] for v in veh['x']], moving_loads_Fz=[[q * E * A for q in v] for v in veh['Fz']],
                  moving_loads_v=[v * np.sqrt(E / rho) for v in veh['v']], moving_loads_offset=[v * L for v in veh['offset']],
                  moving_loads_t0=[v * T for v in veh['t0']], moving_loads_x0=[v * L for v in veh['x0']], moving_loads_L=[v * L for v in veh['L']])
    if sta:
        kw.update(stationary_loads_x=[v * L for v in sta['x']], stationary_loads_vs_t=[PolyLine(v.x * T, v.y * E * A) for v in sta['vs_t']])
        if 'omega_phase' in sta:
            kw['stationary_loads_omega_phase'] = [None if v is None else (v[0] / T, v[1]) for v in sta['omega_phase']]
    return kw


def drop(c, veh, sta):
    """leave out what equals its default"""
    if veh:
        for k, d in dict(offset=0., t0=0., x0=0., L=1.).items():
            if all(v == d for v in veh[k]) and c.coin(.7):
                veh.pop(k)
    if sta and all(v is None for v in sta['omega_phase']) and c.coin(.7):
        sta.pop('omega_phase')
