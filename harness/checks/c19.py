"""C19: unsaturated one-dimensional consolidation (Shan et al. 2012)."""
import numpy as np
import scipy.linalg
from vh import group
from geotecha.consolidation.shanetal2012 import shanetal2012

RULE = ('Random coupling and consolidation coefficients, drainage, initial pressures, loads and boundary histories (exponential, sinusoidal, in any combination); '
        'air and water pressures compared with an independent solution: depth coefficients by quadrature, the coupled ordinary differential equations of each '
        'mode (with the histories as extra states) by matrix exponential. Also single points, scaling and superposition.')
ASSUMPTIONS = ['Decaying real eigenvalues of the coupled system (consolidation coefficients negative, as the paper defines them).',
               "The 'exp' history is q0*(1-exp(-b*t)), as the code and the paper have it.",
               'With an impervious base f3 and f4 are pressure gradients at the base.']


def expm(A):
    k = max(0, int(np.ceil(np.log2(max(np.abs(A).sum(axis=1).max(), 1.)))))
    E = scipy.linalg.expm(A / 2. ** k)
    for _ in range(k):
        E = E.dot(E)
    return E


def hist(c, T):
    if c.coin():
        return dict(type='exp', q0=c.u(-100, 100), b=c.logu(.05, 50) / T)
    return dict(type='sin', q0=c.u(-100, 100), omega=c.logu(.1, 60) / T)


def value(f, t):
    return f['q0'] * (-np.expm1(-f['b'] * t) if f['type'] == 'exp' else np.sin(f['omega'] * t))


def resp(A, b, f, t):
    """x' = A x + b q'(t), x(0)=0"""
    n = len(A)
    f = {k: v if k in ('type', 'q0') else v * t for k, v in f.items()}     # unit time
    A, t = A * t, 1.
    if f['type'] == 'exp':
        S = np.zeros((n + 1, n + 1))
        S[n, n] = -f['b']
        x0 = np.r_[np.zeros(n), f['q0'] * f['b']]
    else:
        S = np.zeros((n + 2, n + 2))
        w = f['omega']
        S[n, n + 1], S[n + 1, n] = -w, w              # p=q', r=w q0 sin
        x0 = np.r_[np.zeros(n), f['q0'] * w, 0.]
    S[:n, :n] = A
    S[:n, n] = b
    return expm(S * t).dot(x0)[:n]


def reference(z, t, H, Cw, Cvw, Ca, Cva, drn, Csw, Csa, uwi, uai, nt, fs):
    C = np.array([[1, Cw], [Ca, 1]])
    Ci = np.linalg.inv(C)
    K = np.diag([Cvw, Cva])
    M = (np.arange(nt) + (.5 if drn else 1)) * np.pi / H
    xq, wq = np.polynomial.legendre.leggauss(2 * nt + 40)
    xq, wq = (xq + 1) / 2 * H, wq * H / 2
    pj = lambda g: 2 / H * (np.sin(np.outer(M, xq)) * (wq * g)).sum(axis=1)
    one = np.ones_like(xq)
    ini = [pj(a[0] + (a[1] - a[0]) * xq / H) for a in (uwi, uai)]
    top, bot = (one, xq) if drn else (1 - xq / H, xq / H)
    # C du/dt + K u'' = Csig dq/dt ; u = g + v with v zero on the boundary
    src = [(fs['f'], pj(one), np.array([Csw, Csa]), None)]
    for nm, shape, comp in (('f1', top, 0), ('f2', top, 1), ('f3', bot, 0), ('f4', bot, 1)):
        src.append((fs[nm], pj(shape), -C[:, comp], (nm, comp)))
    out = np.zeros((2, len(z), len(t)))
    S = np.sin(np.outer(z, M))
    for m in range(nt):
        A = Ci.dot(K) * M[m] ** 2
        for j, tj in enumerate(t):
            x = expm(A * tj).dot([ini[0][m], ini[1][m]])
            for f, p, v, _ in src:
                if f is not None:
                    x = x + resp(A, Ci.dot(v) * p[m], f, tj)
            out[:, :, j] += x[:, None] * S[:, m]
    for f, p, v, w in src:
        if f is not None and w is not None:
            g = (np.ones_like(z) if drn else 1 - z / H) if w[0] in ('f1', 'f2') else (z if drn else z / H)
            out[w[1]] += np.outer(g, value(f, t))
    return out


def case(c):
    H = c.logu(.5, 30)
    cw = c.logu(1e-9, 1)
    Cvw, Cva = -cw, -cw * c.logu(.02, 300)
    p = c.pick(0., c.u(0, .9), c.u(0, .9), -c.u(0, .5))       # product of the couplings
    Cw = c.pick(-1, -1, 1) * c.logu(.05, 3)
    Ca = p / Cw
    if (Cva - Cvw) ** 2 + 4 * p * Cvw * Cva <= 1e-3 * (Cva + Cvw) ** 2:
        Cw = Ca = 0.
    drn = c.i(0, 1)
    a = dict(H=H, Cw=Cw, Cvw=Cvw, Ca=Ca, Cva=Cva, drn=drn, Csw=c.u(-1, 1), Csa=c.u(-1, 1), uwi=(c.u(-50, 100), c.u(-50, 100)), uai=(c.u(-50, 100), c.u(-50, 100)), nterms=c.i(1, 14))
    if c.coin(.3):
        a['uwi'] = a['uai'] = (0, 0)
    T = H ** 2 / cw * c.logu(1 / 300., 1)
    fs = {}
    for k in ('f', 'f1', 'f2', 'f3', 'f4'):
        fs[k] = hist(c, T) if c.coin(.35) else None
    z = np.atleast_1d(c.u(0, H, c.i(1, 4)))
    if c.coin():
        z[0] = c.pick(0, H)
    t = np.atleast_1d(c.logu(1e-3, 2, c.i(1, 4))) * T
    return a, fs, z, t, T


def size(a, fs):
    g = [a['H'] if a['drn'] and k in ('f3', 'f4') else 1 for k in fs]
    return max([1.] + [abs(v) for k in ('uwi', 'uai') for v in a[k]] + [abs(f['q0']) * s for f, s in zip(fs.values(), g) if f])


@group('pressures', quick=600, thorough=12000)
def pressures(c):
    a, fs, z, t, T = case(c)
    d = dict(a)
    for k, v in (('drn', 1), ('uwi', (0, 0)), ('uai', (0, 0))):
        if d[k] == v and c.coin():
            d.pop(k)
    if fs['f'] is None and c.coin():
        d.pop('Csw'), d.pop('Csa')
    d.update((k, v) for k, v in fs.items() if v is not None or c.coin(.3))
    c.note(z=z, t=t, **d)
    arr = c.pick(np.array, np.array, list)
    before = repr(d)
    uw, ua = c.call('shanetal2012', shanetal2012, arr(z), arr(t), **d)
    c.true('arguments not modified', repr(d) == before)
    w = reference(z, t, a['H'], a['Cw'], a['Cvw'], a['Ca'], a['Cva'], a['drn'], a['Csw'], a['Csa'], a['uwi'], a['uai'], a['nterms'], fs)
    sc = size(a, fs)
    c.close('pore water pressure', uw, w[0], rtol=1e-7, scale=sc)
    c.close('pore air pressure', ua, w[1], rtol=1e-7, scale=sc)
    i, j = c.i(0, len(z) - 1), c.i(0, len(t) - 1)
    o = c.call('shanetal2012', shanetal2012, float(z[i]), float(t[j]), **d)
    c.close('one depth and time', [o[0][0, 0], o[1][0, 0]], [uw[i, j], ua[i, j]], rtol=1e-11, scale=sc)


@group('boundary', quick=250, thorough=6000)
def boundary(c):
    """boundary values, initial values and zero base gradient with many terms; scaling and superposition"""
    a, fs, z, t, T = case(c)
    H = a['H']
    a['nterms'] = 400
    c.note(z=z, t=t, **dict(a, **fs))
    if not any(fs.values()):
        fs['f1'] = hist(c, T)
    full = c.call('shanetal2012', shanetal2012, np.r_[0., z, H], t, **dict(a, **fs))
    sc = size(a, fs)
    zero = lambda k: value(fs[k], t) if fs[k] else 0 * t
    for u, k in zip(full, ('f1', 'f2')):
        c.close('drained top', u[0], zero(k), rtol=1e-9, scale=sc)
    if not a['drn']:
        for u, k in zip(full, ('f3', 'f4')):
            c.close('drained base', u[-1], zero(k), rtol=1e-9, scale=sc)
    # superposition of the parts
    k = c.u(-2, 2)
    tot = 0
    for nm in ('init',) + tuple(x for x in fs if fs[x]):
        b = dict(a)
        if nm != 'init':
            b['uwi'] = b['uai'] = (0, 0)
            b[nm] = dict(fs[nm], q0=fs[nm]['q0'] * k)
        else:
            b['uwi'], b['uai'] = [tuple(k * v for v in b[q]) for q in ('uwi', 'uai')]
        tot = tot + np.array(c.call('shanetal2012', shanetal2012, np.r_[0., z, H], t, **b))
    c.close('scaling and superposition', tot, k * np.array(full), rtol=1e-9, scale=sc * 3)
    # long after, the loads settle to the boundary values
    e = {q: dict(type='exp', q0=c.u(-50, 50), b=40 / T) for q in ('f1', 'f2', 'f3', 'f4')}
    al = max(abs(a['Cw']), abs(a['Ca']), 1)
    late = np.array([300 * T * 300 * al])
    u = c.call('shanetal2012', shanetal2012, z, late, **dict(a, **e))
    for v, p, q in zip(u, ('f1', 'f2'), ('f3', 'f4')):
        s = e[p]['q0'] + (e[q]['q0'] * z if a['drn'] else (e[q]['q0'] - e[p]['q0']) * z / H)
        c.close('steady state', v[:, 0], s, rtol=1e-6, scale=50 * max(H, 1))
