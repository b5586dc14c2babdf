"""C07 time kernels and assembled load vectors against exact convolution."""
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group
import sref
from sref import PL
import geotecha.speccon.integrals as it
import geotecha.speccon.speccon1d as sp
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from checks.c06 import eigs, IMPL

RULE = ('Random load histories (ramps, plateaus, steps incl. at the start/end, late starts, repeated points), eigenvalues over'
        ' six decades, output times before/at/after/at steps of the load, optional cosine factor; every implementation against'
        ' a stable evaluation of the exact convolution.')
ASSUMPTIONS = ['Eigenvalues are real, positive and above 1e-3/dT (the models delete zero modes separately).']


def load(c, start0=True):
    """-> x, y lists of a load history"""
    t = c.pick(0.0, 0.0, 0.0, round(c.u(0, 3), 2)) if not start0 else 0.0
    x, y = [t], [0.0]
    if c.coin(.5):
        x.append(t); y.append(round(c.u(-3, 3), 2))
    for k in range(c.i(1, 5)):
        x.append(x[-1] + c.pick(1.0, .5, round(c.logu(.02, 8), 3)))
        y.append(y[-1] if c.coin(.4) else round(c.u(-4, 4), 2))
        if c.coin(.25):
            x.append(x[-1]); y.append(round(c.u(-4, 4), 2))
        elif c.coin(.05):
            x.append(x[-1]); y.append(y[-1])
    return x, y


def ref(x, y):
    p = PL.xy(x, y)
    p.start = y[0]
    # value reached by steps at the very start / end of the data
    p.final = y[-1]
    return p


def times(c, x, n=None):
    n = n or c.i(2, 7)
    out = []
    for _ in range(n):
        k = c.i(0, 3)
        if k == 0:
            out.append(float(c.pick(*x)))
        elif k == 1:
            out.append(x[-1] + c.logu(.01, 10))
        else:
            out.append(c.u(0, x[-1]))
    if c.coin(.2) and x[0] > 0:
        out.append(x[0] / 2)
    if c.coin(.7):
        out.sort()
    return np.array(out)


def kernel(c):
    x, y = load(c, c.coin(.8))
    n = c.i(1, 6)
    lam = np.sort(c.logu(.02, 2000, n))
    dT = c.pick(1.0, c.logu(.05, 5), 0.2)
    lam = lam / dT
    t = times(c, x)
    return x, y, lam, dT, t


@group('kernels', quick=600, thorough=9000)
def kernels(c):
    x, y, lam, dT, t = kernel(c)
    om = (c.pick(c.u(-4, 4), c.logu(.1, 60)), c.u(-4, 4))
    c.note(x=x, y=y, lam=lam, dT=dT, t=t, om=om)
    r = ref(x, y)
    L = lam * dT
    ym = max(abs(v) for v in y)
    want = {
        'Eload_linear': sref.conv(r, L, t), 'EDload_linear': sref.convD(r, L, t, start=r.start),
        'Eload_coslinear': sref.conv(r, L, t, om), 'EDload_coslinear': sref.convD(r, L, t, om, start=r.start),
        'Eload_sinlinear': sref.convsin(r, L, t, om)}
    P = PolyLine(x, y)
    for nm, w in want.items():
        a = (om[0], om[1]) if 'lin' in nm and ('cos' in nm or 'sin' in nm) else ()
        # closed forms in the code cancel like 1/(lam*dt)**2 for slow modes
        for im in IMPL:
            f = getattr(it, nm)
            fl = c.pick(list, np.array)
            args = (fl(x), fl(y)) + a + (fl(lam), fl(t)) + ((dT,) if dT != 1.0 or c.coin() else ())
            A = c.call(nm + ' ' + im, f, *args, implementation=im)
            c.close('%s %s' % (nm, im), np.real(A), w, rtol=2e-8, atol=1e-9 * ym * (1 + (abs(om[0]) if a else 0)))
            c.close('no imaginary part', np.imag(A), 0 * w, rtol=0, atol=1e-9 * ym)
        if hasattr(it, 'p' + nm):
            im = c.pick(*IMPL)
            A = c.call('p' + nm, getattr(it, 'p' + nm), P, *(a + (lam, t, dT)), implementation=im)
            c.close('p' + nm, np.real(A), w, rtol=2e-8, atol=1e-9 * ym * (1 + (abs(om[0]) if a else 0)))


def loads(c, n=None):
    n = c.i(1, 3) if n is None else n
    vs, ref_, om = [], [], []
    for _ in range(n):
        x, y = load(c)
        vs.append(PolyLine(x, y)); ref_.append(ref(x, y))
        om.append((c.u(.1, 4), c.u(-3, 3)) if c.coin(.4) else None)
    if c.coin(.3):
        om = None
    return vs, ref_, om


def om_of(om, k):
    return None if om is None else om[k]


def igam(c, n):
    A = np.eye(n) * c.u(.5, 2) + .3 * c.u(-1, 1, (n, n))
    return A


def E(r, o, L, t, D):
    return sref.convD(r, L, t, o, start=r.start) if D else sref.conv(r, L, t, o)


def tzero(c, n):
    k = c.i(0, 3)
    if k == 0 and n > 1:
        i = c.i(1, n - 1)
        return slice(i, None), list(range(i, n))
    if k == 1:
        i = c.i(0, n - 1)
        return [i], [i]
    return None, []


def asm(thetas, Igam, Es):
    out = 0
    for th, e in zip(thetas, Es):
        out = out + (e * (Igam @ th)).T
    return out


@group('load vectors', quick=500, thorough=6000)
def load_vectors(c):
    m, drn = eigs(c, c.i(1, 6))
    n = len(m)
    lam = np.sort(c.logu(.05, 500, n)); dT = c.pick(1.0, c.u(.1, 3))
    z = sref.layers(c)
    a, b = sref.prof(c, z), sref.prof(c, z if c.coin() else None)
    if min(np.diff(sorted(set(a.breaks()) | set(b.breaks())))) < .01:
        return
    A, B = PolyLine(*a.x4()), PolyLine(*b.x4())
    I = igam(c, n)
    t = np.sort(c.u(0, 12, c.i(1, 5)))
    im = c.pick(*IMPL)
    tz, tzi = tzero(c, n)
    top, bot = loads(c), loads(c)
    use = c.i(1, 3)
    tv, to = (top[0], top[2]) if use & 1 else (None, None)
    bv, bo = (bot[0], bot[2]) if use & 2 else (None, None)
    kw = dict(top_omega_phase=to, bot_omega_phase=bo, dT=dT, theta_zero_indexes=tz, implementation=im)
    one = PL.lin(1, 1) if drn == 1 else PL.lin(1, 0)
    Z = PL.lin(0, 1)
    L = lam * dT
    c.note(m=m, drn=drn, lam=lam, dT=dT, a=a.p, b=b.p, t=t, im=im, tz=tz, use=use, top=[r.p for r in top[1]], bot=[r.p for r in bot[1]], to=to, bo=bo)

    def zero(th):
        th = np.array(th)
        th[tzi] = 0
        return th

    def want(theta_top, theta_bot, D):
        ths, es = [], []
        if tv is not None:
            for k, r in enumerate(top[1]):
                ths.append(zero(theta_top)); es.append(E(r, om_of(to, k), L, t, D))
        if bv is not None:
            for k, r in enumerate(bot[1]):
                ths.append(zero(theta_bot)); es.append(E(r, om_of(bo, k), L, t, D))
        return asm(ths, I, es)
    tol = dict(rtol=3e-8, atol=1e-8)
    k = c.idx % 9
    if k == 0:
        g = c.call('aDfDt', sp.dim1sin_E_Igamv_the_BC_aDfDt_linear, drn, m, lam, t, I, A, tv, bv, **kw)
        c.close('BC_aDfDt', g, want(sref.vec(m, [a, one]), sref.vec(m, [a, Z]), True), **tol)
    elif k == 1:
        g = c.call('abf', sp.dim1sin_E_Igamv_the_BC_abf_linear, drn, m, lam, t, I, A, B, tv, bv, **kw)
        c.close('BC_abf', g, want(sref.vec(m, [a, b, one]), sref.vec(m, [a, b, Z]), False), **tol)
    elif k == 2:
        g = c.call('abDfDt', sp.dim1sin_E_Igamv_the_BC_abDfDt_linear, drn, m, lam, t, I, A, B, tv, bv, **kw)
        c.close('BC_abDfDt', g, want(sref.vec(m, [a, b, one]), sref.vec(m, [a, b, Z]), True), **tol)
    elif k == 3:
        g = c.call('D_aDf', sp.dim1sin_E_Igamv_the_BC_D_aDf_linear, drn, m, lam, t, I, A, tv, bv, **kw)
        s = np.sin(m) * a.val(1.0) - sref.vec(m, [a], 1)
        c.close('BC_D_aDf', g, want(s * (0 if drn == 1 else -1), s, False), **tol)
    elif k == 4:
        nz = c.i(1, 3)
        zv = c.u(0.05, .95, nz); pk = c.logu(.5, 1000, nz)
        g = c.call('deltaf', sp.dim1sin_E_Igamv_the_BC_deltaf_linear, drn, m, lam, t, I, c.pick(list, np.array)(zv), pk, tv, bv, **kw)
        s = np.sin(np.outer(m, zv))
        w = want((s * pk) @ (np.ones(nz) if drn == 1 else 1 - zv), (s * pk) @ zv, False)
        c.close('BC_deltaf', g, w, rtol=3e-8, atol=1e-6)
    elif k == 5:
        nz = len(top[0])
        zv = c.u(0.05, .95, nz); pk = c.logu(.5, 1000, nz)
        vs = list(top[0])
        skip = c.i(0, nz - 1) if nz > 1 and c.coin(.3) else None
        if skip is not None:
            vs[skip] = None
        g = c.call('deltamag', sp.dim1sin_E_Igamv_the_deltamag_linear, m, lam, t, I, zv, pk, vs, top[2], dT=dT, theta_zero_indexes=tz, implementation=im)
        w = asm([zero(p * np.sin(m * q)) for j, (p, q) in enumerate(zip(pk, zv)) if j != skip], I,
                [E(r, om_of(top[2], j), L, t, False) for j, r in enumerate(top[1]) if j != skip])
        c.close('deltamag', np.real(g), w, rtol=3e-8, atol=1e-6)
    elif k in (6, 7):
        nz = len(top[0])
        md = [sref.prof(c, z, neg=True) for _ in range(nz)]
        MD = [PolyLine(*q.x4()) for q in md]
        if k == 6:
            g = c.call('aDmagDt', sp.dim1sin_E_Igamv_the_aDmagDt_bilinear, m, lam, t, I, A, MD, top[0], top[2], dT=dT, theta_zero_indexes=tz, implementation=im)
            w = asm([zero(sref.vec(m, [a, q])) for q in md], I, [E(r, om_of(top[2], j), L, t, True) for j, r in enumerate(top[1])])
            c.close('aDmagDt', g, w, **tol)
        else:
            g = c.call('abmag', sp.dim1sin_E_Igamv_the_abmag_bilinear, m, lam, t, I, A, B, MD, top[0], top[2], dT=dT, theta_zero_indexes=tz, implementation=im)
            w = asm([zero(sref.vec(m, [a, b, q])) for q in md], I, [E(r, om_of(top[2], j), L, t, False) for j, r in enumerate(top[1])])
            c.close('abmag', g, w, **tol)
    else:
        t = np.array([v for v in t if min([abs(v - q) for vs in top[0] + bot[0] for q in vs.x]) > 1e-6])
        if len(t) == 0:
            return
        g = c.call('foft', sp.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear, drn, m, lam, t, I, A, tv, bv, top_omega_phase=to, bot_omega_phase=bo, theta_zero_indexes=tz)
        s = np.sin(m) * a.val(1.0) - sref.vec(m, [a], 1)
        w = np.zeros((n, len(t)))
        for vs, rr, o, th in ((tv, top[1], to, s * (0 if drn == 1 else -1)), (bv, bot[1], bo, s)):
            if vs is not None:
                for j, r in enumerate(rr):
                    q = om_of(o, j)
                    f = r.vals(t) * (1 if q is None else np.cos(q[0] * t + q[1]))
                    w += np.outer(I @ zero(th), f)
        c.close('foft', g, w, **tol)
    if c.idx % 9 == 0:
        # nothing given: nothing added
        g = sp.dim1sin_E_Igamv_the_BC_aDfDt_linear(drn, m, lam, t, I, None, tv, bv)
        c.close('no property, no load', g, np.zeros((n, len(t))))
        g = sp.dim1sin_E_Igamv_the_BC_aDfDt_linear(drn, m, lam, t, I, A, None, None)
        c.close('no load', g, np.zeros((n, len(t))))


@group('reconstruct', quick=300, thorough=4000)
def reconstruct(c):
    m, drn = eigs(c, c.i(1, 8))
    nt = c.i(1, 5)
    top, bot = loads(c), loads(c)
    t = np.sort(np.concatenate([c.u(0, 10, nt), [float(c.pick(*top[0][0].x)), float(c.pick(*bot[0][-1].x))]]))
    v = c.u(-2, 2, (len(m), len(t)))
    use = c.i(0, 3)
    tv, to = (top[0], top[2]) if use & 1 else (None, None)
    bv, bo = (bot[0], bot[2]) if use & 2 else (None, None)
    zo = np.concatenate([c.u(0, 1, 3), [0, 1]])
    c.note(m=m, drn=drn, t=t, use=use, top=[r.p for r in top[1]], bot=[r.p for r in bot[1]], to=to, bo=bo)

    def f(rr, o, use):
        tot = np.zeros(len(t))
        if use:
            for j, r in enumerate(rr):
                q = om_of(o, j)
                # just after any step
                y = np.array([r.final if s >= r.p[-1][1] else r.val(s, True) for s in t])
                tot += y * (1 if q is None else np.cos(q[0] * t + q[1]))
        return tot
    ft, fb = f(top[1], to, use & 1), f(bot[1], bo, use & 2)
    # a step at the very end of a load: value at that time is a matter of
    # representation, leave those times out
    ok = np.array([all(abs(s - r.p[-1][1]) > 1e-9 or r.final == r.p[-1][3] for r in top[1] + bot[1]) for s in t])
    one = (lambda q: np.ones_like(q)) if drn == 1 else (lambda q: 1 - q)
    kw = dict(top_vs_time=tv, bot_vs_time=bv, top_omega_phase=to, bot_omega_phase=bo)
    g = c.call('f', sp.dim1sin_f, m, c.pick(list, np.array)(zo), t, v.copy(), drn, **kw)
    w = np.sin(np.outer(zo, m)) @ v + np.outer(one(zo), ft) + np.outer(zo, fb)
    c.close('dim1sin_f', g[:, ok], w[:, ok], rtol=1e-9, atol=1e-9)
    zz = np.sort(c.u(0, 1, (3, 2)), axis=1)
    zz = np.array([p for p in zz if p[1] - p[0] > 1e-3] + [[0, 1]])
    g = c.call('avgf', sp.dim1sin_avgf, m, c.pick(list, np.array)(zz), t, v.copy(), drn, **kw)
    ph = np.array([sref.vec(m, [PL.const()], lo=p, hi=q) / (q - p) for p, q in zz])
    w = ph @ v + np.outer(one(zz.mean(axis=1)), ft) + np.outer(zz.mean(axis=1), fb)
    c.close('dim1sin_avgf', g[:, ok], w[:, ok], rtol=1e-9, atol=1e-8)
    a = sref.prof(c)
    g = c.call('integrate', sp.dim1sin_integrate_af, m, zz, t, v.copy(), drn, PolyLine(*a.x4()), **kw)
    o = PL.lin(1, 1) if drn == 1 else PL.lin(1, 0)
    w = np.array([sref.vec(m, [a], lo=p, hi=q) for p, q in zz]) @ v + np.outer([sref.scal([a, o], p, q) for p, q in zz], ft) + np.outer([sref.scal([a, PL.lin(0, 1)], p, q) for p, q in zz], fb)
    c.close('dim1sin_integrate_af', g[:, ok], w[:, ok], rtol=1e-8, atol=1e-8)
