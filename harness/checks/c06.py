"""C06 spectral depth integrals against Gauss-Legendre quadrature of the documented integrand."""
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group
import sref
from sref import PL
import geotecha.speccon.integrals as it
from geotecha.piecewise.piecewise_linear_1d import PolyLine

RULE = ('Random layerings (1-6 layers, steps/ramps/uniform), random layered functions, 1-40 one- or two-way eigenvalues'
        ' or arbitrary distinct positive ones; scalar, vectorised and compiled implementations each compared with a'
        ' Gauss-Legendre quadrature of the documented integrand.')
ASSUMPTIONS = ['Layers thicker than 2% of the profile; compared to 1e-7 of the largest entry (closed forms lose digits'
               ' in thin layers).', 'The compiled implementation is built from the current Fortran source.']
IMPL = ('scalar', 'vectorized', 'fortran')


def eigs(c, n=None):
    n = n or c.pick(1, 2, 3, 5, 8, 12, c.i(1, 30))
    bc = c.i(0, 1)
    m = np.array([it.m_from_sin_mx(i, bc) for i in range(n)])
    return m, bc


def args(*pls):
    z = pls[0].x4()
    out = []
    for p in pls:
        x = p.x4()
        out += [x[2], x[3]]
    return out + [z[0], z[1]]


def three(c, name, m, want, fargs, p=None, pargs=None, scale=1.0):
    fn = getattr(it, name)
    cv = c.pick(list, np.array)
    mm = cv(m) if cv is np.array else list(map(float, m))
    # properties come in any unit: the integrals are linear in each of them
    sc = [10.0**c.i(-14, 7) if c.coin(.3) else 1.0 for _ in range(len(fargs) // 2 - 1)]
    S = float(np.prod(sc))
    fargs = [np.array(a) * (sc + [1.0])[i // 2] for i, a in enumerate(fargs)]
    fa = [cv(a) for a in fargs]
    tol = dict(rtol=0, atol=1e-7 * scale * max(np.abs(want).max(), 1e-3))
    c.note(name=name, m=np.round(m, 4), args=fargs)
    first = c.i(0, 2)
    for k in range(3):
        im = IMPL[(first + k) % 3]
        A = c.call(name + ' ' + im, fn, mm, *fa, implementation=im)
        c.close('%s %s' % (name, im), np.array(A) / S, want, **tol)
    if c.coin(.3):
        c.close(name + ' default', c.call(name, fn, mm, *fa) / S, want, **tol)
    if pargs:
        P = [PolyLine(x[0], x[1], np.array(x[2]) * k, np.array(x[3]) * k) for x, k in zip([a.x4() for a in pargs], sc)]
        im = c.pick(*IMPL)
        A = c.call('p' + name, getattr(it, 'p' + name), np.array(m), *P, implementation=im)
        c.close('p' + name, A / S, want, **tol)


@group('matrices', quick=320, thorough=4000)
def matrices(c):
    m, bc = eigs(c)
    z = sref.layers(c, minh=.02)
    a, b = sref.prof(c, z, neg=True), sref.prof(c, z, neg=True)
    k = c.idx % 4
    if k == 0:
        three(c, 'dim1sin_af_linear', m, sref.mat(m, [a]), args(a), True, [a])
    elif k == 1:
        b2 = b if c.coin() else sref.prof(c, neg=True)
        three(c, 'dim1sin_abf_linear', m, sref.mat(m, [a, b]), args(a, b))
        if min(np.diff(sorted(set(a.breaks()) | set(b2.breaks())))) > .02:
            im = c.pick(*IMPL)
            w = sref.mat(m, [a, b2])
            c.close('pdim1sin_abf_linear', c.call('pabf', it.pdim1sin_abf_linear, m, PolyLine(*a.x4()), PolyLine(*b2.x4()), implementation=im), w,
                    rtol=1e-7, atol=1e-6)
    elif k == 2:
        three(c, 'dim1sin_D_aDf_linear', m, -sref.mat(m, [a], 1, 1), args(a), True, [a])
    else:
        # thin layers times large m**4 cancel: allow a wider margin
        three(c, 'dim1sin_DD_abDDf_linear', m, sref.mat(m, [a, b], 2, 2) * DDSIGN, args(a, b), True, [a, b], scale=10)
    if c.coin(.3):
        # a single mode equals the corresponding entry
        i = c.i(0, len(m) - 1)
        w = sref.mat(m, [a])[i, i]
        c.close('one mode', it.dim1sin_af_linear([m[i]], *args(a), implementation=c.pick(*IMPL))[0, 0], w, rtol=1e-7, atol=1e-7)


DDSIGN = 1


@group('vectors', quick=320, thorough=4000)
def vectors(c):
    m, bc = eigs(c)
    z = sref.layers(c, minh=.02)
    a, b, d = [sref.prof(c, z, neg=True) for _ in range(3)]
    k = c.idx % 3
    if k == 0:
        three(c, 'dim1sin_ab_linear', m, sref.vec(m, [a, b]), args(a, b), True, [a, b])
    elif k == 1:
        three(c, 'dim1sin_abc_linear', m, sref.vec(m, [a, b, d]), args(a, b, d), True, [a, b, d])
    else:
        y0, y1 = c.u(-3, 3), c.u(-3, 3)
        lin = PL([(p, q, y0 + (y1 - y0) * p, y0 + (y1 - y0) * q) for p, q in zip(z[:-1], z[1:])])
        w = (y1 - y0) * (np.sin(m) * a.val(1.0) - sref.vec(m, [a], 1))
        three(c, 'dim1sin_D_aDb_linear', m, w, args(a, lin), True, [a, lin])
    # profiles with other layer boundaries through the polyline forms
    e = sref.prof(c, neg=True); f = sref.prof(c, neg=True)
    if min(np.diff(sorted(set(e.breaks()) | set(f.breaks()) | set(a.breaks())))) > .02:
        E, F, A = [PolyLine(*v.x4()) for v in (e, f, a)]
        im = c.pick(*IMPL)
        c.close('pdim1sin_ab', c.call('pab', it.pdim1sin_ab_linear, m, E, F, implementation=im), sref.vec(m, [e, f]), rtol=1e-7, atol=1e-6)
        c.close('pdim1sin_abc', c.call('pabc', it.pdim1sin_abc_linear, m, E, F, A, implementation=im), sref.vec(m, [e, f, a]), rtol=1e-7, atol=1e-6)


@group('intervals', quick=200, thorough=2500)
def intervals(c):
    m, bc = eigs(c)
    z = sref.layers(c, minh=.02)
    a = sref.prof(c, z, neg=True)
    n = c.i(1, 5)
    zz = []
    while len(zz) < n:
        p = sorted([c.pick(float(c.pick(*z)), c.u(0, 1)) for _ in range(2)])
        if c.coin(.1):
            p = [0., 1.]
        if p[1] - p[0] > 1e-3:
            zz.append(p)
    c.note(m=np.round(m, 4), a=a.p, zz=zz)
    want = np.array([sref.vec(m, [a], lo=p, hi=q) for p, q in zz])
    cv = c.pick(list, np.array)
    c.close('dim1sin_a_linear_between', c.call('between', it.dim1sin_a_linear_between, cv(m), *([cv(v) for v in args(a)] + [cv(zz)])), want, rtol=0, atol=1e-8 * (1 + abs(want).max()))
    c.close('pdim1sin_a_linear_between', c.call('pbetween', it.pdim1sin_a_linear_between, m, PolyLine(*a.x4()), zz), want, rtol=0, atol=1e-8 * (1 + abs(want).max()))
    w = np.array([sref.vec(m, [PL.const()], lo=p, hi=q) / (q - p) for p, q in zz])
    c.close('dim1sin_avg_between', c.call('avg', it.dim1sin_avg_between, cv(m), cv(zz)), w, rtol=0, atol=1e-9)
    zs = c.u(0, 1, 5)
    c.close('dim1sin', it.dim1sin(cv(m), cv(zs)), np.sin(np.outer(zs, m)), rtol=0, atol=1e-12)
    for i in range(len(m)):
        c.close('eigenvalue', it.m_from_sin_mx(i, bc), np.pi * (i + 1) if bc == 0 else np.pi * (i + .5), rtol=1e-14)
    if bc == 0:
        c.close('default boundary', it.m_from_sin_mx(3), 4 * np.pi, rtol=1e-14)
    c.raises('bad boundary', ValueError, it.m_from_sin_mx, 1, 2)
