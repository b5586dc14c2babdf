"""C17: layered consolidation (Schiffman & Stein 1970, Nogami & Li 2003, Zhu & Yin 2012)."""
import numpy as np
import layerref as L
from layerref import load, times
from vh import group
import contextlib, io
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003
from geotecha.consolidation.zhuandyin2012 import zhuandyin2012

RULE = ('Random layered profiles, boundary conditions, drain geometry, load histories (steps, ramps, unloading), depths, times and numbers of terms; '
        'pore pressure, average pressure and settlement compared with an independent spectral-element eigen-solution (no eigenvalue can be missed) '
        'with exact time response truncated to the same number of terms; layers split into sub-layers; depth-varying properties by power laws.')
ASSUMPTIONS = ['Zhu and Yin: order of the Bessel functions abs((1-p)/(2-p+q)) up to 20.',
               'Schiffman and Stein: permeability and compressibility contrasts below about 100 and eigenvalues apart by 0.1 of the first.',
               'Nogami and Li: eigenvalues apart by 0.002 of the first, resolved by the default search steps, and decay across slow layers below exp(10) (the transfer matrix of the method has no digits left beyond that).',
               'Load histories start from zero (possibly by a step).']
NM = ['drained', 'closed', 'leak']


def depths(c, h):
    e = np.r_[0, np.cumsum(h)]
    z = list(c.u(0, 1, c.i(1, 4)) * e[-1])
    if c.coin():
        z.append(c.pick(*e))
    return [float(v) for v in z]


def units(c):
    """factors for length, permeability and compressibility: other units"""
    return (10. ** c.i(-3, 4), 10. ** c.i(-12, 6), 10. ** c.i(-6, 4)) if c.coin(.35) else (1, 1, 1)


def split(c, h, *arrs):
    """split a random layer in two (same soil)"""
    i = c.i(0, len(h) - 1)
    f = c.u(.2, .8)
    hh = list(h[:i]) + [h[i] * f, h[i] * (1 - f)] + list(h[i + 1:])
    return [np.array(hh)] + [None if a is None else np.insert(a, i, a[i]) for a in arrs]


def run(c, C, txt, pores=True):
    c.note(text=txt)
    with contextlib.redirect_stdout(io.StringIO()):
        a = c.call(C.__name__, C, txt)
        c.call(C.__name__ + '.make_output', a.make_output)
    return a


def L_(v):
    return repr([float(x) for x in v])


def judge(c, a, rp, ra, rs, scale, mtot, tol):
    c.close('pore pressure', a.por, rp, rtol=tol, scale=scale)
    c.close('average pore pressure', np.ravel(a.avp), ra, rtol=tol, scale=scale)
    c.close('settlement', np.ravel(a.set), rs, rtol=tol, scale=scale * mtot)


@group('schiffman', quick=500, thorough=20000)
def schiffman(c):
    nl = c.i(1, 5)
    h = np.atleast_1d(c.logu(.2, 5, nl)) * c.logu(.1, 10)
    kv = np.atleast_1d(c.logu(.1, 10, nl)) * c.logu(1e-4, 10)
    mv = np.atleast_1d(c.logu(.1, 10, nl)) * c.logu(1e-4, 1)
    bt, bb = c.pick((0, 0), (0, 1), (1, 0), (0, 3), (3, 0), (3, 1), (1, 3), (3, 3))
    ht, hb = c.logu(.1, 10), c.logu(.1, 10)
    kt, kb = c.logu(.03, 30) * kv[0], c.logu(.03, 30) * kv[-1]
    n = c.i(1, 12)
    uh, uk, um = units(c)
    h, ht, hb, kv, kt, kb, mv = h * uh, ht * uh, hb * uh, kv * uk, kt * uk, kb * uk, mv * um
    nm = {0: 'drained', 1: 'closed'}
    M = L.Modes(h, kv, mv, nm.get(bt, kt / ht), nm.get(bb, kb / hb), n)
    gap = np.diff(np.sqrt(M.all[:n + 1])).min() / np.sqrt(M.lam[0])
    if gap < .1:
        return
    T = 1 / M.lam[0]
    x, y = load(c, T)
    t, tp, z = times(c, T, x), times(c, T, x), depths(c, h)
    H = h.sum()
    if c.coin(.3):
        h, kv, mv = split(c, h, kv, mv)
    txt = "z=%s\nt=%s\ntpor=%s\nh=%s\nkv=%s\nmv=%s\nbctop=%d\nbcbot=%d\nn=%d\nsurcharge_vs_time=PolyLine(%s,%s)\n" % (
        L_(z), L_(t), L_(tp), L_(h), L_(kv), L_(mv), bt, bb, n, L_(x), L_(y))
    if bt == 3:
        txt += "htop=%r\nktop=%r\n" % (float(ht), float(kt))
    if bb == 3:
        txt += "hbot=%r\nkbot=%r\n" % (float(hb), float(kb))
    a = run(c, SchiffmanAndStein1970, txt)
    R, Rp = L.ramp(x, y, M.lam, t), L.ramp(x, y, M.lam, tp)
    judge(c, a, (M.at(z) * M.c).dot(Rp), (M.int * M.c).dot(R) / H, M.mtot * L.load_at(x, y, t) - (M.mint * M.c).dot(R), np.ptp(y), M.mtot, 3e-4)


def nogami_case(c, rad):
    nl = c.i(1, 4)
    h = np.atleast_1d(c.logu(.3, 3, nl)) * c.logu(1, 10)
    kv = np.atleast_1d(c.logu(.3, 3, nl)) * c.logu(1e-3, 1)
    mv = np.atleast_1d(c.logu(.3, 3, nl)) * c.logu(1e-4, 1)
    uh, uk, um = units(c)
    h, kv, mv = h * uh, kv * uk, mv * um
    bt, bb = c.i(0, 1), c.i(0, 1)
    nv = c.i(1, 6)
    nh = c.i(1, 4) if rad else 1
    if rad:
        r1 = c.u(.4, 1.5) * uh
        r0 = r1 / c.u(3, 30)
        kh = mv * c.logu(.1, 10) * (kv / mv).mean() * (1 if c.coin() else c.logu(.5, 2, nl))
        rc = None if c.coin(.6) else c.pick(r1, r0, c.u(r0, r1))
        A = L.Annulus(r0, r1, nh, rc)
        f, rate = A.f, A.rate
    else:
        if bt == bb == 1:
            bt = 0
        f, rate, kh = [1.], [0.], np.zeros(nl)
    Ms = [L.Modes(h, kv, mv, NM[bt], NM[bb], nv, g=kh * rate[i] ** 2 if rad else None) for i in range(nh)]
    gap = min(np.diff(np.sqrt(M.all[:nv + 1])).min() / np.sqrt(M.lam[0]) for M in Ms)
    ev = max((np.sqrt(np.maximum(0, (kh * rate[i] ** 2 - M.lam[:, None] * mv) / kv)) * h).sum(1).max() for i, M in enumerate(Ms))
    if gap < .002 or ev > 10:
        return
    # the default search starts at, and first steps by, 1e-7: much smaller
    # rates (in the units of the input) need other search parameters
    if np.sqrt(Ms[0].lam[0]) < 1e-5:
        return
    # the search steps grow with the distance from its start (radial drainage
    # alone): closer pairs need other search parameters
    for i, M in enumerate(Ms):
        b = np.sqrt(M.all[:nv + 1])
        if np.any(np.diff(b) < .08 * (b[1:] - np.sqrt((kh / mv).min()) * rate[i])):
            return
    T = 1 / Ms[0].lam[0]
    x, y = load(c, T)
    t, tp, z = times(c, T, x), times(c, T, x), depths(c, h)
    H = h.sum()
    if c.coin(.3):
        h, kv, mv, kh = split(c, h, kv, mv, kh)
    txt = "z=%s\nt=%s\ntpor=%s\nh=%s\nkv=%s\nmv=%s\nbctop=%d\nbcbot=%d\nnv=%d\nsurcharge_vs_time=PolyLine(%s,%s)\n" % (
        L_(z), L_(t), L_(tp), L_(h), L_(kv), L_(mv), bt, bb, nv, L_(x), L_(y))
    if rad:
        txt += "nh=%d\nkh=%s\nr0=%r\nr1=%r\n" % (nh, L_(kh), float(r0), float(r1))
        if rc is not None:
            txt += 'rcalc=%r\n' % float(rc)
    else:
        txt += 'nh=None\n'
    a = run(c, NogamiAndLi2003, txt)
    rp = ra = rs = 0
    for i, M in enumerate(Ms):
        R, Rp = L.ramp(x, y, M.lam, t), L.ramp(x, y, M.lam, tp)
        rp = rp + f[i] * (M.at(z) * M.c).dot(Rp)
        ra = ra + f[i] * (M.int * M.c).dot(R) / H
        rs = rs - f[i] * (M.mint * M.c).dot(R)
    rs = rs + Ms[0].mtot * L.load_at(x, y, t)
    judge(c, a, rp, ra, rs, np.ptp(y) * max(1, np.abs(f).max()), Ms[0].mtot, 2e-5)


@group('nogami vertical', quick=300, thorough=10000)
def nogami_v(c):
    nogami_case(c, False)


@group('nogami radial', quick=300, thorough=10000)
def nogami_r(c):
    nogami_case(c, True)


@group('consistent', quick=120, thorough=3000)
def consistent(c):
    """the two multilayer solutions agree with each other for vertical drainage,
    results do not depend on which others are requested, plots and tables run"""
    nl = c.i(1, 4)
    h = np.atleast_1d(c.logu(.5, 3, nl)); kv = np.atleast_1d(c.logu(.3, 3, nl)) * c.logu(1e-3, 1)
    mv = np.atleast_1d(c.logu(.3, 3, nl)) * c.logu(1e-3, 1)
    bt, bb = c.pick((0, 0), (0, 1), (1, 0))
    n = c.i(1, 8)
    M = L.Modes(h, kv, mv, NM[bt], NM[bb], n)
    if np.diff(np.sqrt(M.all[:n + 1])).min() < .1 * np.sqrt(M.lam[0]):
        return
    T = 1 / M.lam[0]
    x, y = load(c, T)
    t, tp, z = times(c, T, x), times(c, T, x), depths(c, h)
    base = "h=%s\nkv=%s\nmv=%s\nbctop=%d\nbcbot=%d\nsurcharge_vs_time=PolyLine(%s,%s)\n" % (L_(h), L_(kv), L_(mv), bt, bb, L_(x), L_(y))
    full = "z=%s\nt=%s\ntpor=%s\n" % (L_(z), L_(t), L_(tp))
    a = run(c, SchiffmanAndStein1970, base + full + 'n=%d\n' % n)
    b = run(c, NogamiAndLi2003, base + full + 'nv=%d\nnh=None\n' % n)
    s = np.ptp(y)
    for nm, w in (('por', 1), ('avp', 1), ('set', M.mtot)):
        c.close('both solutions: ' + nm, np.ravel(getattr(a, nm)), np.ravel(getattr(b, nm)), rtol=3e-4, scale=s * w)
    i, k = c.i(0, len(z) - 1), c.i(0, len(tp) - 1)
    for o, C, xtra in ((a, SchiffmanAndStein1970, 'n=%d\n' % n), (b, NogamiAndLi2003, 'nv=%d\nnh=None\n' % n)):
        one = run(c, C, base + "z=[%r]\nt=[%r]\ntpor=[%r]\n" % (z[i], t[0], tp[k]) + xtra)
        c.close('one depth and time', one.por[0, 0], o.por[i, k], rtol=1e-12, atol=1e-12, scale=s)
        c.close('one time', [np.ravel(one.avp)[0], np.ravel(one.set)[0]], [np.ravel(o.avp)[0], np.ravel(o.set)[0]], rtol=1e-12, atol=1e-12, scale=s)


@group('zhuandyin', quick=500, thorough=20000)
def zy(c):
    alpha = c.pick(c.u(-.9, -.1), c.logu(.01, 10))
    p, q = c.u(-3, 3), c.u(-3, 3)
    if c.coin(.25):
        p = c.pick(0., 1., -1., 2., .5)
    if c.coin(.25):
        q = c.pick(0., 1., -1., p, -2.)
    if abs(p - q - 2) < .02 or abs((1 - p) / (2 - p + q)) > 20:
        return
    drn, n = c.i(0, 1), c.i(1, 30)
    H, kv0, mv0, gamw, ui = c.logu(.3, 30), c.logu(1e-10, 1), c.logu(1e-4, 1), c.pick(10, 9.81, c.u(8, 11)), c.u(1, 200)
    k = lambda z: kv0 / gamw * (1 + alpha * z / H) ** p
    m = lambda z: mv0 * (1 + alpha * z / H) ** q
    nel = 6
    M = L.Modes([H / nel] * nel, k, m, 'drained', ['drained', 'closed'][drn], n)
    t = np.sort(np.atleast_1d(c.logu(.002, 3, c.i(1, 4))) / M.lam[0])
    z = np.atleast_1d(c.u(0, H, c.i(1, 4)))
    if c.coin():
        z[0] = c.pick(0, H)
    kw = dict(alpha=alpha, p=p, q=q, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui, nterms=n)
    if gamw == 10 and c.coin():
        kw.pop('gamw')
    if n == 20 and c.coin():
        kw.pop('nterms')
    tpor = None if c.coin(.7) else np.sort(np.atleast_1d(c.logu(.002, 3, 2)) / M.lam[0])
    c.note(z=z, t=t, tpor=tpor, **kw)
    if tpor is not None:
        kw['tpor'] = tpor
    por, doc, settle = c.call('zhuandyin2012', zhuandyin2012, z, t, **kw)
    tp = t if tpor is None else tpor
    c.close('pore pressure', por, ui * (M.at(z) * M.c).dot(np.exp(-np.outer(M.lam, tp))), rtol=2e-5, scale=ui)
    d = 1 - (M.mint * M.c).dot(np.exp(-np.outer(M.lam, t))) / M.mtot
    c.close('degree of consolidation', doc, d, rtol=2e-5, scale=1)
    c.close('settlement', settle, d * M.mtot * ui, rtol=2e-5, scale=M.mtot * ui)
