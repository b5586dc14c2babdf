"""C22: the elasto-plastic unsaturated soil model against an independent
vectorised statement, path rules, compiled vs interpreted, history freedom and
profiles in equilibrium."""
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group
import epusref
from geotecha.constitutive_models import epus as E
from geotecha.constitutive_models import void_ratio_permeability as vrp, swcc as swm


def soil(c, Np=None, Ns=None):
    wsat = c.u(.15, 1.2)
    b = c.u(.7, 3.6)
    ss = c.logu(2, 3e3)          # suction where half the collapsible water is gone
    a = ss ** b
    wr = c.u(0.02, .6) * wsat
    # keep the saturated line above the residual water content up to 1e6 kPa
    Gs = c.u(2.5, 2.9)
    sl = c.u(.05, .8) * (wsat - wr) * Gs / 6
    d = dict(logDS=c.u(.1, 1.2), logRS=c.u(.8, 3), Css=c.pick(None, c.u(.02, .5) * sl),
             Ccs=c.pick(None, sl * c.u(.9, 1.1)), Ccd=c.pick(0.0, c.u(0, .5) * sl), Gs=Gs,
             Assumption=c.pick(1, 1, 0, 2), beta=c.pick(0., c.u(0, .3)), pm=c.u(.5, 2), Pore_shape=c.pick(0.0, 1., c.u(0, 1.5)),
             K0=c.pick(1.0, c.u(.3, 1.6)), Npoint=Np or c.pick(31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97), NumSr=Ns or c.i(11, 43))
    if c.coin(.3):
        d.update(MaxSuction=c.pick(6, 6, 6, 5.7), MinSuction=c.pick(-1, -2, -3, -1.5))
    return (wsat, a, b, wr, sl), d


def path(c, d, n=None):
    lo, hi = d.get('MinSuction', -3), d.get('MaxSuction', 6)
    P, has = [], 0
    for k in range(n or c.i(1, 6)):
        ist = c.coin()
        v = 10 ** c.u(lo - 2.5, 3.7) if ist else 10 ** c.u(lo + .05, hi - .05)
        if not ist and c.coin(.15):
            v = 10.0 ** hi        # completely dry
        P.append((ist, v, c.i(2, 9)))
    return P


def dicts(P, c=None):
    return [dict(ist=a, vl=b, npp=n, name='s') for a, b, n in P]


def run(sw, d, P, impl, obj=None):
    stp = E.StressPath(dicts(P))
    a = E.EPUS(SimpleSWCC=E.CurveFittingSWCC(*sw), stp=stp, implementation=impl, **d)
    a.Calresults()
    return stp, a


def arr(stp):
    return [np.array([r.ss, r.st, r.e, r.w, r.Sr, r.vw]) for r in stp.datapoints]


def ref(sw, d, P):
    k = dict(d)
    k['Ccs'] = sw[4] if d['Ccs'] is None else d['Ccs']
    k['Css'] = .1 * k['Ccs'] if d['Css'] is None else d['Css']
    s = epusref.Soil(*sw, **k)
    return s, s.run(P)


def admissible(s, R):
    """the documented parameter check: pore-shape parameter valid, volumes positive"""
    return not s.flagged and not s.tie and all((r[:, 2] > 1e-3).all() for r in R)


def cap(x):
    return np.where(x >= 999999., 999998., x)


def draw(c, **k):
    for t in range(60):
        sw, d = soil(c, **k)
        P = path(c, d)
        s, R = ref(sw, d, P)
        if admissible(s, R) and s.rv.min() > -1e-3:
            break
    c.note(sw=sw, d=d, P=P, tries=t)
    return sw, d, P, s, R


@group('model', quick=600, thorough=20000)
def model(c):
    sw, d, P, s, R = draw(c)
    stp, a = c.call('fortran', run, sw, d, P, 'fortran')
    F = arr(stp)
    h = np.diff([d.get('MinSuction', -3), d.get('MaxSuction', 6)])[0]
    for i, (f, r) in enumerate(zip(F, R)):
        c.close('suction path', f[0], cap(r[:, 0]), rtol=1e-9, elem=True)
        c.close('stress path', f[1], cap(r[:, 1]), rtol=1e-9, elem=True)
        c.close('void ratio', f[2], r[:, 2], rtol=2e-8)
        c.close('water content', f[3], r[:, 3], rtol=2e-8, atol=1e-10)
        c.close('Sr=w.Gs/e', f[4], f[3] * d['Gs'] / f[2], rtol=1e-12, elem=True, atol=1e-14)
        c.close('vw=Sr.n', f[5], f[4] * f[2] / (1 + f[2]), rtol=1e-12, elem=True, atol=1e-14)
        c.true('points', f.shape[1] == P[i][2])
        c.true('bounds', (f[4] <= 1 + 1e-9).all() and (f[3] >= -1e-12).all() and (f[2] > 0).all())
        ist, up = P[i][0], (f[1][-1] > f[1][0]) if P[i][0] else (f[0][-1] > f[0][0])
        if not ist and up:
            c.leq('drying loses water', np.diff(f[3]), 0, 1e-9)
        if not ist and not up and d['K0'] <= 1:
            c.leq('wetting gains water', -np.diff(f[3]), 0, 1e-9)
        if ist and up and not s.filled_by_load[i]:
            c.leq('loading compresses', np.diff(f[2]), 0, 1e-9)
        if ist and not up:
            c.leq('unloading swells', -np.diff(f[2]), 0, 1e-9)


@group('scalar', quick=400, thorough=6000)
def scalar(c):
    sw, d, P, s, R = draw(c, Np=c.pick(23, 29, 31, 37), Ns=c.i(7, 15))
    if len(P) > 4:
        P = P[:4]
    f = arr(c.call('fortran', run, sw, d, P, 'fortran')[0])
    stp, a = c.call('scalar', run, sw, d, P, 'scalar')
    g = arr(stp)
    for x, y in zip(f, g):
        for k, n in enumerate(('ss', 'st', 'e', 'w', 'Sr', 'vw')):
            c.close('compiled=interpreted ' + n, x[k], y[k], rtol=1e-8, atol=1e-11)
    # the same object again gives the same results
    a.Calresults()
    for x, y in zip(g, arr(stp)):
        c.close('recalculate', y, x, rtol=1e-12)


@group('history', quick=80, thorough=900)
def history(c):
    runs = [draw(c)[:3] for _ in range(c.i(2, 4))]
    runs[-1] = (runs[0][0], dict(runs[0][1], Npoint=runs[0][1]['Npoint'] + c.i(1, 40)), runs[0][2]) if c.coin() else runs[-1]
    first = [arr(run(*r, 'fortran')[0]) for r in runs]
    order = list(c.rng.integers(0, len(runs), 5))
    for k in order:
        again = arr(run(*runs[k], 'fortran')[0])
        for x, y in zip(first[k], again):
            c.true('independent of earlier calculations', np.array_equal(x, y, equal_nan=True),
                   'max diff %s' % np.abs(x - y).max())


@group('split', quick=150, thorough=900)
def split(c):
    """a step visited in two halves through one of its own points ends in the same state"""
    sw, d, P, s, R = draw(c)
    k = c.i(0, len(P) - 1)
    ist, vl, n = P[k]
    n = 2 * c.i(2, 5) + 1
    P[k] = (ist, vl, n)
    sw_, R0 = ref(sw, d, P)
    now = R0[k][0][1 if ist else 0]
    mid = np.sqrt(now * vl)
    Q = P[:k] + [(ist, mid, (n + 1) // 2), (ist, vl, (n + 1) // 2)] + P[k + 1:]
    if not admissible(sw_, R0) or abs(np.log(vl / now)) < 1e-3:
        return
    if ist and vl > now and d['Assumption'] == 1:
        return       # dry groups yield by the net stress of the previous point (documented increments)
    a = arr(c.call('whole', run, sw, d, P, 'fortran')[0])
    b = arr(c.call('split', run, sw, d, Q, 'fortran')[0])
    for x, y in zip(a[k + 1:], b[k + 2:]):
        c.close('after the step', y, x, rtol=1e-7, atol=1e-12)
    j = np.hstack((b[k][:, :-1], b[k + 1]))
    c.close('within the step', j, a[k], rtol=1e-7, atol=1e-12)


@group('containers', quick=60, thorough=300)
def containers(c):
    sw, d, P, s, R = draw(c)
    D = dicts(P)
    named = [c.coin() for _ in D]
    for i, q in enumerate(D):
        q.pop('name')
        if named[i]:
            q['name'] = 'step %d' % i
        if c.coin(.2):
            q.pop('npp')
        if q['ist'] and c.coin(.3):
            q.pop('ist')
    stp = c.call('path', E.StressPath, D)
    for i, q in enumerate(D):
        c.true('ist', bool(stp.ist[i]) == q.get('ist', True))
        c.true('vl', stp.vl[i] == q['vl'])
        c.true('npp', stp.npp[i] == q.get('npp', 100) == len(stp.datapoints[i].e))
        c.true('name', stp.name[i] == q['name'] if named[i] else
               (('%03d' % i in stp.name[i]) and ('%g' % q['vl'] in stp.name[i]) and (('stress' if q.get('ist', True) else 'suction') in stp.name[i])))
    a = E.EPUS(SimpleSWCC=E.CurveFittingSWCC(*sw), stp=stp, **d)
    a.Calresults()
    parts = arr(stp)
    stp.combine_datapoints()
    cb = stp.datapoints_combined
    c.true('combined size', cb.npts == sum(stp.npp))
    c.true('combined', np.array_equal(np.array([cb.ss, cb.st, cb.e, cb.w, cb.Sr, cb.vw]), np.hstack(parts)))
    for x, y in zip(parts, arr(stp)):
        c.true('parts kept', np.array_equal(x, y))
    # curve helper: collapsible water content and slope as documented
    w = E.CurveFittingSWCC(*sw)
    for suc in (c.logu(.01, 9e5), c.logu(.01, 9e5)):
        wsat, a_, b, wr, sl = sw
        want = (wsat - sl * np.log10(suc) / d['Gs'] - wr) * a_ * (1 - suc ** b / 1e6 ** b) / (suc ** b + a_)
        c.close('Wc', w.Wc(suc, Gs=d['Gs']), want, rtol=1e-10, atol=1e-14)
        c.close('EPUS.Wc', a.Wc(suc), want, rtol=1e-10, atol=1e-14)
        ar = a_ ** (1 / b)
        full = lambda x: ((wsat - sl * np.log10(x) / d['Gs'] - wr) * a_ * (1 - x ** b / 1e6 ** b) / (x ** b + a_) + wr) * (
            1 - np.log1p(x / ar) / np.log1p(1e6 / ar))
        hh = 1e-4 * suc
        num = (full(suc - 2 * hh) - 8 * full(suc - hh) + 8 * full(suc + hh) - full(suc + 2 * hh)) / 12 / hh
        c.close('DWc', w.DWc(suc, Gs=d['Gs']), num, rtol=1e-6, atol=1e-10 / suc)
    c.close('CVStress', a.CVStress(), (1 + 2 * d['K0']) / 3, rtol=1e-12)


@group('profile', quick=60, thorough=1500, cpu=120)
def profile(c):
    for t in range(60):
        sw, d = soil(c, Np=c.pick(41, 53, 67, 79), Ns=c.i(11, 23))
        d['Pore_shape'] = c.u(0, .5)
        H = c.u(3, 12)
        zw = c.pick(None, c.u(.1, .95) * H, 0.0, H * c.u(1, 1.3))
        q0 = c.u(1, 40)
        gamw = c.pick(10, 9.81)
        stp0 = [(True, q0 + 15 * H, 5), (False, 10 * H, 5)]
        s, R = ref(sw, d, stp0)
        if admissible(s, R) and s.rv.min() > -1e-3:
            break
    nz, npp = c.i(4, 7), c.i(3, 6)
    fac = c.pick(([1], [1], [1]), ([.8, 1], [.5, 1], [1, 2]), ([1, 2], [1, 1], [1, 1]))
    c.note(sw=sw, d=d, H=H, zw=zw, q0=q0, nz=nz, npp=npp, fac=fac, t=t)
    stp = E.StressPath([dict(ist=True, vl=1.0, npp=3)])
    kw = dict((k, v) for k, v in d.items() if k not in ('Npoint',))
    eo = E.EPUS(SimpleSWCC=E.CurveFittingSWCC(*sw), stp=stp, Npoint=d['Npoint'], **kw)
    ist0 = c.pick(None, (np.array([0, H]), np.array([q0, q0 + 18 * H])))
    a = E.EpusProfile(eo, H=H, zw=zw, q0=q0, gamw=gamw, nz=nz, Npoint=d['Npoint'], npp=npp, nz_refine=fac[0],
                      Npoint_refine=fac[1], npp_refine=fac[2], atol=1e-5, rtol=1e-9, initial_stress=ist0)
    c.call('calc', a.calc)
    c.true('iterations', len(a.niter) == len(fac[0]) and min(a.niter) >= 1)
    p = a.profile
    zw_ = H if zw is None else zw
    z = p.z
    c.true('depths', z[0] == 0 and abs(z[-1] - H) < 1e-12 and (np.diff(z) > 0).all())
    c.true('has requested depths', all(np.abs(z - q).min() < 1e-9 for q in np.linspace(0, H, int(fac[0][-1] * nz))))
    if 0 < zw_ < H:
        c.true('has water table', np.abs(z - zw_).min() < 1e-12)
    c.close('uw', p.uw, (z - zw_) * gamw, rtol=1e-12, atol=1e-12)
    c.close('suction', p.ss, np.where(p.uw < 0, np.maximum(-p.uw, 0), p.ss), rtol=1e-6, atol=1e-9)
    Gs = d['Gs']
    c.close('unit weight', p.gam, (Gs + p.Sr * p.e) / (1 + p.e) * gamw, rtol=1e-12)
    sig = q0 + np.concatenate(([0], np.cumsum(np.diff(z) * (p.gam[1:] + p.gam[:-1]) / 2)))
    c.close('stress from overburden', p.st, sig - np.maximum(p.uw, 0), rtol=1e-10)
    c.true('Sr<=1', (p.Sr <= 1).all())
    Npt, nn = int(fac[1][-1] * d['Npoint']), int(fac[2][-1] * npp)
    dd = dict(d, Npoint=Npt)
    lim = 10.0 ** d.get('MinSuction', -3)

    def state(extra, i):
        st = max(p.st[i], lim / 1000)
        Q = [(True, st, nn)]
        if p.ss_[i] > lim:
            Q.append((False, p.ss_[i], nn))
        return Q, st
    p.ss_ = np.maximum(-p.uw, 0)

    def end(Q):
        s, R = ref(sw, dd, Q)
        r = R[-1][-1]
        return r[2], min(r[3] * Gs / r[2], 1)
    idx = range(p.npts)
    es = np.array([end(state(0, i)[0]) for i in idx])
    # void ratio and saturation are those of the model at the equilibrium stress
    c.close('e', p.e, es[:, 0], rtol=1e-6)
    c.close('Sr', p.Sr, es[:, 1], rtol=1e-6)
    keep = dict((k, getattr(p, k).copy()) for k in ('e', 'Sr', 'st', 'gam', 'uw', 'ss', 'w', 'vw'))
    dsig, dpsi = c.u(1, 30), c.pick(c.u(1, 30), gamw * 1.0)
    if 0 <= zw_ < H and c.coin(.4):
        k = c.pick(*[i for i in idx if p.uw[i] >= 0])
        if p.uw[k] > .5:
            dpsi = float(p.uw[k])          # change that just reaches zero pore pressure
    c.call('compression_indexes', a.compression_indexes, dsig, dpsi)
    p = a.profile
    p.ss_ = np.maximum(-p.uw, 0)
    for k in keep:
        c.close('kept ' + k, getattr(p, k), keep[k], rtol=0)
    m = []
    for i in idx:
        Q, st = state(0, i)
        e1, S1 = end(Q + [(True, st + dsig, nn)])
        if p.uw[i] < 0:
            R2 = [(False, p.ss[i] + dpsi, nn)]
        elif p.uw[i] - dpsi >= lim:
            R2 = [(True, st + dpsi, nn)]
        else:
            R2 = [(True, st + p.uw[i], nn)] + ([(False, dpsi - p.uw[i], nn)] if dpsi - p.uw[i] > lim else [])
        e2, S2 = end(Q + R2)
        e, S = p.e[i], p.Sr[i]
        m.append([(e1 - e) / (1 + e) / dsig, (e2 - e) / (1 + e) / dpsi, (S1 * e1 - S * e) / (1 + e) / dsig, (S2 * e2 - S * e) / (1 + e) / dpsi])
    m = np.array(m).T
    for k, n in enumerate(('m1s', 'm2s', 'm1w', 'm2w')):
        c.close(n, getattr(p, n), m[k], rtol=1e-4, atol=2e-6 / min(dsig, dpsi))
    c.close('m1a', p.m1a, p.m1s - p.m1w, rtol=1e-12)
    c.close('m2a', p.m2a, p.m2s - p.m2w, rtol=1e-12)
    # permeabilities
    ek = c.pick(None, vrp.CkPermeabilityModel(Ck=c.u(.3, 2), ka=c.logu(1e-3, 10), ea=c.u(.5, 2)))
    nw = c.i(20, 60)
    c.call('water_permeability', a.water_permeability, ek, nw)
    for i in c.rng.permutation(p.npts)[:4]:
        if p.ss[i] > lim:
            s2, R2 = ref(sw, dd, [(True, max(p.st[i], lim / 1000), nn), (False, 1e6, nw)])
            if s2.tie or dd.get('MaxSuction', 6) < 6:
                continue
            r = R2[-1]
            want = swm.kwrel_from_discrete_swcc(p.ss[i], cap(r[:, 0]), r[:, 3] * Gs / (1 + r[:, 2]))
            c.close('kw', p.kw[i], want * (1 if ek is None else ek.k_from_e(p.e[i])), rtol=1e-6)
    ks = np.ones(p.npts) if ek is None else np.array([ek.k_from_e(x) for x in p.e])
    sat = p.ss <= lim
    c.close('kw saturated', p.kw[sat], ks[sat], rtol=1e-12)
    c.true('kw bounds', (p.kw >= 0).all() and (p.kw <= ks * (1 + 1e-9)).all(), p.kw)
    qf = c.u(.3, 1.5)
    c.call('air_permeability', a.air_permeability, ek, qf)
    c.close('ka', p.ka, ks * np.array([swm.karel_air_from_saturation(x, qfit=qf) for x in p.Sr]), rtol=1e-12, atol=1e-12)
    # saved table
    a.save_profile_to_file('prof.csv')
    with open('prof.csv') as f:
        head = f.readline().strip().split(',')
        tab = np.loadtxt(f, delimiter=',', ndmin=2)
    c.true('header', head == p._attr and {'st', 'e', 'z', 'm1s', 'kw', 'ka'} <= set(head))
    for j, n in enumerate(head):
        c.close('saved ' + n, tab[:, j], getattr(p, n), rtol=1e-5, elem=True, atol=1e-300)
