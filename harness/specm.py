"""Reference solution of the spectral consolidation models, written from their
documented governing equations: Galerkin projection with Gauss-Legendre depth
integrals, modal decomposition in complex arithmetic, exact convolution with
the load history (sref).  No geotecha code."""
import re
import numpy as np
import sref
from sref import PL


# ------------------------------------------------------------ case generation
def hist(c, T, nmax=4):
    """x, y of a load history on the scale T, starting from zero at t=0"""
    x, y = [0.0], [0.0]
    if c.coin(.5):
        x.append(0.0); y.append(round(c.u(-30, 100), 2))
    for _ in range(c.i(1, nmax)):
        x.append(round(x[-1] + T * c.logu(.02, 1.5), 5))
        y.append(y[-1] if c.coin(.45) else round(c.u(-50, 100), 2))
        if c.coin(.2):
            x.append(x[-1]); y.append(round(c.u(-50, 100), 2))
    return x, y


class Load(object):
    def __init__(self, x, y, om=None, depth=None):
        self.x, self.y, self.om, self.depth = list(x), list(y), om, depth
        self.r = PL.xy(x, y)
        self.r.start, self.r.final = y[0], y[-1]

    def scaled(self, f):
        return Load(self.x, [f * v for v in self.y], self.om, self.depth)

    def at(self, t):
        """value just after t"""
        t = np.asarray(t, float)
        v = np.array([self.r.final if s >= self.r.p[-1][1] else self.r.val(s, True) for s in t])
        return v if self.om is None else v * np.cos(self.om[0] * t + self.om[1])

    def E(self, lam, t):
        return sref.conv(self.r, lam, t, self.om)

    def D(self, lam, t):
        return sref.convD(self.r, lam, t, self.om, start=self.r.start)


def loads(c, T, depth=None, pom=.3, n=None):
    n = n or c.pick(1, 1, 2, 3)
    allow = c.coin(pom * 2)
    return [Load(*hist(c, T), om=((round(c.u(.2, 8) / T, 6), round(c.u(-3, 3), 4)) if allow and c.coin() else None),
                 depth=depth(c) if depth else None) for _ in range(n)]


def txt_poly(p, c=None):
    """text of a PolyLine on depth; alternate constructors where possible"""
    x, y = p.xylist()
    a, b, u, v = p.x4()
    if c is not None and c.coin(.3):
        return 'PolyLine(%r, %r, %r, %r)' % (a, b, u, v)
    return 'PolyLine(%r, %r)' % (x, y)


def txt_hist(l):
    return 'PolyLine(%r, %r)' % (l.x, l.y)


def txt_list(items, c):
    if len(items) == 1 and c is not None and c.coin(.5):
        return items[0]
    return '[' + ', '.join(items) + ']'


def txt_om(ls, c):
    """None when nothing oscillates"""
    if all(l.om is None for l in ls):
        return None
    return '[' + ', '.join('None' if l.om is None else repr(tuple(l.om)) for l in ls) + ']'


# --------------------------------------------------------------- the solution
def modes(drn, n):
    return np.pi * (np.arange(n) + (1.0 if drn == 0 else 0.5))


class Sys(object):
    """M A' + K A = sum theta * (load | d load/dt)"""

    def __init__(self, M, K, t):
        lam, V = np.linalg.eig(np.linalg.solve(M, K))
        self.lam, self.V = lam, V
        self.MV = M @ V
        self.t = np.asarray(t, float)
        self.A = np.zeros((len(M), len(self.t)), complex)
        self.f = []

    def add(self, theta, load, D):
        e = load.D(self.lam.astype(complex), self.t) if D else load.E(self.lam.astype(complex), self.t)
        self.A += self.V @ (e * np.linalg.solve(self.MV, np.asarray(theta, complex))[None, :]).T

    def result(self):
        return self.A.real


class Fields(object):
    """Boundary fields of one phase: list of (load, g(z))"""

    def __init__(self, drn, H, top, bot):
        self.drn = drn
        self.b = []
        for l in top or []:
            self.b.append((l, PL.lin(1, 1) if drn == 1 else PL.lin(1, 0)))
        for l in bot or []:
            self.b.append((l.scaled(H) if drn == 1 else l, PL.lin(0, 1)))

    def values(self, z, t):
        out = np.zeros((len(z), len(t)))
        for l, g in self.b:
            out += np.outer([g.val(v) for v in z], l.at(t))
        return out

    def integral(self, f, pairs, t):
        out = np.zeros((len(pairs), len(t)))
        for l, g in self.b:
            out += np.outer([sref.scal(f + [g], a, b) for a, b in pairs], l.at(t))
        return out


def dflux(m, k, g):
    """int phi (k g')' with g' constant: [phi k g'] - int k g' phi'"""
    s = g.p[0][3] - g.p[0][2]
    return s * (np.sin(m) * k.val(1.0, True) - sref.vec(m, [k], 1))


def out_p(m, A, F, z, t):
    return np.sin(np.outer(z, m)) @ A + F.values(z, t)


def out_int(m, A, F, f, pairs, t):
    return np.array([sref.vec(m, f, lo=a, hi=b) if f else sref.vec(m, [PL.const()], lo=a, hi=b) for a, b in pairs]) @ A + F.integral(f, pairs, t)


def out_avg(m, A, F, pairs, t):
    return out_int(m, A, F, [], pairs, t) / np.array([b - a for a, b in pairs])[:, None]


def sig_int(loads_, f, pairs, t):
    out = np.zeros((len(pairs), len(t)))
    for l in loads_ or []:
        out += np.outer([sref.scal(f + [l.depth], a, b) for a, b in pairs], l.at(t))
    return out


def soil_terms(S, m, p, mv='mv'):
    """surcharge, mv du_b/dt, vertical drainage of u_b"""
    P = p['prof']
    for l in p.get('surcharge') or []:
        S.add(sref.vec(m, [P[mv], l.depth]), l, True)
    for l, g in p['F'].b:
        S.add(-sref.vec(m, [P[mv], g]), l, True)


def solve_vr(p):
    m, P, t = p['m'], p['prof'], p['t']
    M = sref.mat(m, [P['mv']])
    K = np.zeros_like(M)
    if 'kv' in P:
        K += p['dTv'] * sref.mat(m, [P['kv']], 1, 1)
    if 'kh' in P:
        K += p['dTh'] * sref.mat(m, [P['kh'], P['et']])
    for zf, kf, l in p.get('fixed') or []:
        s = np.sin(m * zf)
        K += kf * np.outer(s, s)
    S = Sys(M, K, t)
    soil_terms(S, m, p)
    for l in p.get('vacuum') or []:
        S.add(p['dTh'] * sref.vec(m, [P['kh'], P['et'], l.depth]), l, False)
    for l, g in p['F'].b:
        if 'kh' in P:
            S.add(-p['dTh'] * sref.vec(m, [P['kh'], P['et'], g]), l, False)
        if 'kv' in P:
            S.add(p['dTv'] * dflux(m, P['kv'], g), l, False)
    point_terms(S, m, p)
    A = S.result()
    return dict(S=S, A=A, outs=soil_out(p, A))


def point_terms(S, m, p):
    for zf, kf, l in p.get('fixed') or []:
        s = np.sin(m * zf)
        if l is not None:
            S.add(kf * s, l, False)
        for b, g in p['F'].b:
            S.add(-kf * s * g.val(zf), b, False)
    for zp, l in p.get('pumping') or []:
        S.add(np.sin(m * zp) / (p['mvref'] * p['H']), l, False)


def soil_out(p, A):
    m, t, F = p['m'], p['t'], p['F']
    o = dict(por=out_p(m, A, F, p['z'], t), avp=out_avg(m, A, F, p['pairs'], t))
    mv = p['prof']['mv']
    o['set'] = p['H'] * p['mvref'] * (sig_int(p.get('surcharge'), [mv], p['spairs'], t) - out_int(m, A, F, [mv], p['spairs'], t))
    return o


def solve_vrw(p):
    m, P, t = p['m'], p['prof'], p['t']
    M = sref.mat(m, [P['mv']])
    Ps = p['dTh'] * sref.mat(m, [P['kh'], P['et']])
    Pw = p['dTw'] * sref.mat(m, [P['kw']], 1, 1)
    K = Ps.copy()
    if 'kv' in P:
        K += p['dTv'] * sref.mat(m, [P['kv']], 1, 1)
    for zf, kf, l in p.get('fixed') or []:
        s = np.sin(m * zf)
        K += kf * np.outer(s, s)
    R = np.linalg.inv(Ps + Pw)
    K -= Ps @ R @ Ps
    S = Sys(M, K, t)
    soil_terms(S, m, p)
    w = np.zeros((len(m), len(t)))
    for l, g in p['F'].b:
        if 'kv' in P:
            S.add(p['dTv'] * dflux(m, P['kv'], g), l, False)
        tb = p['dTw'] * dflux(m, P['kw'], g)
        S.add(Ps @ R @ tb, l, False)
        w += np.outer(R @ tb, l.at(t))
    point_terms(S, m, p)
    A = S.result()
    o = soil_out(p, A)
    o['porwell'] = out_p(m, R @ Ps @ A + w, p['F'], p['z'], t)
    return dict(S=S, A=A, outs=o)


def solve_vrc(p):
    m, P, t = p['m'], p['prof'], p['t']
    n = len(m)
    al = 1.0 / p['n'] ** 2
    M = sref.mat(m, [P['mv']])
    Pv = p['dTv'] * sref.mat(m, [P['kv']], 1, 1)
    Pvc = p['dTvc'] * sref.mat(m, [P['kvc']], 1, 1)
    Ph = p['dTh'] * sref.mat(m, [P['kh'], P['et']])
    Phc = p['dThc'] * sref.mat(m, [P['khc']])
    I, Z = np.eye(n), np.zeros((n, n))
    # unknowns us, uc, beta
    #  (1-al) us + al uc                                    = u
    #  Ph (us-be) + Pv us  - Phc (uc-be) - Pvc uc           = Sb - Cb
    #  (1-al) Ph (us-be)  + al Phc (uc-be)                  = 0
    # eliminating beta from the last line is avoided: solved as a block system
    G = np.block([[(1 - al) * I, al * I, Z],
                  [Ph + Pv, -(Phc + Pvc), Phc - Ph],
                  [(1 - al) * Ph, al * Phc, -(1 - al) * Ph - al * Phc]])
    GI = np.linalg.inv(G)
    us_u, uc_u = GI[:n, :n], GI[n:2 * n, :n]
    us_b, uc_b = GI[:n, n:2 * n], GI[n:2 * n, n:2 * n]
    W = lambda us, uc: (1 - al) * Pv @ us + al * Pvc @ uc
    S = Sys(M, W(us_u, uc_u), t)
    soil_terms(S, m, p)
    ws, wc = np.zeros((n, len(t))), np.zeros((n, len(t)))
    for l, g in p['F'].b:
        Sb, Cb = p['dTv'] * dflux(m, P['kv'], g), p['dTvc'] * dflux(m, P['kvc'], g)
        d = Sb - Cb
        S.add((1 - al) * Sb + al * Cb - W(us_b @ d, uc_b @ d), l, False)
        ws += np.outer(us_b @ d, l.at(t))
        wc += np.outer(uc_b @ d, l.at(t))
    A = S.result()
    o = soil_out(p, A)
    As, Ac = us_u @ A + ws, uc_u @ A + wc
    for k, a in (('s', As), ('c', Ac)):
        o['por' + k] = out_p(m, a, p['F'], p['z'], t)
        o['avp' + k] = out_avg(m, a, p['F'], p['pairs'], t)
    return dict(S=S, A=A, outs=o)


def solve_unsat(p):
    """dim air/water: signs of the documented equations"""
    m, P, t = p['m'], p['prof'], p['t']
    n = len(m)
    z = 1.0 / (p['ua_'] * p['mvref'])
    one = PL.const()
    mass = {'ww': [(1, [P['m2w']])],
            'wa': [(1, [P['m1kw']]), (-1, [P['m2w']])],
            'aw': [(1, [P['m2a']])],
            'aa': [(1, [P['m1ka']]), (-1, [P['m2a']]), (-z, [P['n']]), (z, [P['n'], P['S']])]}
    mm = lambda k: sum(s * sref.mat(m, f) for s, f in mass[k])
    mv = lambda k, g: sum(s * sref.vec(m, f + [g]) for s, f in mass[k])
    M = np.block([[mm('ww'), mm('wa')], [mm('aw'), mm('aa')]])
    Z = np.zeros((n, n))
    # + dT (k u')'  ->  - dT int k u' phi'
    K = -np.block([[p['dTw'] * sref.mat(m, [P['kw']], 1, 1), Z], [Z, p['dTa'] * sref.mat(m, [P['Da']], 1, 1)]])
    S = Sys(M, K, t)
    cat = lambda a, b: np.concatenate([a, b])
    o_ = np.zeros(n)
    for l in p.get('surcharge') or []:
        S.add(cat(sref.vec(m, [P['m1kw'], l.depth]), sref.vec(m, [P['m1ka'], l.depth])), l, True)
    for l, g in p['Fw'].b:
        S.add(-cat(mv('ww', g), mv('aw', g)), l, True)
        S.add(cat(-p['dTw'] * dflux(m, P['kw'], g), o_), l, False)
    for l, g in p['Fa'].b:
        S.add(-cat(mv('wa', g), mv('aa', g)), l, True)
        S.add(cat(o_, -p['dTa'] * dflux(m, P['Da'], g)), l, False)
    A = S.result()
    Aw, Aa = A[:n], A[n:]
    o = dict(porw=out_p(m, Aw, p['Fw'], p['z'], t), pora=out_p(m, Aa, p['Fa'], p['z'], t),
             avpw=out_avg(m, Aw, p['Fw'], p['pairs'], t), avpa=out_avg(m, Aa, p['Fa'], p['pairs'], t))
    sp = p['spairs']
    for k in 'wa':
        m1, m2 = P['m1k' + k], P['m2' + k]
        ua = lambda q: out_int(m, Aa, p['Fa'], [q], sp, t)
        uw = lambda q: out_int(m, Aw, p['Fw'], [q], sp, t)
        o['set' + k] = p['H'] * p['mvref'] * (sig_int(p.get('surcharge'), [m1], sp, t) - ua(m1) + ua(m2) - uw(m2))
    o['set'] = o['setw'] + o['seta']
    return dict(S=S, A=A, outs=o)


SOLVE = dict(vr=solve_vr, vrw=solve_vrw, vrc=solve_vrc, unsat=solve_unsat)


# ---------------------------------------------------------------- generation
def props(c, names, lo=.3, hi=3.):
    """profiles on a common or on their own layering"""
    base = sref.layers(c, c.pick(1, 1, 2, 3, 5))
    sync = c.coin(.6)
    out = {}
    for k in names:
        z = base if sync else sref.layers(c, c.pick(1, 2, 3))
        out[k] = sref.prof(c, z, lo, hi)
    return out


def outputs(c, T):
    nt = c.i(1, 6)
    p = {}
    tv = list(np.round(T * c.logu(1e-3, 3, nt), 6))
    p['z'] = sorted(set([0.0, 1.0] + [round(c.u(0, 1), 3) for _ in range(c.i(1, 4))]))
    if c.coin(.3):
        p['z'] = [round(c.u(0, 1), 3)]
    prs = []
    for _ in range(c.i(1, 3)):
        a, b = sorted([round(c.u(0, 1), 2), round(c.u(0, 1), 2)])
        prs.append([a, b] if b - a > .02 else [0.0, 1.0])
    p['pairs'] = prs
    p['spairs'] = [[0.0, 1.0]] if c.coin() else [prs[0], [0.0, 1.0]]
    return p, tv


def case(c, model, neig=None):
    """random admissible input -> p (physical description)"""
    p = dict(model=model)
    p['drn'] = c.pick(0, 1)
    p['H'] = c.pick(1.0, round(c.logu(.2, 30), 3))
    p['mvref'] = c.pick(1.0, round(c.logu(.01, 50), 4)) if model != 'unsat' else c.pick(1e-4, 2.5e-4, 1.0)
    p['neig'] = neig or c.pick(2, 3, 4, 5, 7, 10, 14)
    p['m'] = modes(p['drn'], p['neig'])
    T = c.pick(1.0, 1.0, c.logu(.02, 50))
    p['T'] = T
    o, tv = outputs(c, T)
    p.update(o)
    which = {}
    has = lambda pr=.5: c.coin(pr)
    rate = lambda: round(c.logu(.03, 3), 4) / T
    if model == 'vr':
        use = c.pick('v', 'h', 'vh', 'vh')
        P = props(c, ['mv'] + (['kv'] if 'v' in use else []) + (['kh', 'et'] if 'h' in use else []))
        if c.coin(.15):     # consolidation coefficient constant with depth
            for k in P:
                P[k] = P['mv'] if k in ('kv', 'kh') else PL.const(1.0)if k == 'et' else P[k]
        if 'v' in use:
            p['dTv'] = rate()
        if 'h' in use:
            p['dTh'] = rate()
        if use == 'vh' and c.coin(.1):
            p[c.pick('dTv', 'dTh')] = 0.0      # one drainage direction switched off
        p['prof'] = P
    elif model == 'vrw':
        P = props(c, ['mv', 'kh', 'et', 'kw'] + (['kv'] if has() else []))
        if 'kv' in P:
            p['dTv'] = rate()
        p['dTh'], p['dTw'] = rate() * 4, rate() * 10 ** c.u(-.5, 1.5)
        p['prof'] = P
    elif model == 'vrc':
        p['prof'] = props(c, ['mv', 'kv', 'kh', 'et', 'kvc', 'khc'])
        p['dTv'], p['dTh'], p['dTvc'], p['dThc'] = rate(), rate() * 4, rate() * 10 ** c.u(0, 1.5), rate() * 10 ** c.u(0, 1.5)
        p['n'] = round(c.u(1.2, 12), 3)
    else:
        if c.coin(.5):
            z = sref.layers(c)
            sh = sref.prof(c, z, .5, 2.)
            P = {k: sh.scaled(s) for k, s in (('m1ka', -round(c.u(1.5, 2.5), 3)), ('m1kw', -round(c.u(.3, .9), 3)), ('m2a', round(c.u(.4, 1.2), 3)), ('m2w', -round(c.u(1.3, 2.5), 3)))}
        else:
            q = lambda v: sref.prof(c, None, .8, 1.25).scaled(v)
            P = dict(m1ka=q(-2.), m1kw=q(-.5), m2a=q(1.), m2w=q(-2.))
        P['kw'], P['Da'] = sref.prof(c), sref.prof(c)
        P['n'], P['S'] = sref.prof(c, None, .2, .6), sref.prof(c, None, .3, .95)
        p['prof'] = P
        p['ua_'] = c.pick(101, 111.0, round(c.u(80, 150), 1))
        if p['mvref'] == 1.0:
            p['ua_'] = round(c.u(.05, .5), 3)
        p['dTw'], p['dTa'] = rate(), rate() * 10 ** c.u(-1, 2)
    for k in list(P if model != 'vrc' else p['prof']):
        if c.coin(.12) and k != 'mv' and model != 'unsat':
            p['prof'][k] = PL.const(1.0)
    dep = lambda cc: sref.prof(cc, None, .3, 3., neg=cc.coin(.2))
    while True:
        p['surcharge'] = loads(c, T, dep) if has(.6) else None
        if model == 'unsat':
            for k in ('wtop', 'wbot', 'atop', 'abot'):
                p[k] = loads(c, T) if has(.4) else None
            if c.coin(.2):
                for k in ('wtop', 'wbot', 'atop', 'abot'):
                    p[k] = p[k] or loads(c, T, n=1)
            any_ = [p[k] for k in ('surcharge', 'wtop', 'wbot', 'atop', 'abot')]
        else:
            p['top'] = loads(c, T) if has(.4) else None
            p['bot'] = loads(c, T) if has(.4) else None
            any_ = [p['surcharge'], p['top'], p['bot']]
            if model == 'vr':
                p['vacuum'] = loads(c, T, dep) if has(.35) and 'kh' in p['prof'] else None
                any_.append(p['vacuum'])
            if model in ('vr', 'vrw'):
                p['fixed'] = [(round(c.u(.1, .9), 3), round(c.logu(.1, 50) / T, 4), Load(*hist(c, T), om=((round(c.u(.2, 8) / T, 6), .3) if c.coin(.3) else None)) if c.coin(.7) else None) for _ in range(c.i(1, 2))] if has(.3) else None
                p['pumping'] = [(round(c.u(.1, .9), 3), Load(*hist(c, T), om=((round(c.u(.2, 8) / T, 6), -.7) if c.coin(.3) else None)).scaled(p['mvref'] * p['H'] / T * .1)) for _ in range(c.i(1, 2))] if has(.3) else None
                any_ += [p['fixed'], p['pumping']]
        if any(any_):
            break
    share(c, p)
    any_ = [p.get(k) for k in ('surcharge', 'vacuum', 'fixed', 'pumping') + BC if p.get(k)]
    # output times: also exactly at corners and steps of some load
    xs = [v for a in any_ if a for l in a for v in (l.x if isinstance(l, Load) else l[-1].x if l[-1] is not None else [])]
    if xs and c.coin(.6):
        tv.append(float(xs[c.i(0, len(xs) - 1)]))
    if c.coin(.15):
        tv.append(0.0)
    if c.coin(.7):
        tv.sort()
    # a step at the very last point of a history: its value *at* that time is
    # read differently by different routines; do not ask for it
    ends = [l for a in any_ if a for l in ([a_ if isinstance(a_, Load) else a_[-1] for a_ in a]) if l is not None and l.r.final != l.r.p[-1][3]]
    tv = [t for t in tv if all(abs(t - l.x[-1]) > 1e-9 * T for l in ends)] or [T * .37]
    p['t'] = np.array(tv)
    nt = len(tv)
    p['idx'] = {}
    for k in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs'):
        p['idx'][k] = c.pick(None, None, 'slice(%d, None)' % c.i(0, nt - 1), repr(sorted(set(c.i(0, nt - 1) for _ in range(2)))), 'slice(None, None, 2)')
    rates = [p[k] for k in p if k.startswith('dT') and p[k]]
    p['dT'] = c.pick(1.0 if .05 < T < 20 else rates[0], rates[0], max(rates), round(c.logu(.3, 3), 3) * max(rates))
    p['impl'] = c.pick('scalar', 'vectorized', 'fortran')
    finish(p)
    return p


BC = ('top', 'bot', 'wtop', 'wbot', 'atop', 'abot')


def share(c, p):
    """some loads follow the same history or depth profile as another one (the
    text may then use one object for both)"""
    if not c.coin(.4):
        return
    L = [(p[k], i) for k in ('surcharge', 'vacuum') + BC for i in range(len(p.get(k) or []))]
    if len(L) < 2 and L and c.coin():
        a = L[0][0]
        a.append(Load(a[0].x, a[0].y, None if a[0].om else (2.0 / max(a[0].x[-1], 1e-3), .4), a[0].depth))
        return
    for _ in range(c.i(1, 3)):
        if len(L) < 2:
            return
        (a, i), (b, j) = L[c.i(0, len(L) - 1)], L[c.i(0, len(L) - 1)]
        if a[i] is b[j]:
            continue
        if c.coin(.8):
            b[j] = Load(a[i].x, a[i].y, b[j].om, b[j].depth)
        if a[i].depth is not None and b[j].depth is not None and c.coin():
            b[j].depth = a[i].depth


def name_shared(c, L):
    """use one named object where the same PolyLine is written more than once"""
    pat = re.compile(r'PolyLine\((?:[^()]|\([^()]*\))*\)')
    seen = {}
    for l in L:
        for m in pat.findall(l):
            seen[m] = seen.get(m, 0) + 1
    head = []
    for m, n in seen.items():
        if n > 1 and c.coin(.8):
            nm = 'shared_%d' % len(head)
            head.append('%s = %s' % (nm, m))
            L = [l.replace(m, nm) for l in L]
    return head, L


def finish(p):
    if p['model'] == 'unsat':
        p['Fw'] = Fields(p['drn'], p['H'], p.get('wtop'), p.get('wbot'))
        p['Fa'] = Fields(p['drn'], p['H'], p.get('atop'), p.get('abot'))
    else:
        p['F'] = Fields(p['drn'], p['H'], p.get('top'), p.get('bot'))


ALT = {'surcharge': ('surcharge_vs_time', 'surcharge_omega_phase', 'surcharge_vs_depth'),
       'vacuum': ('vacuum_vs_time', 'vacuum_omega_phase', 'vacuum_vs_depth')}
for _k in ('top', 'bot', 'wtop', 'wbot', 'atop', 'abot'):
    ALT[_k] = (_k + '_vs_time', _k + '_omega_phase', None)


def text(p, c=None, **over):
    """the input text of the case"""
    L = []
    q = dict(p)
    q.update(over)
    for k in ('H', 'drn', 'mvref', 'neig', 'dT', 'dTv', 'dTh', 'dTw', 'dTvc', 'dThc', 'dTa', 'n', 'ua_'):
        if k in q and not isinstance(q[k], PL):
            L.append('%s = %r' % (k, q[k]))
    for k, v in q['prof'].items():
        L.append('%s = %s' % (k, txt_poly(v, c)))
    for k, (a, b, d) in ALT.items():
        ls = q.get(k)
        if not ls:
            continue
        L.append('%s = %s' % (a, txt_list([txt_hist(l) for l in ls], c)))
        om = txt_om(ls, c)
        if om is not None:
            L.append('%s = %s' % (b, om))
        if d:
            L.append('%s = %s' % (d, txt_list([txt_poly(l.depth, c) for l in ls], c)))
    if q.get('fixed'):
        L.append('fixed_ppress = [' + ', '.join('(%r, %r, %s)' % (z, k, 'None' if l is None else txt_hist(l)) for z, k, l in q['fixed']) + ']')
        om = [None if l is None else l.om for z, k, l in q['fixed']]
        if any(om):
            L.append('fixed_ppress_omega_phase = %r' % (om,))
    if q.get('pumping'):
        L.append('pumping = [' + ', '.join('(%r, %s)' % (z, txt_hist(l)) for z, l in q['pumping']) + ']')
        om = [l.om for z, l in q['pumping']]
        if any(om):
            L.append('pumping_omega_phase = %r' % (om,))
    arr = (lambda s: 'np.array(%s)' % s) if c is not None and c.coin(.4) else (lambda s: s)
    L.append('ppress_z = ' + arr(repr([float(v) for v in q['z']])))
    L.append('avg_ppress_z_pairs = ' + repr([[float(a), float(b)] for a, b in q['pairs']]))
    L.append('settlement_z_pairs = ' + repr([[float(a), float(b)] for a, b in q['spairs']]))
    L.append('tvals = ' + arr(repr([float(v) for v in q['t']])))
    for k, v in q['idx'].items():
        if v is not None:
            L.append('%s_tval_indexes = %s' % (k, v))
    L.append("implementation = '%s'" % q['impl'])
    if c is not None and c.coin():
        o = list(range(len(L)))
        c.rng.shuffle(o)
        L = [L[i] for i in o]
    if c is not None:
        head, L = name_shared(c, L)
        L = head + L
    return '\n'.join(L) + '\n'


OUTKEYS = [a + b for a in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs') for b in ('', '_tval_indexes')]
IDXOF = lambda name: 'settlement_z_pairs' if name.startswith('set') else 'avg_ppress_z_pairs' if name.startswith('avp') else 'ppress_z'


def pick_t(p, name, a):
    v = p['idx'][IDXOF(name)]
    return a if v is None else a[:, eval(v)]


_CLS = {}


def cls(model):
    if model not in _CLS:
        import importlib
        mod = importlib.import_module('geotecha.speccon.speccon1d_' + model)
        _CLS[model] = getattr(mod, 'Speccon1d' + dict(vr='VR', vrw='VRW', vrc='VRC', unsat='Unsat')[model])
    return _CLS[model]


def run(txt, model):
    a = cls(model)(txt)
    a.make_all()
    return a


def rescale(p, at, b, sm, sk, ua=1.0):
    """the same physical problem in other units: times x at, stresses x b,
    compressibility profiles x sm (mvref / sm / ua), permeability profiles x sk
    (rates adjusted).  Pressures scale with b, settlements with b / ua."""
    q = dict(p)
    un = p['model'] == 'unsat'
    mech = ('m1ka', 'm1kw', 'm2a', 'm2w') if un else ('mv',)
    keep = ('n', 'S', 'et')
    q['prof'] = {k: (v if k in keep else v.scaled(sm) if k in mech else v.scaled(sk)) for k, v in p['prof'].items()}
    q['mvref'] = p['mvref'] / sm / ua
    if un:
        q['ua_'] = p['ua_'] * ua
    for k in ('dTv', 'dTh', 'dTw', 'dTvc', 'dThc', 'dTa'):
        if k in p:
            q[k] = p[k] * (sm / sk) / at
    q['dT'] = p['dT'] / at

    def ld(l, f=b, mag=True):
        return None if l is None else Load([v * at for v in l.x], [v * f for v in l.y],
                                           None if l.om is None else (l.om[0] / at, l.om[1]), l.depth)
    for k in ('surcharge', 'vacuum') + BC:
        if p.get(k):
            q[k] = [ld(l) for l in p[k]]
    if p.get('fixed'):
        q['fixed'] = [(z, k * sm / at, ld(l)) for z, k, l in p['fixed']]
    if p.get('pumping'):
        q['pumping'] = [(z, ld(l, b * sm / at * q['mvref'] / p['mvref'])) for z, l in p['pumping']]
    q['t'] = p['t'] * at
    q['T'] = p['T'] * at
    finish(q)
    return q
