"""Shared by C01-C04: one model against its reference Galerkin solution."""
import numpy as np
import fbuild
fbuild.inject('plain')
import specm

TOL = 3e-7


def describe(c, p, txt):
    c.note(model=p['model'], text=None)
    c.params['text'] = txt


def loadscale(p):
    s = 0.0
    for k in ('surcharge', 'vacuum', 'top', 'bot', 'wtop', 'wbot', 'atop', 'abot'):
        for l in p.get(k) or []:
            s = max(s, max(abs(v) for v in l.y) * (max(abs(q) for d in l.depth.p for q in d[2:]) if l.depth else 1))
            if k.endswith('bot') and p['drn'] == 1:
                s = max(s, p['H'] * max(abs(v) for v in l.y))
    for z, k, l in p.get('fixed') or []:
        if l is not None:
            s = max(s, max(abs(v) for v in l.y))
    for z, l in p.get('pumping') or []:
        s = max(s, max(abs(v) for v in l.y) * p['T'] / p['mvref'] / p['H'])
    return s


def good(R):
    """modal decomposition real, decaying, well conditioned"""
    lam = R['S'].lam
    return np.all(abs(lam.imag) <= 1e-9 * abs(lam)) and np.all(lam.real > 0)


def compare(c, p, obj, R, tol=TOL, tag=''):
    for k, w in R['outs'].items():
        g = getattr(obj, k, None)
        if not c.true('%s is produced' % k, g is not None):
            continue
        w = specm.pick_t(p, k, w)
        sc = max(abs(w).max(), 0) if w.size else 0
        atol = tol * loadscale(p)
        if k.startswith('set'):
            atol *= p['H'] * p['mvref']
        c.close(k + tag, g, w, rtol=tol, atol=atol)


def one(c, model, neig=None):
    p = specm.case(c, model, neig)
    txt = specm.text(p, c)
    describe(c, p, txt)
    R = specm.SOLVE[model](p)
    if not good(R):
        c.note(skipped='complex or unstable modes')
        return None
    o = c.call('solves', specm.run, txt, model)
    compare(c, p, o, R)
    return p, txt, o, R


def partial(c, model):
    """some outputs only, defaults left out, file-like input"""
    import io
    p = specm.case(c, model)
    keep = c.pick(('ppress_z',), ('avg_ppress_z_pairs',), ('settlement_z_pairs',), ('ppress_z', 'settlement_z_pairs'))
    dflt = dict(H=1.0, drn=0, dT=1.0, mvref=1.0, ua_=101)
    L = []
    for l in specm.text(p).splitlines():
        k = l.split(' = ')[0]
        if k in specm.OUTKEYS and not k.startswith(keep):
            continue
        if k in dflt and l == '%s = %r' % (k, dflt[k]) and c.coin(.8):
            continue
        L.append(l)
    txt = '\n'.join(L) + '\n'
    describe(c, p, txt)
    R = specm.SOLVE[model](p)
    if not good(R):
        return
    rd = io.StringIO(txt) if c.coin() else txt
    o = c.call('solves', specm.run, rd, model)
    R['outs'] = {k: v for k, v in R['outs'].items() if specm.IDXOF(k) in keep}
    compare(c, p, o, R)
    for k in ('por', 'porwell', 'pors', 'porc', 'porw', 'pora', 'avp', 'avps', 'avpc', 'avpw', 'avpa', 'set', 'setw', 'seta'):
        if specm.IDXOF(k) not in keep:
            c.true('output not asked for is absent', not hasattr(o, k), k)


def units(c, model):
    """The same problem in other units has the same answer."""
    p = specm.case(c, model)
    R = specm.SOLVE[model](p)
    if not good(R):
        c.note(skipped='complex or unstable modes')
        return
    e = lambda pr, lo, hi: 10.0 ** c.i(lo, hi) if c.coin(pr) else 1.0
    at, b, sm, sk = e(.7, -4, 9), e(.5, -6, 6), e(.5, -9, 6), e(.5, -12, 6)
    ua = e(.5, -4, 6) if model == 'unsat' else 1.0
    q = specm.rescale(p, at, b, sm, sk, ua)
    txt = specm.text(q, c)
    describe(c, q, txt)
    c.note(at=at, b=b, sm=sm, sk=sk, ua=ua)
    o = c.call('solves', specm.run, txt, model)
    for k, w in R['outs'].items():
        g = getattr(o, k, None)
        if not c.true('%s is produced' % k, g is not None):
            continue
        w = specm.pick_t(p, k, w)
        f = b / ua if k.startswith('set') else b
        atol = TOL * loadscale(p) * (p['H'] * p['mvref'] if k.startswith('set') else 1)
        c.close(k + ' in other units', np.asarray(g) / f, w, rtol=TOL, atol=atol)
