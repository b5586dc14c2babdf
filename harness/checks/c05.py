"""C05 relations between runs of the spectral models."""
import copy
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group
import sref, specm
from sref import PL
from specm import Load
from checks.speccheck import loadscale
from geotecha.piecewise.piecewise_linear_1d import PolyLine

RULE = ('Pairs (or sets) of runs of the same random problem, transformed so that the results must be equal or add up:'
        ' loads split or scaled, future loads changed, layers split, reference values re-chosen, outputs added or selected,'
        ' implementation switched, repeated and interleaved runs.')
ASSUMPTIONS = ['Loads start from zero at time zero.']
MODELS = ('vr', 'vrw', 'vrc', 'unsat')
LOADS = ('surcharge', 'vacuum', 'top', 'bot', 'wtop', 'wbot', 'atop', 'abot')
OUT = ('por', 'porwell', 'pors', 'porc', 'porw', 'pora', 'avp', 'avps', 'avpc', 'avpw', 'avpa', 'set', 'setw', 'seta')


def outs(o):
    return {k: np.array(getattr(o, k)) for k in OUT if hasattr(o, k)}


def base(c):
    model = c.pick(*MODELS)
    p = specm.case(c, model, c.pick(2, 3, 4, 6, 9))
    for k in p['idx']:
        p['idx'][k] = None
    R = specm.SOLVE[model](p)
    lam = R['S'].lam
    if not (np.all(abs(lam.imag) <= 1e-9 * abs(lam)) and np.all(lam.real > 0)):
        return None, None
    return model, p


def run(c, p, model, label='runs', cc=None):
    t = specm.text(p, cc)
    c.note(model=model)
    c.params['text ' + label] = t
    return outs(c.call(label, specm.run, t, model))


def same(c, label, a, b, p, tol=2e-7, f=1.0):
    c.true(label + ': same outputs', set(a) == set(b), '%s %s' % (sorted(a), sorted(b)))
    for k in a:
        at = tol * loadscale(p) * abs(f)
        if k.startswith('set'):
            at *= p['H'] * p['mvref']
        c.close(label + ' ' + k, b[k], a[k], rtol=tol, atol=at)


def members(p):
    """every separate load as (key, index)"""
    out = [(k, i) for k in LOADS for i in range(len(p.get(k) or []))]
    out += [('fixed', i) for i, f in enumerate(p.get('fixed') or []) if f[2] is not None]
    out += [('pumping', i) for i in range(len(p.get('pumping') or []))]
    return out


def only(p, keep):
    q = dict(p)
    for k in LOADS:
        if p.get(k):
            q[k] = [l for i, l in enumerate(p[k]) if (k, i) in keep] or None
    if p.get('fixed'):
        q['fixed'] = [(z, kf, l if ('fixed', i) in keep else None) for i, (z, kf, l) in enumerate(p['fixed'])]
    if p.get('pumping'):
        q['pumping'] = [v for i, v in enumerate(p['pumping']) if ('pumping', i) in keep] or None
    return q


def map_loads(p, f):
    q = dict(p)
    for k in LOADS:
        if p.get(k):
            q[k] = [f(l) for l in p[k]]
    if p.get('fixed'):
        q['fixed'] = [(z, kf, None if l is None else f(l)) for z, kf, l in p['fixed']]
    if p.get('pumping'):
        q['pumping'] = [(z, f(l)) for z, l in p['pumping']]
    return q


@group('superposition', quick=110, thorough=2500)
def superposition(c):
    model, p = base(c)
    if p is None:
        return
    ms = members(p)
    if len(ms) < 2:
        return
    ks = [m for m in ms]
    c.rng.shuffle(ks)
    ks = [tuple([a, int(b)]) for a, b in ks]
    cut = c.i(1, len(ks) - 1)
    parts = [set(ks[:cut]), set(ks[cut:])] if c.coin() else [{k} for k in ks]
    whole = run(c, p, model, 'all loads', c)
    tot = None
    for i, s in enumerate(parts):
        q = only(p, s)
        if not any(q.get(k) for k in LOADS) and not q.get('pumping') and not q.get('fixed'):
            continue
        r = run(c, q, model, 'part %d' % i, c)
        tot = r if tot is None else {k: tot[k] + r[k] for k in r}
    same(c, 'sum of separate responses', whole, tot, p)


@group('shared objects', quick=110, thorough=1500)
def shared(c):
    """loads (and layers) written with one object or with equal separate objects"""
    model, p = base(c)
    if p is None:
        return
    kinds = [k for k in LOADS if p.get(k)]
    if not kinds:
        return
    k = kinds[c.i(0, len(kinds) - 1)] if not p.get('vacuum') or c.coin() else 'vacuum'
    a = p[k][0]
    alt = (round(c.u(.3, 6) / max(a.x[-1], 1e-3), 5), round(c.u(-2, 2), 3))
    q = copy.copy(p)
    q[k] = [a] + [Load(a.x, a.y, None if a.om and i % 2 == 0 else alt, l.depth) for i, l in enumerate((p[k][1:] or [a]))]
    if c.coin(.3):
        q[k] = q[k][::-1]
    for o in kinds:
        if o != k and c.coin(.4):
            q[o] = [Load(a.x, a.y, l.om, l.depth) for l in p[o]]
    specm.finish(q)
    one = run(c, q, model, 'shared', c)
    same(c, 'shared and separate objects', run(c, q, model, 'separate'), one, q)
    tot = None
    for i in range(len(q[k])):
        r = run(c, dict(only(q, {(k, i)})), model, 'part %d' % i)
        tot = r if tot is None else {v: tot[v] + r[v] for v in r}
    rest = set(members(q)) - {(k, i) for i in range(len(q[k]))}
    if rest:
        r = run(c, only(q, rest), model, 'others')
        tot = {v: tot[v] + r[v] for v in r}
    same(c, 'sum of separate responses', one, tot, q)


@group('scaling', quick=60, thorough=1200)
def scaling(c):
    model, p = base(c)
    if p is None:
        return
    f = c.pick(-1.0, 2.0, c.logu(.01, 100) * c.pick(1, -1))
    a = run(c, p, model, 'base')
    b = run(c, map_loads(p, lambda l: l.scaled(f)), model, 'scaled by %r' % f)
    same(c, 'scaled response', {k: f * v for k, v in a.items()}, b, p, f=f)


def future(c, l, tc, T):
    """same history up to tc, something else afterwards"""
    x, y = [], []
    for i, v in enumerate(l.x):
        if v <= tc:
            x.append(v); y.append(l.y[i])
    r = l.r
    k = c.i(0, 3)
    if l.x[-1] > tc:
        # value reached at tc by the original
        nxt = [i for i, v in enumerate(l.x) if v > tc][0]
        x0, y0, x1, y1 = l.x[nxt - 1], l.y[nxt - 1], l.x[nxt], l.y[nxt]
        x.append(tc); y.append(y0 + (y1 - y0) * (tc - x0) / (x1 - x0))
    else:
        x.append(tc); y.append(l.y[-1])
    if len(x) >= 2 and x[-1] == x[-2] and y[-1] == y[-2] and len(x) > 2:
        x.pop(); y.pop()
    for _ in range(c.i(0, 3) if len(x) > 1 and x[-1] > x[0] else c.i(1, 3)):
        x.append(x[-1] + T * c.logu(.05, 1)); y.append(c.u(-50, 100))
    return Load(x, y, l.om, l.depth)


@group('causality', quick=90, thorough=2000)
def causality(c):
    model, p = base(c)
    if p is None:
        return
    T = p['T']
    tc = float(T * c.logu(.05, 2))
    xs = sorted(v for k, i in members(p) if k in LOADS for v in p[k][i].x)
    if xs and c.coin(.4):
        d = [v for v in xs if v > 0]
        if d:
            tc = float(d[c.i(0, len(d) - 1)]) + T * .003
    p = dict(p)
    p['t'] = np.sort(np.concatenate([tc * c.u(.02, .999, 3), [tc * (1 - 1e-9)]]))
    # steps at the last point of a history are read at their own time differently
    ends = [p[k][i] if k in LOADS else p[k][i][-1] for k, i in members(p)]
    if any(abs(l.x[-1] - t) < 1e-6 * T for l in ends for t in p['t']):
        return
    # (a history that stops before tc says nothing about what follows)
    p = map_loads(p, lambda l: l if l.x[-1] > tc else Load(l.x + [tc + T * .01], l.y + [l.y[-1]], l.om, l.depth))
    a = run(c, p, model, 'base')
    b = run(c, map_loads(p, lambda l: future(c, l, tc, T)), model, 'other future after %r' % tc)
    same(c, 'past unaffected', a, b, p)


def split(c, f):
    out = []
    for a, b, u, v in f.p:
        if c.coin(.6) and b - a > .02:
            s = round(c.u(a + .005, b - .005), 4)
            w = u + (v - u) * (s - a) / (b - a)
            out += [(a, s, u, w), (s, b, w, v)]
        else:
            out.append((a, b, u, v))
    return PL(out)


class TxtPL(PL):
    def xylist(self):       # keep every break
        x, y = [self.p[0][0]], [self.p[0][2]]
        for i, (a, b, p, q) in enumerate(self.p):
            if i and abs(y[-1] - p) > 1e-13 * max(1, abs(p)):
                x.append(a); y.append(p)
            x.append(b); y.append(q)
        return x, y


@group('layer splitting', quick=70, thorough=1500)
def layersplit(c):
    model, p = base(c)
    if p is None:
        return
    a = run(c, p, model, 'base')
    q = dict(p)
    q['prof'] = {k: TxtPL(split(c, v).p) for k, v in p['prof'].items()}
    for k in ('surcharge', 'vacuum'):
        if p.get(k):
            q[k] = [Load(l.x, l.y, l.om, TxtPL(split(c, l.depth).p)) for l in p[k]]
    # extra points on straight pieces of the histories too
    b = run(c, q, model, 'split')
    same(c, 'split layers', a, b, p)
    m = map_loads(p, lambda l: subdivide(c, l))
    b = run(c, m, model, 'split histories')
    same(c, 'split load stages', a, b, p)


def subdivide(c, l):
    x, y = [l.x[0]], [l.y[0]]
    for i in range(1, len(l.x)):
        if l.x[i] > l.x[i - 1] and c.coin():
            s = c.u(.2, .8)
            x.append(l.x[i - 1] + s * (l.x[i] - l.x[i - 1])); y.append(l.y[i - 1] + s * (l.y[i] - l.y[i - 1]))
        x.append(l.x[i]); y.append(l.y[i])
    return Load(x, y, l.om, l.depth)


@group('reference values', quick=90, thorough=2000)
def refvalues(c):
    model, p = base(c)
    if p is None:
        return
    a = run(c, p, model, 'base')
    q = dict(p)
    q['prof'] = dict(p['prof'])
    k = c.i(0, 3)
    f = c.logu(.3, 3)
    pairs = [(d, n) for d, n in (('dTv', 'kv'), ('dTh', 'kh'), ('dTh', 'et'), ('dTw', 'kw'), ('dTvc', 'kvc'), ('dThc', 'khc'), ('dTa', 'Da')) if d in p and n in p['prof']]
    if k == 0:
        d, n = pairs[c.i(0, len(pairs) - 1)]
        q[d] = p[d] * f
        q['prof'][n] = p['prof'][n].scaled(1 / f)
        what = d + ' and ' + n
    elif k == 1:
        q['mvref'] = p['mvref'] * f
        for n in ('mv', 'm1ka', 'm1kw', 'm2a', 'm2w'):
            if n in p['prof']:
                q['prof'][n] = p['prof'][n].scaled(1 / f)
        for n in ('dTv', 'dTh', 'dTw', 'dTvc', 'dThc', 'dTa'):
            if n in p:
                q[n] = p[n] / f
        if p.get('fixed'):
            q['fixed'] = [(z, kf / f, l) for z, kf, l in p['fixed']]
        what = 'mvref'
    elif k == 2:
        q['dT'] = p['dT'] * f
        what = 'dT'
    else:
        # another unit of time
        tf = lambda l: Load([v * f for v in l.x], l.y, None if l.om is None else (l.om[0] / f, l.om[1]), l.depth)
        q = map_loads(q, tf)
        if q.get('pumping'):
            q['pumping'] = [(z, l.scaled(1 / f)) for z, l in q['pumping']]
        for n in ('dT', 'dTv', 'dTh', 'dTw', 'dTvc', 'dThc', 'dTa'):
            if n in p:
                q[n] = p[n] / f
        if q.get('fixed'):
            q['fixed'] = [(z, kf / f, l) for z, kf, l in q['fixed']]
        q['t'] = p['t'] * f
        what = 'time unit'
    b = run(c, q, model, what + ' rechosen')
    if what == 'time unit':
        # a time equal to a corner/step may round to either side of it
        ok = [i for i, t in enumerate(p['t']) if all(abs(t - v) > 1e-9 * p['T'] for kk, j in members(p) for v in (p[kk][j] if kk in LOADS else p[kk][j][-1]).x)]
        a = {n: v[:, ok] for n, v in a.items()}
        b = {n: v[:, ok] for n, v in b.items()}
    same(c, what, a, b, p)


@group('outputs', quick=80, thorough=1500)
def outputs(c):
    model, p = base(c)
    if p is None:
        return
    a = run(c, p, model, 'base', c)
    # more depths, more times, another order
    q = dict(p)
    z2 = list(p['z']) + [round(c.u(0, 1), 3) for _ in range(c.i(1, 3))]
    t2 = np.concatenate([p['t'], p['t'][0] + p['T'] * c.u(.01, 2, c.i(1, 3))])
    zi, ti = c.rng.permutation(len(z2)), c.rng.permutation(len(t2))
    ends = [p[k][i] if k in LOADS else p[k][i][-1] for k, i in members(p)]
    q['z'] = [z2[i] for i in zi]
    q['t'] = t2[ti]
    q['pairs'] = p['pairs'] + [[.125, .5]]
    q['spairs'] = [[.25, .75]] + p['spairs']
    b = run(c, q, model, 'more outputs', c)
    zpos = [list(zi).index(i) for i in range(len(p['z']))]
    tpos = [list(ti).index(i) for i in range(len(p['t']))]
    b2 = {}
    for k, v in b.items():
        if k.startswith('por'):
            b2[k] = v[zpos][:, tpos]
        elif k.startswith('avp'):
            b2[k] = v[:-1][:, tpos]
        else:
            b2[k] = v[1:][:, tpos]
    same(c, 'added and permuted outputs', a, b2, p, tol=1e-10)
    q = dict(p)
    nt = len(p['t'])
    q['idx'] = {k: c.pick('slice(None, None, -1)', repr([c.i(0, nt - 1) for _ in range(3)]), 'slice(0, %d)' % c.i(1, nt), 'np.array(%r)' % [c.i(0, nt - 1) for _ in range(2)]) for k in p['idx']}
    b = run(c, q, model, 'selected times', c)
    sel = {k: v[:, eval(q['idx'][specm.IDXOF(k)])] for k, v in a.items()}
    same(c, 'selected times', sel, b, p, tol=1e-10)


@group('implementation', quick=60, thorough=1200)
def implementation(c):
    model, p = base(c)
    if p is None:
        return
    r = []
    for im in ('scalar', 'vectorized', 'fortran'):
        q = dict(p)
        q['impl'] = im
        r.append(run(c, q, model, im))
    same(c, 'vectorized', r[0], r[1], p)
    same(c, 'fortran', r[0], r[2], p)


def snap(o):
    d = {}
    for k, v in vars(o).items():
        if k.startswith('_') or k in ('m', 'm_block'):
            continue
        if not (k in o._attributes):
            continue
        d[k] = dump(v)
    return d


def dump(v):
    if isinstance(v, PolyLine):
        return ('PL', np.array(v.x).tolist(), np.array(v.y).tolist(), np.array(v.x1).tolist(), np.array(v.x2).tolist(), np.array(v.y1).tolist(), np.array(v.y2).tolist())
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [dump(q) for q in v]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(v)
    return repr(v)


@group('purity', quick=70, thorough=1200)
def purity(c):
    model, p = base(c)
    if p is None:
        return
    t = specm.text(p, c)
    c.params['text'] = t
    o = c.call('builds', specm.cls(model), t)
    c.call('checks', o.check_input_attributes)
    s0 = snap(o)
    c.call('runs', o.make_all)
    a = outs(o)
    s1 = snap(o)
    for k in s0:
        c.true('input left alone', s0[k] == s1[k], '%s: %s -> %s' % (k, s0[k], s1[k]))
    # another problem in between, then both again
    m2, p2 = base(c)
    if p2 is not None:
        specm.run(specm.text(p2), m2)
    c.call('runs again', o.make_all)
    same(c, 'repeated run', a, outs(o), p, tol=1e-13)
    same(c, 'fresh object', a, outs(c.call('fresh', specm.run, t, model)), p, tol=1e-13)
    # handing over PolyLine objects directly
    o2 = specm.cls(model)()
    for k in o._attributes:
        if getattr(o, k, None) is not None:
            setattr(o2, k, getattr(o, k))
    c.call('objects handed over', o2.make_all)
    same(c, 'objects handed over', a, outs(o2), p, tol=1e-13)
    same(c, 'first object untouched', a, outs(o), p, tol=0)
    c.true('shared inputs left alone', snap(o) == s1)
