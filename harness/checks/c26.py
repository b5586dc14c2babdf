"""C26: plots show exactly the data they are given."""
import copy, os, shutil, tempfile, random
import numpy as np
import fbuild
fbuild.inject('plain')
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.gridspec import GridSpec
from vh import group
import specm
import beamcase
import geotecha.plotting.one_d as od
from geotecha.piecewise.piecewise_linear_1d import PolyLine
import geotecha.beam_on_foundation.specbeam as sb
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003
import geotecha.consolidation.xieandleo2004 as xl
import geotecha.consolidation.terzahi as tz
import geotecha.consolidation.cosenzaandkorosak2014 as ck
from geotecha.constitutive_models import void_ratio_stress as vs, void_ratio_permeability as vp, velocity_hydraulic_gradient as vg, swcc

RULE = ('Random data, load and property sets handed to every plotting helper, and random analyses asked for their plots; the artists'
        ' matplotlib ends up with (line data, labels, axis labels, axis direction, legends, styles) are read back and compared with'
        ' the data handed in or the results of the analysis.')
ASSUMPTIONS = ['matplotlib itself draws the artists it holds (Agg backend); load profiles outside the factor range 0 to 1 are outside the view the load plot documents.']
BUDGET = dict(quick=300, thorough=2400)


def fresh(fn):
    def f(c):
        plt.close('all')
        plt.rcdefaults()
        try:
            fn(c)
        finally:
            plt.close('all')
            plt.rcdefaults()
    return f


def lines(ax):
    return [np.asarray(l.get_xydata(), float) for l in ax.get_lines()]


def same_lines(c, label, ax, want, rtol=1e-12):
    got = lines(ax)
    if not c.true(label + ': number of lines', len(got) == len(want), '%d lines, wanted %d' % (len(got), len(want))):
        return
    for g, (x, y) in zip(got, want):
        c.close(label + ' x', g[:, 0], np.asarray(x, float), rtol=rtol, atol=1e-300)
        c.close(label + ' y', g[:, 1], np.asarray(y, float), rtol=rtol, atol=1e-300)


def labels(c, label, ax, want):
    c.true(label, [l.get_label() for l in ax.get_lines()] == list(want), '%s, wanted %s' % ([l.get_label() for l in ax.get_lines()], want))


def legend(c, ax, has, want=None, title=None):
    leg = ax.get_legend()
    if not c.true('legend shown or not', (leg is not None) == bool(has), 'legend %s, has_legend %s' % (leg, has)) or leg is None:
        return
    if want is not None:
        c.true('legend entries', [t.get_text() for t in leg.get_texts()] == list(want), [t.get_text() for t in leg.get_texts()])
        hs = leg.legend_handles
        c.true('legend entry markers', [h.get_marker() for h in hs] == [l.get_marker() for l in ax.get_lines()], 'markers')
    if title is not None:
        c.true('legend title', leg.get_title().get_text() == title, leg.get_title().get_text())


def style_key(l):
    m = l.get_marker()
    return repr((m, l.get_fillstyle(), l.get_markeredgecolor(), l.get_markerfacecolor(), l.get_markersize(), l.get_linestyle(), l.get_color()))


def zmap(z, H, rl):
    z = np.asarray(z, float)
    return z * H if rl is None else rl - z * H


def updown(c, ax, rl, label='depth axis direction'):
    a, b = ax.get_ylim()
    c.true(label, (a > b) == (rl is None), 'ylim %s with RLzero %s' % ((a, b), rl))


def profile(c):
    return c.pick(1.0, round(c.logu(.2, 40), 3)), c.pick(None, 0.0, round(c.u(-20, 50), 2))


def own_styles(c, n):
    mk = ['o', 's', 'D', '^', 'v', 'x', '+', '*']
    return [dict(marker=mk[i % len(mk)], color=(round(c.u(0, 1), 3), .2, round(c.u(0, 1), 3)), linewidth=round(c.u(.5, 3), 2)) for i in range(n)]


def check_styles(c, ls, given):
    if given is None:
        ks = [style_key(l) for l in ls]
        c.true('distinct styles', len(set(ks)) == min(len(ks), 32) or len(ks) > 32, 'repeated style')
    else:
        for i, l in enumerate(ls):
            s = given[i % len(given)]
            c.true('given styles', l.get_marker() == s['marker'] and tuple(l.get_color()) == tuple(s['color']) and l.get_linewidth() == s['linewidth'], 'line %d' % i)


def snap(o):
    if isinstance(o, PolyLine):
        return ('PL', o.x.tolist(), o.y.tolist())
    if isinstance(o, np.ndarray):
        return ('nd', o.dtype.str, o.tolist())
    if isinstance(o, dict):
        return {k: snap(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [snap(v) for v in o]
    return repr(o)


class Unchanged(object):
    def __init__(self, c, *a):
        self.c, self.a, self.s = c, a, snap(a)

    def check(self):
        self.c.true('data passed in is unchanged', snap(self.a) == self.s, 'inputs changed')


# ------------------------------------------------------------------ lines
@group('vs time and depth', quick=150, thorough=3000, cpu=20)
@fresh
def series(c):
    depth = c.coin()
    n, m = c.i(2, 30), c.i(1, c.pick(4, 4, 12, 32))
    t = np.sort(c.u(0, 1, n)) * c.logu(.01, 100)
    if c.coin(.2):
        t = t[::-1].copy()
    y = c.rng.normal(size=(n, m)) * c.logu(1e-3, 1e3)
    if m == 1 and c.coin():
        y = y[:, 0]
    H, rl = profile(c)
    pd, given = {}, None
    if c.coin(.4):
        given = own_styles(c, c.i(1, m + 2))
        pd['styles'] = given
    for k in ('xlabel', 'ylabel'):
        if c.coin(.4):
            pd[k] = '%s %d' % (k, c.i(0, 99))
    if c.coin(.4):
        pd['has_legend'] = c.coin()
    if c.coin(.3):
        pd['legend_prop'] = c.pick(dict(title='mine'), dict(fontsize=7), dict(title='mine', fontsize=12))
    if c.coin(.3):
        pd['fig_prop'] = dict(figsize=(4.0, 3.0))
    ll = ['series %d' % i for i in range(m)] if c.coin(.7) else None
    c.note(depth=depth, n=n, m=m, H=H, rl=rl, pd=sorted(pd), ll=ll is not None)
    u = Unchanged(c, t, y, ll, pd)
    kw = dict(line_labels=ll, prop_dict=pd) if (pd or c.coin()) else dict(line_labels=ll)
    if depth:
        fig = c.call('plot_vs_depth', od.plot_vs_depth, y, t, H=H, RLzero=rl, **kw)
    else:
        fig = c.call('plot_vs_time', od.plot_vs_time, t, y, **kw)
    u.check()
    c.true('one figure', plt.get_fignums() == [fig.number] and len(fig.axes) == 1, 'figures %s, axes %d' % (plt.get_fignums(), len(fig.axes)))
    ax = fig.axes[0]
    Y = y.reshape(n, -1)
    if depth:
        same_lines(c, 'data', ax, [(Y[:, j], zmap(t, H, rl)) for j in range(Y.shape[1])])
        updown(c, ax, rl)
        lab = (pd.get('xlabel', 'x'), pd.get('ylabel', 'Depth, z' if rl is None else 'RL'))
        ttl = 'time:'
    else:
        same_lines(c, 'data', ax, [(t, Y[:, j]) for j in range(Y.shape[1])])
        c.true('value axis direction', ax.get_ylim()[0] < ax.get_ylim()[1], ax.get_ylim())
        lab = (pd.get('xlabel', 'Time, t'), pd.get('ylabel', 'y'))
        ttl = 'Depth interval:'
    c.true('axis labels', (ax.get_xlabel(), ax.get_ylabel()) == lab, (ax.get_xlabel(), ax.get_ylabel()))
    check_styles(c, ax.get_lines(), given)
    lp = pd.get('legend_prop', {})
    if ll:
        labels(c, 'line labels', ax, ll)
        legend(c, ax, pd.get('has_legend', True), ll, lp.get('title', ttl))
    else:
        legend(c, ax, False)
    if 'fig_prop' in pd:
        c.close('figure size', fig.get_size_inches(), np.array([4., 3.]))
    x0, x1 = sorted(ax.get_xlim())
    y0, y1 = sorted(ax.get_ylim())
    d = np.concatenate(lines(ax))
    c.true('everything is in view', x0 <= d[:, 0].min() and d[:, 0].max() <= x1 and y0 <= d[:, 1].min() and d[:, 1].max() <= y1, '%s %s' % (ax.get_xlim(), ax.get_ylim()))


def hist(c, T):
    x, y = specm.hist(c, T)
    return PolyLine(x, y)


def on_polyline(c, label, x, y, px, py, fac=None):
    """(x, y) is the polyline with every vertex, in order, perhaps with more points on it; fac: factor at x"""
    f = np.ones_like(x) if fac is None else fac(x)
    sx, sy = np.ptp(px) + 1e-300, np.max(np.abs(py)) + 1e-300
    k = 0
    P = list(zip(px, py))
    # consecutive equal vertices collapse
    for i in range(len(x)):
        ok = False
        for kk in range(k, len(P)):
            if abs(x[i] - P[kk][0]) <= 1e-9 * sx and abs(y[i] - P[kk][1] * f[i]) <= 1e-9 * sy and all(P[q] == P[kk] for q in range(k, kk)):
                k, ok = kk + 1, True
                break
        if not ok:
            a = P[k - 1] if k else None
            b = P[k] if k < len(P) else None
            if a is not None and b is not None and a[0] - 1e-9 * sx <= x[i] <= b[0] + 1e-9 * sx and b[0] > a[0]:
                v = a[1] + (b[1] - a[1]) * (x[i] - a[0]) / (b[0] - a[0])
                ok = abs(y[i] - v * f[i]) <= 1e-9 * sy
            elif a is not None and b is not None and b[0] == a[0] and abs(x[i] - a[0]) <= 1e-9 * sx:
                # a step: anywhere on the vertical segment
                lo, hi = sorted((a[1] * f[i], b[1] * f[i]))
                ok = lo - 1e-9 * sy <= y[i] <= hi + 1e-9 * sy
            elif a is not None and (abs(x[i] - a[0]) <= 1e-9 * sx and abs(y[i] - a[1] * f[i]) <= 1e-9 * sy):
                ok = True
        if not ok:
            c.true(label, False, 'point %d (%r, %r) is not on the line after vertex %d of %s' % (i, x[i], y[i], k, P))
            return
    while k < len(P) and P[k] == P[k - 1]:
        k += 1
    c.true(label, k == len(P), 'only %d of %d vertices drawn' % (k, len(P)))


def check_loads(c, fig, triples, names, ylabels, H, rl, pd, trange, tl):
    n = len(triples)
    c.true('two axes per load type', len(fig.axes) == 2 * n, len(fig.axes))
    given = pd.get('styles')
    q = 0
    keys = []
    for i, tr in enumerate(triples):
        a, b = fig.axes[2 * i], fig.axes[2 * i + 1]
        la, lb = a.get_lines(), b.get_lines()
        if not c.true('one line per load', len(la) == len(tr) == len(lb), '%d %d of %d' % (len(la), len(lb), len(tr))):
            continue
        for j, (vt, vd, om) in enumerate(tr):
            g = lines(a)[j]
            if vt is None and tl is None:      # a fixed zero pressure in an analysis
                c.true('zero load', len(g) > 0 and not np.any(g[:, 1]), 'y %s' % g[:, 1])
                vt = g[:, 0], g[:, 1]
            elif vt is None:
                vt = ([tl[0], tl[1]], [0, 0])
            px, py = (vt.x, vt.y) if isinstance(vt, PolyLine) else vt
            px, py = np.asarray(px, float), np.asarray(py, float)
            fac = None if om is None else (lambda x, om=om: np.cos(om[0] * x + om[1]))
            on_polyline(c, 'load against time', g[:, 0], g[:, 1], px, py, fac)
            if om is not None and om[0] != 0:
                c.true('cycles are resolved', np.max(np.diff(g[:, 0])) <= 2 * np.pi / abs(om[0]) / 19, 'largest step %g, period %g' % (np.max(np.diff(g[:, 0])), 2 * np.pi / abs(om[0])))
            g = lines(b)[j]
            if isinstance(vd, PolyLine):
                on_polyline(c, 'load against depth', g[:, 1] if rl is None else -g[:, 1], g[:, 0], zmap(vd.x, H, rl) * (1 if rl is None else -1), vd.y)
            else:
                c.close('point load depth', g[:, 1], zmap(np.atleast_1d(vd[0]), H, rl), rtol=1e-12, atol=1e-300)
                c.close('point load factor', g[:, 0], np.atleast_1d(vd[1]).astype(float), rtol=1e-12)
            c.true('same style on both axes', style_key(la[j]) == style_key(lb[j]), 'load %d %d' % (i, j))
            keys.append(style_key(la[j]))
            if given:
                s = given[q % len(given)]
                c.true('given styles', la[j].get_marker() == s['marker'] and tuple(la[j].get_color()) == tuple(s['color']), 'load %d' % q)
            q += 1
        nm = ['%s%d' % (names[i], j) for j in range(len(tr))]
        labels(c, 'load names', a, nm)
        labels(c, 'load names by depth', b, nm)
        legend(c, a, pd.get('has_legend', True), nm, pd.get('legend_prop', {}).get('title', 'Load:'))
        c.true('load label', a.get_ylabel() == (ylabels[i] if ylabels else 'y%d' % i), a.get_ylabel())
        c.true('depth label', b.get_ylabel() == pd.get('depth_axis_label', 'Depth, z' if rl is None else 'RL'), b.get_ylabel())
        updown(c, b, rl)
        if trange is not None:
            c.close('time range', a.get_xlim(), np.array(trange, float))
        ys = np.concatenate(lines(b))[:, 1]
        y0, y1 = sorted(b.get_ylim())
        c.true('all depths in view', y0 <= ys.min() + 1e-9 and ys.max() <= y1 + 1e-9, '%s %s' % (b.get_ylim(), (ys.min(), ys.max())))
    if not given:
        c.true('distinct styles', len(set(keys)) == len(keys) or len(keys) > 32, 'repeated')
    c.true('time label below the last plot', fig.axes[-2].get_xlabel() == pd.get('time_axis_label', 'Time'), fig.axes[-2].get_xlabel())


@group('loads', quick=100, thorough=1500, cpu=40)
@fresh
def loads(c):
    n = c.i(1, 4)
    T = c.logu(.1, 100)
    H, rl = profile(c)
    triples, kinds = [], []
    off = c.pick(0., 0., -round(c.u(0, 1.5) * T, 3), round(c.u(0, 1) * T, 3))
    for i in range(n):
        tr = []
        for j in range(c.pick(1, 1, 2, 3)):
            vt = hist(c, T)
            if off:
                vt = PolyLine(list(np.asarray(vt.x) + off), list(vt.y))
            k = c.pick('pl', 'pl', 'pl', 'xy', 'none')
            vt = vt if k == 'pl' else None if k == 'none' else (list(vt.x), list(vt.y))
            k = c.pick('pl', 'pt', 'xy')
            vd = PolyLine([0, .3, .3, 1], list(np.round(c.u(0, 1, 4), 3))) if k == 'pl' else ([round(c.u(0, 1), 3)], [1]) if k == 'pt' else (np.array([0, .5, 1]), c.u(0, 1, 3))
            om = None if c.coin(.6) else (c.pick(0.0, round(c.u(.5, 30) / T, 5), -round(c.u(.5, 30) / T, 5)), round(c.u(-3, 3), 3))
            tr.append((vt, vd, om))
        triples.append(tr)
    names = ['load%s' % 'abcd'[i] for i in range(n)]
    ylabels = ['label %d' % i for i in range(n)] if c.coin() else None
    pd = {}
    if c.coin(.3):
        pd['styles'] = own_styles(c, c.i(1, 8))
    if c.coin(.3):
        pd['has_legend'] = c.coin()
    if c.coin(.3):
        pd['legend_prop'] = dict(title='mine')
    for k in ('time_axis_label', 'depth_axis_label'):
        if c.coin(.2) and k == 'time_axis_label':
            pd[k] = 'my ' + k
    allx = [v for tr in triples for vt, _, _ in tr if vt is not None for v in (vt.x if isinstance(vt, PolyLine) else vt[0])]
    trange = None if c.coin(.6) else (off, off + T * 1.5)
    tl = trange or ((min(allx), max(allx)) if allx else (0., 1.))
    c.note(n=n, H=H, rl=rl, T=T, loads=[[(type(a).__name__, type(b).__name__, o) for a, b, o in tr] for tr in triples], pd=sorted(pd), trange=trange)
    u = Unchanged(c, triples, names, ylabels, pd)
    fig = c.call('plot_generic_loads', od.plot_generic_loads, triples, names, ylabels=ylabels, trange=trange, H=H, RLzero=rl, **(dict(prop_dict=pd) if pd else {}))
    u.check()
    c.true('one figure', plt.get_fignums() == [fig.number], plt.get_fignums())
    check_loads(c, fig, triples, names, ylabels, H, rl, pd, trange, tl)


def check_materials(c, fig, zx, xlabels, H, rl, pd):
    if not c.true('one axes per property', len(fig.axes) == len(zx), '%d of %d' % (len(fig.axes), len(zx))):
        return
    for ax, p, lab in zip(fig.axes, zx, xlabels):
        px, py = (p.x, p.y) if isinstance(p, PolyLine) else p
        if not c.true('one line per property', len(ax.get_lines()) == 1, len(ax.get_lines())):
            return
        g = lines(ax)[0]
        s = 1 if rl is None else -1
        on_polyline(c, 'property against depth', s * g[:, 1], g[:, 0], s * zmap(px, H, rl), np.asarray(py, float))
        c.true('property label', ax.get_xlabel() == lab, '%r, wanted %r' % (ax.get_xlabel(), lab))
        updown(c, ax, rl)
        if np.min(py) >= 0:
            c.true('values in view', ax.get_xlim()[0] <= np.min(py) and np.max(py) <= ax.get_xlim()[1], ax.get_xlim())
    c.true('depth label', fig.axes[0].get_ylabel() == pd.get('ylabel', 'Depth, z' if rl is None else 'RL'), fig.axes[0].get_ylabel())


@group('materials', quick=80, thorough=1200, cpu=20)
@fresh
def materials(c):
    n = c.i(1, 5)
    H, rl = profile(c)
    zx = []
    for i in range(n):
        k = c.i(1, 4)
        e = np.r_[0, np.sort(np.round(c.u(.05, .95, k - 1), 3)), 1]
        x = np.repeat(e, 2)[1:-1]
        y = np.round(c.u(.1, 5, len(x)), 3)
        if k > 1 and c.coin(.3):
            x, y = e, y[:len(e)]
        zx.append(PolyLine(list(x), list(y)) if c.coin(.7) else (list(x), list(y)))
    xl_ = ['property %d' % i for i in range(n)]
    pd = {}
    if c.coin(.3):
        pd['styles'] = own_styles(c, 2)
    if c.coin(.3):
        pd['ylabel'] = 'my depth'
    if c.coin(.2):
        pd['fig_prop'] = dict(figsize=(5.0, 3.0))
    c.note(n=n, H=H, rl=rl, pd=sorted(pd))
    u = Unchanged(c, zx, xl_, pd)
    fig = c.call('plot_single_material_vs_depth', od.plot_single_material_vs_depth, zx, xl_, H=H, RLzero=rl, **(dict(prop_dict=pd) if pd else {}))
    u.check()
    check_materials(c, fig, zx, xl_, H, rl, pd)
    if 'fig_prop' in pd:
        c.close('figure size', fig.get_size_inches(), np.array([5., 3.]))


@group('grid', quick=80, thorough=1200, cpu=20)
@fresh
def grid(c):
    R, C = c.i(1, 3), c.i(1, 3)
    n = c.i(1, R * C)
    data, want = [], []
    for i in range(n):
        d, w = [], []
        for j in range(c.i(1, 3)):
            x, y = c.u(0, 10, 4), c.u(-5, 5, 4)
            k = c.pick('xy', 'dict', 'two', 'scatter')
            kw = {'dict': [dict(label='L%d%d' % (i, j), marker='s')], 'two': [dict(label='L%d%d' % (i, j), marker='o'), dict(marker='D')], 'scatter': [dict(plot_type='scatter')], 'xy': []}[k]
            item = [x, y] + kw
            if k == 'two' and c.coin():
                item = [kw[0], x, y, kw[1]]
            d.append(item)
            w.append((k, x, y, 'L%d%d' % (i, j)))
        data.append(tuple(d) if c.coin() else d)
        want.append(w)
    gi = c.pick(None, 'int', 'pair')
    perm = [int(v) for v in c.rng.permutation(R * C)[:n]]
    if gi == 'int':
        gsi = perm
    elif gi == 'pair':
        gsi = [(v // C, v % C) for v in perm]
    else:
        gsi, perm = None, list(range(n))
    share = {}
    for k in ('sharex', 'sharey'):
        share[k] = c.pick(None, 'one', 'each')
        if share[k] == 'one':
            share[k] = [0]
        elif share[k] == 'each':
            share[k] = [None] + [c.pick(None, c.i(0, i - 1)) for i in range(1, n)]
            if n == 1:
                share[k] = [0] if c.coin() else None
    c.note(R=R, C=C, n=n, gi=gi, share=share)
    fig = plt.figure()
    u = Unchanged(c, data, gsi, share)
    ax = c.call('plot_data_in_grid', od.plot_data_in_grid, fig, data, GridSpec(R, C), gs_index=gsi, **{k: v for k, v in share.items() if v is not None or c.coin()})
    u.check()
    if not c.true('one axes per data set', len(ax) == n == len(fig.axes), '%d' % len(ax)):
        return
    for i, a in enumerate(ax):
        c.true('position', a.get_subplotspec().get_geometry()[2:] == (perm[i], perm[i]), a.get_subplotspec().get_geometry())
        same_lines(c, 'data', a, [(x, y) for k, x, y, l in want[i] if k != 'scatter'])
        for l, (k, x, y, lab) in zip(a.get_lines(), [w for w in want[i] if w[0] != 'scatter']):
            if k != 'xy':
                c.true('keywords', l.get_label() == lab and l.get_marker() == ('s' if k == 'dict' else 'D' if isinstance(l.get_marker(), str) and l.get_marker() == 'D' else l.get_marker()), (l.get_label(), l.get_marker()))
                if k == 'two':
                    c.true('later keywords override', l.get_marker() == 'D', l.get_marker())
        sc = [np.asarray(s.get_offsets()) for s in a.collections]
        ws = [(x, y) for k, x, y, l in want[i] if k == 'scatter']
        if c.true('scatter sets', len(sc) == len(ws), '%d of %d' % (len(sc), len(ws))):
            for s, (x, y) in zip(sc, ws):
                c.close('scatter data', s, np.c_[x, y], rtol=1e-12)
        for k, grp in (('sharex', a.get_shared_x_axes()), ('sharey', a.get_shared_y_axes())):
            s = share[k]
            t = None if s is None else (0 if i else None) if len(s) == 1 else s[i]
            for q in range(i):
                if t == q:
                    c.true(k, grp.joined(a, ax[q]), 'axes %d does not share with %d' % (i, q))
                elif s is None:
                    c.true(k + ' off', not grp.joined(a, ax[q]), 'axes %d shares with %d' % (i, q))
    xl_ = [c.pick(None, 'x%d' % i) for i in range(n)]
    yl = [c.pick(None, 'y%d' % i) for i in range(n)]
    c.call('xylabel_subplots', od.xylabel_subplots, fig, c.pick(yl, yl), xl_)
    c.true('labels', [(a.get_xlabel(), a.get_ylabel()) for a in ax] == [(p or '', q or '') for p, q in zip(xl_, yl)], 'labels')


# ------------------------------------------------------------------ small helpers
class Rec(object):
    def __init__(self):
        self.log = []

    def m(self, *a):
        self.log.append(a)

    def set_thing(self, v):
        self.log.append(('thing', v))


@group('helpers', quick=200, thorough=4000, cpu=5)
@fresh
def helpers(c):
    rgb = tuple(c.u(0, 1, c.pick(3, 4)))
    f = c.pick(0.0, 1.0, c.u(0, 1))
    c.note(f=f, rgb=rgb)
    sh, ti = od.rgb_shade(rgb, f), od.rgb_tint(rgb, f)
    c.close('shade', sh, np.r_[np.array(rgb[:3]) * f, rgb[3:]], rtol=1e-12, atol=1e-14)
    c.close('tint', ti, np.r_[np.array(rgb[:3]) * (1 - f) + f, rgb[3:]], rtol=1e-12, atol=1e-14)
    r255 = tuple(255 * np.array(rgb[:3]))
    c.close('tint 255', od.rgb_tint(r255, f, scaled=False), 255 * np.array(ti[:3]), rtol=1e-12, atol=1e-11)
    c.close('shade 255', od.rgb_shade(r255, f, scaled=False), 255 * np.array(sh[:3]), rtol=1e-12, atol=1e-11)
    for fn in (od.rgb_shade, od.rgb_tint):
        c.raises('factor outside 0 to 1', ValueError, fn, rgb, c.pick(-1e-3, 1.001, 5))
    a, b = {k: c.i(0, 9) for k in 'abc'}, {k: c.i(10, 19) for k in 'bcd' if c.coin()}
    u = Unchanged(c, a, b)
    d = od.copy_dict(a, b)
    u.check()
    c.true('copy_dict', d == dict(a, **b) and d is not a, d)
    # reordering of subplots
    shp = tuple(c.i(1, 4) for _ in range(c.pick(2, 2, 3)))
    st = c.pick(None, tuple(c.pick(1, -1) for _ in shp))
    tr = c.coin()
    got = c.call('row_major_order_reverse_map', od.row_major_order_reverse_map, shp, st, tr)
    s = st or (1,) * len(shp)
    want = np.empty(shp, int)
    for ix in np.ndindex(*shp):
        src = tuple(i if k == 1 else n - 1 - i for i, k, n in zip(ix, s, shp))
        want[ix] = int(np.ravel_multi_index(src, shp))
    if tr:
        want = np.array([want[ix[::-1]] for ix in np.ndindex(*shp[::-1])])
    c.close('row_major_order_reverse_map', got, want.ravel(), rtol=0)
    items = [c.pick(1, 'a', dict(p=c.i(0, 9)), dict(q=c.i(0, 9), p=3), None, [1]) for _ in range(c.i(0, 6))]
    nd, dd = od.split_sequence_into_dict_and_nondicts(*items)
    w = {}
    for v in items:
        if isinstance(v, dict):
            for k in v:
                w[k] = v[k]
    c.true('split_sequence', nd == [v for v in items if not isinstance(v, dict)] and dd == w, (nd, dd))
    # method calls
    n = c.i(1, 4)
    rs = [Rec() for _ in range(n)]
    kind = c.pick('none', 'one', 'skip', 'each')
    unpack = c.coin()
    if kind == 'none':
        args, want = (), [[()]] * n
    elif kind == 'skip':
        args, want = (None,), [[]] * n
    elif kind == 'one':
        args = ((1, 2),)
        want = [[(1, 2)] if unpack else [((1, 2),)]] * n
    else:
        if n == 1:
            n, rs = 2, [Rec(), Rec()]
        args = tuple(c.pick(None, (i, i + 1)) for i in range(n))
        want = [[] if v is None else [v] if unpack else [(v,)] for v in args]
    c.call('iterable_method_call', od.iterable_method_call, rs, 'm', unpack, *args)
    c.true('iterable_method_call', [r.log for r in rs] == want, '%s %s' % ([r.log for r in rs], want))
    rs = [Rec() for _ in range(n)]
    ds = [c.pick(None, dict(thing=i), dict(thing=i, nothing=3)) for i in range(n)]
    c.call('apply_dict_to_object', od.apply_dict_to_object, rs if n > 1 else rs[0], ds if n > 1 else ds[0])
    c.true('apply_dict_to_object', [r.log for r in rs] == [[] if v is None else [('thing', v['thing'])] for v in ds], 'applied')
    c.raises('different lengths', ValueError, od.apply_dict_to_object, rs, ds + [None])
    # marker spacing
    fig, ax = plt.subplots()
    ls = [ax.plot([0, 1, 2], [0, i, 2])[0] for i in range(c.i(1, 4))]
    me = c.pick(None, 3, .1, [0, 2], slice(0, 2))
    rnd = c.coin()
    before = lines(ax)
    c.call('markevery', od.apply_markevery_to_sequence_of_lines, ls, markevery=me, random_start=rnd, seed=c.pick(None, 4))
    got = [l.get_markevery() for l in ls]
    if isinstance(me, (int, float)) and rnd:
        c.true('markevery', all(g[1] == me and 0 <= g[0] <= me for g in got), got)
    else:
        c.true('markevery', all(g == me for g in got), got)
    c.true('markevery leaves the data', all(np.array_equal(p, q) for p, q in zip(before, lines(ax))), 'data')


@group('styles', quick=100, thorough=2000, cpu=5)
@fresh
def styles(c):
    color = c.pick(None, 'red', (0.1, .2, .3))
    ms = c.pick(None, 7)
    kw = {}
    if color is not None:
        kw['color'] = color
    if ms:
        kw['markersize'] = ms
    m = c.call('MarkersDashesColors', od.MarkersDashesColors, **kw)
    base = color or m.almost_black
    N = dict(markers=len(m.markers), dashes=len(m.dashes), marker_colors=len(m.colors), line_colors=len(m.colors))
    a = {k: (None if c.coin(.4) else [c.i(0, N[k] - 1) for _ in range(c.i(1, 12))]) for k in N}
    c.note(args=a, kw=kw)
    s0 = snap([m.markers, m.dashes, m.colors])
    out = c.call('styles', m, **a)
    c.true('the style collections are unchanged', snap([m.markers, m.dashes, m.colors]) == s0, 'changed')
    c.call('construct_styles', m.construct_styles, **a)
    c.true('construct_styles', snap(m.styles) == snap(out), 'differs')
    if all(v is None for v in a.values()):
        a = {k: list(range(N[k])) for k in N}
        c.true('every default appears', len(out) >= max(N.values()), len(out))
    n = max(len(v) for v in a.values() if v is not None)
    if not c.true('as many styles as the longest list', len(out) == n, '%d of %d' % (len(out), n)):
        return
    at = lambda k, i: None if a[k] is None else a[k][i % len(a[k])]
    fig, ax = plt.subplots()
    for i, s in enumerate(out):
        mk, ds, mc, lc = (at(k, i) for k in ('markers', 'dashes', 'marker_colors', 'line_colors'))
        c.true('line colour', s['color'] == (base if lc is None else m.colors[lc]), s['color'])
        if mk is None:
            c.true('no marker', s['marker'] == 'none', s['marker'])
        else:
            d = m.markers[mk]
            c.true('marker', s.get('marker') == d.get('marker') and s.get('fillstyle') == d.get('fillstyle') and s['markersize'] == (d['markersize']), s)
            for k in ('markeredgecolor', 'markerfacecolor'):
                c.true(k, s[k] == ('none' if d[k] == 'none' else base if mc is None else m.colors[mc]), (s[k], d[k]))
        if ds is None:
            c.true('no line', s['linestyle'] == 'None', s.get('linestyle'))
        else:
            c.true('dashes', s['dashes'] == m.dashes[ds], s['dashes'])
        c.call('usable by matplotlib', ax.plot, [0, 1], [0, i], **s)
    c0 = list(m.colors)
    f = c.u(0, 1)
    m.tint_colors(f)
    c.close('tint_colors', m.colors, np.array(c0) + (1 - np.array(c0)) * f, rtol=1e-12)
    c0 = list(m.colors)
    m.shade_colors(f)
    c.close('shade_colors', m.colors, np.array(c0) * f, rtol=1e-12)
    m.construct_styles(markers=list(range(len(m.markers))), dashes=[0])
    c.true('all default styles differ', len(set(repr(sorted(s.items(), key=str)) for s in m.styles)) == len(m.styles), 'repeated')


MAGIC = dict(png=b'\x89PNG', pdf=b'%PDF', eps=b'%!PS', svg=b'<?xml')


@group('saved figures', quick=8, thorough=40, cpu=60)
@fresh
def saved(c):
    d = tempfile.mkdtemp(prefix='c26_')
    try:
        fig, ax = plt.subplots(figsize=(2, 2))
        ax.plot([0, 1], [0, c.u(0, 1)])
        ext = [e for e in ('pdf', 'eps', 'png', 'svg') if c.coin()] or ['png']
        dpi = c.pick(50, 80, 120)
        c.note(ext=ext, dpi=dpi)
        c.call('save_figure', od.save_figure, fig, os.path.join(d, 'a.b'), ext, dpi)
        c.true('one file per format', sorted(os.listdir(d)) == sorted('a.b.' + e for e in ext), os.listdir(d))
        for e in ext:
            b = open(os.path.join(d, 'a.b.' + e), 'rb').read(8)
            c.true('file format', b.startswith(MAGIC[e]), '%s %r' % (e, b))
        if 'png' in ext:
            c.true('resolution', plt.imread(os.path.join(d, 'a.b.png')).shape[:2] == (2 * dpi, 2 * dpi), 'size')
        f = c.call('figure_from_source_code', od.figure_from_source_code, c.pick(zmap, updown), figsize=(6, 3))
        import inspect
        t = [x.get_text() for x in f.axes[0].texts]
        c.true('source text', len(t) == 1 and t[0] in (inspect.getsource(zmap), inspect.getsource(updown)), t)
    finally:
        shutil.rmtree(d)
    before = dict(matplotlib.rcParams)
    c.call('pleasing_defaults', od.pleasing_defaults)
    c.true('pleasing_defaults sets the colour cycle', len(set(map(str, matplotlib.rcParams['axes.prop_cycle'].by_key()['color']))) == 8, 'cycle')
    f = od.plot_vs_time(np.arange(3.), np.arange(6.).reshape(3, 2))
    same_lines(c, 'with pleasing defaults', f.axes[0], [(np.arange(3.), [0, 2, 4]), (np.arange(3.), [1, 3, 5])])


# ------------------------------------------------------------------ analyses
def by_label(c, figs):
    return {f.get_label(): f for f in figs}


def fmt(v):
    return '{:.3g}'.format(v)


RES = dict(vr=dict(fig_por='por', fig_avp='avp', fig_set='set'),
           vrw=dict(fig_por='por', fig_porwell='porwell', fig_avp='avp', fig_set='set'),
           vrc=dict(fig_por='por', fig_pors='pors', fig_porc='porc', fig_avp='avp', fig_avps='avps', fig_avpc='avpc', fig_set='set'),
           unsat=dict(fig_porw='porw', fig_pora='pora', fig_avpw='avpw', fig_avpa='avpa', fig_set='set', fig_setw='setw', fig_seta='seta'))
MATS = dict(vr=('mv', 'kv', 'kh', 'et'), vrw=('mv', 'kv', 'kh', 'kw', 'et'), vrc=('mv', 'kv', 'kvc', 'kh', 'khc', 'et'),
            unsat=('m1kw', 'm2w', 'm1ka', 'm2a', 'kw', 'Da', 'S', 'n'))
TITLES = {'por': 'Pore pressure', 'porwell': 'Drain Pore pressure', 'pors': 'Soil pore pressure', 'porc': 'Column pore pressure', 'porw': 'Pore water pressure', 'pora': 'Pore air pressure',
          'avp': 'Average pore pressure', 'avps': 'Average soil pore pressure', 'avpc': 'Average column pore pressure', 'avpw': 'Average pore water pressure', 'avpa': 'Average pore air pressure',
          'set': 'Settlement', 'setw': 'Water settlement', 'seta': 'Air settlement'}


@group('spectral analyses', quick=60, thorough=900, cpu=90)
@fresh
def spectral(c):
    model = c.pick('vr', 'vrw', 'vrc', 'unsat')
    p = specm.case(c, model, 3)
    lam = specm.SOLVE[model](p)['S'].lam
    if not (np.all(abs(lam.imag) <= 1e-9 * abs(lam)) and np.all(lam.real > 0)):
        return
    p['impl'] = 'vectorized'
    t = specm.text(p, c)
    skip = [k for k in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs') if c.coin(.15)][:2]
    t = '\n'.join(l for l in t.split('\n') if not any(l.startswith(k) for k in skip))
    rl = c.pick(None, round(c.u(-5, 30), 2))
    if rl is not None:
        t += 'RLzero = %r\n' % rl if t.endswith('\n') else '\nRLzero = %r\n' % rl
    c.note(model=model, text=t)
    a = c.call('analysis', specm.run, t, model)
    res = {k: np.array(getattr(a, v)) for k, v in RES[model].items() if hasattr(a, v) and getattr(a, v, None) is not None}
    own = c.coin(.3)
    if own:
        a.plot_properties = {v: dict(xlabel='own x', ylabel='own y') for v in RES[model].values()}
        a.plot_properties['material'] = dict(fig_prop=dict(figsize=(5, 3)))
        a.plot_properties['load'] = dict(fig_prop=dict(figsize=(6, 2)))
    given = copy.deepcopy(a.plot_properties)
    c.call('produce_plots', a.produce_plots)
    c.true('plot properties kept', a.plot_properties == given, (a.plot_properties, given))
    F = by_label(c, a._figures)
    if own and c.coin(.5):
        first = {k: [(ax.get_xlabel(), ax.get_ylabel()) for ax in f.axes] for k, f in F.items()}
        size = {k: tuple(f.get_size_inches()) for k, f in F.items()}
        plt.close('all')
        c.call('produce_plots', a.produce_plots)
        F = by_label(c, a._figures)
        c.true('drawn again the same', first == {k: [(ax.get_xlabel(), ax.get_ylabel()) for ax in f.axes] for k, f in F.items()} and size == {k: tuple(f.get_size_inches()) for k, f in F.items()}, 'labels or sizes differ')
    if own and 'fig_loads' in F and 'fig_materials' in F:
        c.true('own sizes', tuple(F['fig_loads'].get_size_inches()) == (6, 2) and tuple(F['fig_materials'].get_size_inches()) == (5, 3), (F['fig_loads'].get_size_inches(), F['fig_materials'].get_size_inches()))
    want = [k for k, v in RES[model].items() if not (('ppress_z' in skip and v.startswith('por')) or ('avg_ppress_z_pairs' in skip and v.startswith('avp')) or ('settlement_z_pairs' in skip and v.startswith('set')))]
    c.true('the figures asked for', sorted(F) == sorted(want + ['fig_loads', 'fig_materials']), sorted(F))
    for k in want:
        if k not in F:
            continue
        v = RES[model][k]
        ax = F[k].axes[0]
        R = np.array(getattr(a, v))
        ix = a.tvals[getattr(a, specm.IDXOF(v) + '_tval_indexes')]
        if v.startswith('por'):
            z = zmap(a.ppress_z, p['H'], rl)
            same_lines(c, 'pore pressure plot', ax, [(R[:, j], z) for j in range(R.shape[1])])
            labels(c, 'times as labels', ax, [fmt(x) for x in ix])
            updown(c, ax, rl)
            c.true('axis label', ax.get_xlabel() == ('own x' if own else TITLES[v]), ax.get_xlabel())
        else:
            same_lines(c, 'time plot', ax, [(ix, R[j]) for j in range(R.shape[0])])
            prs = p['pairs'] if v.startswith('avp') else p['spairs']
            labels(c, 'depth intervals as labels', ax, ['%s to %s' % tuple(fmt(x) for x in zmap(q, p['H'], rl)) for q in prs])
            c.true('axis label', ax.get_ylabel() == ('own y' if own else TITLES[v]), ax.get_ylabel())
            y0, y1 = ax.get_ylim()
            c.true('settlement downwards', (y0 > y1) == (v == 'set' and model != 'unsat'), (y0, y1))
            c.true('time scale', (ax.get_xscale() == 'log') == (model == 'unsat'), ax.get_xscale())
    # loads: the histories and profiles of the analysis
    tr, nm, yl = [], [], []
    for key, name, lab, at in (('surcharge', 'surch', 'Surcharge', None), ('vacuum', 'vac', 'Vacuum', None), ('top', 'top', 'Top boundary', 0), ('bot', 'bot', 'Bot boundary', 1),
                               ('wtop', 'wtop', 'Top water boundary', 0), ('wbot', 'wbot', 'Bot water boundary', 1), ('atop', 'atop', 'Top air boundary', 0), ('abot', 'abot', 'Bot air boundary', 1)):
        if p.get(key):
            tr.append([(PolyLine(l.x, l.y), PolyLine(*l.depth.xylist()) if at is None else ([at], [1]), l.om) for l in p[key]])
            nm.append(name)
            yl.append(lab)
    if p.get('fixed'):
        tr.append([((l.x, l.y) if l is not None else None, ([z], [1]), None if l is None else l.om) for z, k, l in p['fixed']])
        nm.append('fixed p')
        yl.append('Fixed ppress')
    if p.get('pumping'):
        tr.append([((l.x, l.y), ([z], [1]), l.om) for z, l in p['pumping']])
        nm.append('pump')
        yl.append('Pumping velocity')
    if 'fig_loads' in F:
        check_loads(c, F['fig_loads'], tr, nm, yl, p['H'], rl, {}, None, None)
    if 'fig_materials' in F:
        zx = [PolyLine(*p['prof'][k].xylist()) for k in MATS[model] if k in p['prof']]
        f = F['fig_materials']
        check_materials(c, f, zx, [ax.get_xlabel() for ax in f.axes], p['H'], rl, {})
    for k, v in RES[model].items():
        if k in res:
            c.true('results unchanged by plotting', np.array_equal(res[k], np.array(getattr(a, v)), equal_nan=True), v)


@group('layered analyses', quick=10, thorough=150, cpu=120)
@fresh
def layered(c):
    L = c.i(1, 3)
    z = np.cumsum(np.round(c.u(.5, 2, L), 2))
    h = np.diff(np.r_[0, z])
    nog = c.coin()
    tt = np.round(np.logspace(-2, .5, 5) * c.logu(.1, 1), 4)
    tp = tt[[1, 3]]
    zz = np.linspace(0, z[-1], 6)
    txt = 'h=np.array(%r)\nmv=np.array(%r)\n' % (h.tolist(), np.round(c.u(.5, 2, L), 2).tolist())
    txt += 'z=np.array(%r)\nt=np.array(%r)\ntpor=np.array(%r)\n' % (zz.tolist(), tt.tolist(), tp.tolist())
    txt += 'surcharge_vs_time=PolyLine([0,0.0,10],[0,%r,%r])\n' % ((round(c.u(1, 100), 2),) * 2)
    if nog:
        txt += 'kv=np.array(%r)\nkh=np.array(%r)\nbctop=0\nbcbot=%d\nnv=6\nnh=2\nr0=.05\nr1=.8\nrcalc=%s\n' % (np.round(c.u(.5, 2, L), 2).tolist(), np.round(c.u(.5, 2, L), 2).tolist(), c.i(0, 1), c.pick('None', '.4'))
    else:
        txt += 'kv=np.array(%r)\nbctop=0\nbcbot=%d\nhtop=None\nktop=None\nhbot=None\nkbot=None\nn=8\n' % (np.round(c.u(.5, 2, L), 2).tolist(), c.i(0, 1))
    eig = c.coin(.3)
    txt += 'show_vert_eigs=%r\n' % eig
    c.note(text=txt)
    a = c.call('analysis', NogamiAndLi2003 if nog else SchiffmanAndStein1970, txt)
    c.call('make_all', a.make_all)
    own = c.coin()
    if own:
        a.plot_properties = {v: dict(xlabel='own x', ylabel='own y') for v in ('por', 'avp', 'set')}
    for k in range(c.i(1, 2)):
        plt.close('all')
        c.call('produce_plots', a.produce_plots)
        F = by_label(c, a._figures)
        if own:
            c.true('own axis labels', [F[k].axes[0].get_xlabel() == 'own x' and F[k].axes[0].get_ylabel() == 'own y' for k in ('fig_por', 'fig_avp', 'fig_set')] == [True] * 3, [(F[k].axes[0].get_xlabel(), F[k].axes[0].get_ylabel()) for k in F])
    c.true('figures', sorted(F) == sorted(['fig_por', 'fig_avp', 'fig_set'] + ['vertical characteristic curve and eigs'] * eig), sorted(F))
    ax = F['fig_por'].axes[0]
    same_lines(c, 'pore pressure plot', ax, [(a.por[:, j], zz) for j in range(len(tp))])
    labels(c, 'times as labels', ax, [fmt(v) for v in tp])
    updown(c, ax, None)
    for k, v in (('fig_avp', a.avp), ('fig_set', a.set)):
        ax = F[k].axes[0]
        same_lines(c, 'time plot', ax, [(tt, np.ravel(v))])
        labels(c, 'depth interval as label', ax, ['0 to ' + fmt(z[-1])])
        c.true('settlement downwards', (ax.get_ylim()[0] > ax.get_ylim()[1]) == (k == 'fig_set'), ax.get_ylim())


@group('one layer plots', quick=40, thorough=600, cpu=60)
@fresh
def onelayer(c):
    which = c.pick('terzaghi', 'cosenza', 'xie')
    c.note(which=which)
    if which != 'xie':
        z, t = np.sort(c.u(0, 1, 5)), np.sort(c.logu(.01, 10, 6))
        por, doc, st, ua = c.u(0, 1, (5, 3)), np.sort(c.u(0, 1, 6)), c.u(0, 1, 6), c.u(0, 1, 6)
        kw = {k: v for k, v in (('por', por), ('doc', doc)) + ((('settle', st), ('uavg', ua)) if which == 'cosenza' else ()) if c.coin(.7)}
        c.call('plot_one_dim_consol', tz.plot_one_dim_consol if which == 'terzaghi' else ck.plot_one_dim_consol, z, t, **kw)
        if not c.true('one figure per result', len(plt.get_fignums()) == len(kw), '%d of %d' % (len(plt.get_fignums()), len(kw))):
            return
        for n, k in zip(plt.get_fignums(), kw):
            ax = plt.figure(n).axes[0]
            if k == 'por':
                same_lines(c, k, ax, [(por[:, j], z) for j in range(3)])
            else:
                same_lines(c, k, ax, [(t, kw[k])])
                c.true('log time', ax.get_xscale() == 'log', ax.get_xscale())
            c.true('downwards', (ax.get_ylim()[0] > ax.get_ylim()[1]) == (k != 'uavg'), k)
        return
    e00 = c.u(1.5, 3)
    o = xl.XieAndLeo2004(qp=c.u(5, 40), qc=c.u(40, 160), H=c.u(2, 12), Hw=c.u(0, 1.5), kw0=c.logu(1e-10, 1e-8), e0=None, e00=e00, mvl=c.u(1e-3, 4e-3), Gs=2.75, drn=c.i(0, 1), nterms=20) \
        if False else xl.XieAndLeo2004(c.u(5, 40), c.u(40, 160), c.u(2, 12), c.u(0, 1.5), c.logu(1e-10, 1e-8), c.u(1e-3, 4e-3), Gs=2.75, e00=e00, gamw=10, drn=c.i(0, 1), nterms=20)
    sfx = '_PTIB' if o.drn == 1 else '_PTPB'
    a = np.linspace(0, o.H, 5)
    t = None if c.coin(.3) else np.sort(c.logu(.01, 2, 3)) / o.dTv
    fig = c.call('plot_all', o.plot_all, a=a, t=t)
    c.true('eight plots', len(fig.axes) == 8, len(fig.axes))
    if t is None:
        ll = [l.get_label() for l in fig.axes[1].get_lines()]
        c.true('eleven default times', len(ll) == 11, len(ll))
        return
    x = getattr(o, 'xi' + sfx)(a, t)
    by = {ax.get_xlabel(): ax for ax in fig.axes}
    for lab, nm in (('$u$', 'u'), ('$p$', 'total_pore_pressure'), ("$\\sigma'$", 'effective_stress'), ('$\\sigma$', 'total_stress'), ('$v_s$', 'vs'), ('$v_w$', 'vw'), ('$e$', 'e')):
        v = getattr(o, nm + sfx)(a, t)
        same_lines(c, nm, by[lab], [(v[:, j], x[:, j]) for j in range(len(t))])
        c.true('downwards', by[lab].get_ylim()[0] > by[lab].get_ylim()[1], lab)
    ax = fig.axes[0]
    g = lines(ax)
    ti = g[0][:, 0] / o.dTv
    c.close('Us', g[0][:, 1], getattr(o, 'Us' + sfx)(ti), rtol=1e-9)
    c.close('Up', g[1][:, 1], getattr(o, 'Up' + sfx)(ti), rtol=1e-9)
    c.true('Us and Up labels', [l.get_label() for l in ax.get_lines()] == ['$U_s$', '$U_p$'], 'labels')


@group('model curves', quick=150, thorough=3000, cpu=20)
@fresh
def curves(c):
    k = c.pick(0, 1, 2, 3, 4, 6, 7, 8)
    n, x0, x1 = c.i(2, 60), None, None
    if k == 0:
        o, f = vs.AvSoilModel(c.u(.01, 2), c.u(1, 50), c.u(1, 4)), 'e_from_stress'
    elif k == 1:
        o, f = vs.CcCrSoilModel(Cc=c.u(.5, 3), Cr=c.u(.05, .4), siga=c.u(10, 40), ea=c.u(2, 4)), 'e_from_stress'
    elif k == 2:
        o, f = vp.CkPermeabilityModel(c.u(.3, 2), c.logu(1e-3, 10), c.u(1, 3)), 'e_from_k'
    elif k == 3:
        o, f = vg.DarcyFlowModel(c.u(.1, 5)), 'v_from_i'
    elif k == 4:
        o, f = vg.HansboNonDarcianFlowModel(klinear=c.u(1, 5), n=c.u(1.1, 2), i0=c.u(1, 5)), 'v_from_i'
    elif k == 6:
        o, f = swcc.SWCC_FredlundAndXing1994(a=c.u(100, 5000), n=c.u(.7, 3), m=c.u(.5, 2), ws=c.u(.3, 1), correction=c.pick(None, 1)), 'w_from_psi'
    elif k == 7:
        xs = np.sort(c.u(1, 50, 3))
        o, f = vs.PwiseLinearSoilModel(siga=xs, ea=np.sort(c.u(1, 3, 3))[::-1], Cr=.01, xlog=False), 'e_from_stress'
    else:
        xs = np.sort(c.logu(1e-4, 1, 3))
        o, f = vp.PwiseLinearPermeabilityModel(ka=xs, ea=np.sort(c.u(1, 3, 3)), xlog=False), 'e_from_k'
    c.note(model=type(o).__name__)
    kw = dict(npts=n)
    if k == 1:
        kw['pstress'] = c.u(20, 60)
    if k in (0, 1, 2, 3, 4, 5) and c.coin():
        kw['xmin'], kw['xmax'] = c.u(1, 5), c.u(20, 90)
    nm = [a for a in dir(o) if a.endswith('_for_plotting')][0]
    x, y = c.call(nm, getattr(o, nm), **kw)
    if k < 7:
        c.true('number of points', len(x) == len(y) == n, (len(x), n))
        if 'xmin' in kw:
            # the grid point above the preconsolidation stress is moved onto it
            hi = min(x[-1], kw['pstress']) if k == 1 and x[-1] < kw['xmax'] * (1 - 1e-9) else kw['xmax']
            c.close('range', [x[0], x[-1]], np.array([kw['xmin'], hi]), rtol=1e-9)
        fk = {'pstress': kw['pstress']} if k == 1 else {}
        c.close('points are on the curve', y, [float(getattr(o, f)(v, **fk)) for v in x], rtol=1e-9)
    else:
        xs_, ys_ = (o.siga, o.ea) if k == 7 else (o.ka, o.ea)
        c.true('points are on the curve', len(x) == len(y) and all(abs(np.interp(p, xs_, ys_) - q) < 1e-9 for p, q in zip(x, y)), 'points')
    fig, (a1, a2) = plt.subplots(1, 2)
    ax = c.pick(None, a1)
    c.call('plot_model', o.plot_model, **(dict(kw, ax=ax) if ax is not None else kw))
    same_lines(c, 'plotted curve', a2 if ax is None else a1, [(x, y)])
    c.true('only there', len((a1 if ax is None else a2).get_lines()) == 0, 'another axes drawn on')


@group('beam plots', quick=40, thorough=500, cpu=30)
@fresh
def beams(c):
    n = c.i(1, 3)
    x, p = np.round(np.sort(-c.u(0, 3, n)), 3)[::-1], np.round(c.u(-5, 5, n), 3)
    v, t0, x0, L = c.u(.5, 3) * c.pick(-1, 1), c.u(0, 2), 0.0, c.u(1, 5)
    o = c.call('MovingPointLoads', sb.MovingPointLoads, x, p, v=1, L=1, t0=0, x0=0) if False else sb.MovingPointLoads(x=x, p=p, offset=0, v=abs(v), L=L, t0=t0, x0=x0)
    kind = c.pick('axles', 'histories', 'deflection')
    c.note(kind=kind, n=n, v=v, t0=t0, L=L)
    if kind == 'axles':
        t = c.u(0, 4)
        ax = c.call('plotme', o.plotme, t=t, v0=v, t0=t0, x0=1.5, xlim=(-5, 5), ylim=(-9, 9))
        q = (x if v >= 0 else -x) + 1.5 + v * (t - t0)
        an = ax.texts
        c.close('axle arrows', [a.xy for a in an], np.c_[q, 0 * q], rtol=1e-12, atol=1e-12)
        c.close('arrow tails', [a.xyann for a in an], np.c_[q, p], rtol=1e-12, atol=1e-12)
    elif kind == 'histories':
        pl, om = o.convert_to_specbeam(v=v, L=L, t0=t0, x0=x0)
        ax = c.call('plot_specbeam_PolyLines', o.plot_specbeam_PolyLines, v=v, L=L, t0=t0, x0=x0)
        same_lines(c, 'histories', ax, [(q.x, q.y) for q in pl])
    else:
        b = sb.SpecBeam(nterms=5, kf=.1, k1_norm=2., mu_norm=.3, moving_loads_x_norm=[[0.]], moving_loads_Fz_norm=[[1e-3]], moving_loads_v_norm=[.4],
                        tvals_norm=np.r_[0, np.sort(c.u(.1, 3, 4))], xvals_norm=np.linspace(0, 1, 7), use_analytical=True, force_calc=True)
        c.call('runme', b.runme)
        ax = c.call('plot_w_vs_x_overtime', b.plot_w_vs_x_overtime)
        same_lines(c, 'deflection', ax, [(b.xvals_norm, b.defl_norm[:, j]) for j in range(5)])
        labels(c, 'times', ax, ['t={:5.2g}'.format(q) for q in b.tvals_norm])


@group('beam animations', quick=30, thorough=400, cpu=40)
@fresh
def anims(c):
    """every frame shows the deflections, their envelopes and the loads of its time"""
    if c.coin(.3):
        n = c.i(1, 3)
        x, p = c.u(-3, 0, n), c.u(-5, 5, n)
        v, t0, tf, x0 = c.u(.5, 3) * c.pick(-1, 1), c.u(-1, 2), c.u(3, 6), c.u(-2, 2)
        c.note(x=x, p=p, v=v, t0=t0, tf=tf, x0=x0)
        o = sb.MovingPointLoads(x=x, p=p)
        ani = c.call('animateme', o.animateme, x0=x0, t0=t0, tf=tf, v0=v, xlim=(-9, 9), ylim=(-6, 6))
        ani._draw_was_started = True
        fr = list(ani.new_frame_seq())
        c.close('times shown', fr, np.linspace(t0, tf, 100), rtol=1e-12, atol=1e-12)
        ani._init_func()
        for t in (fr[0], fr[c.i(1, 98)], fr[-1]):
            ani._func(t)
            ax = ani._fig.axes[0]
            an = [a for a in ax.texts if a.__class__.__name__ == 'Annotation']
            q = (x if v >= 0 else -x) + x0 + v * (t - t0)
            c.close('axle arrows', [a.xy for a in an], np.c_[q, 0 * q], rtol=1e-12, atol=1e-12)
            c.close('arrow tails', [a.xyann for a in an], np.c_[q, p], rtol=1e-12, atol=1e-12)
            c.true('time shown', 'time = {:.1f}'.format(t) in [a.get_text() for a in ax.texts], t)
        return
    n, pl, props, br, kf, k1, mu, tend = beamcase.config(c, 3)
    mv, ms = c.pick((1, 0), (2, 0), (0, 1), (0, 2), (0, 3), (1, 1))
    veh, own = beamcase.vehicles(c, mv, tend)
    sta, own2 = beamcase.stationary(c, ms, tend)
    if ms > 1 and c.coin():
        sta['x'][-1] = sta['x'][0]
    t = np.r_[c.pick(0, c.u(.01, .3) * tend), np.sort(c.u(.3, 1, c.i(2, 8))) * tend, tend]
    x = np.r_[0, np.sort(c.u(0, 1, c.i(1, 5))), 1]
    dim = c.coin(.6)
    norm = not dim or c.coin(.4)
    c.note(n=n, kf=kf, k1=k1, mu=mu, tend=tend, veh=veh if mv else None, sta=(sta['x'], sta['omega_phase']), dim=dim, norm=norm)
    v2, s2 = dict(veh) if mv else None, dict(sta) if ms else None
    if ms and all(v is None for v in sta['omega_phase']) and c.coin():
        s2.pop('omega_phase')
    kw = beamcase.build(c, n, pl, kf, k1, mu, tend, v2, s2, t, x, dim)
    b = c.call('SpecBeam', sb.SpecBeam, use_analytical=True, force_calc=True, **kw)
    c.call('runme', b.runme)
    ani = c.call('animateme', b.animateme, norm=norm)
    ani._draw_was_started = True
    # units of length, time and force of the drawing
    lu, tu, fu = (1., 1., 1.) if norm else (kw['L'], kw['L'] * np.sqrt(kw['rho'] / kw['E']), kw['E'] * kw['A'])
    D = np.reshape(b.defl_norm, (len(x), len(t))) * lu
    ax, ax2 = ani._fig.axes
    c.true('axis labels', (ax.get_xlabel(), ax.get_ylabel(), ax2.get_ylabel()) == (('x_norm', 'w_norm', 'Fz_norm') if norm else ('x', 'w', 'Fz')), (ax.get_xlabel(), ax.get_ylabel()))
    c.true('one frame for each time', list(ani.new_frame_seq()) == list(range(len(t))), len(t))
    y0, y1 = ax.get_ylim()
    c.true('downwards', y0 > y1, (y0, y1))
    ani._init_func()
    for k in c.rng.permutation(len(t))[:4]:
        ani._func(k)
        got = sorted([l.get_xydata() for l in ax.get_lines()], key=lambda a: tuple(a[:, 1]))
        lo, hi = D[:, :k + 1].min(axis=1), D[:, :k + 1].max(axis=1)
        want = sorted([np.c_[x * lu, y] for y in (D[:, k], lo, hi)], key=lambda a: tuple(a[:, 1]))
        c.close('deflection and envelopes so far', got, want, rtol=1e-12, atol=1e-14 * np.max(np.abs(D)))
        c.true('time shown', 'time = {:.4f}'.format(t[k] * tu) in [a.get_text() for a in ax.texts] or abs(t[k] * tu * 1e4 % 1 - .5) < 1e-6, [a.get_text() for a in ax.texts])
        an = [(float(np.ravel(a.xy[0])[0]), float(np.ravel(a.xyann[1])[0])) for a in ax2.texts if np.isfinite(a.xy[0])]
        exp = []
        for j in range(mv):
            v, x0, L = veh['v'][j], veh['x0'][j], veh['L'][j]
            for xi, p in zip(veh['x'][j], veh['Fz'][j]):
                exp.append((((x0 if v > 0 else x0 + L) + np.sign(v) * (xi + veh['offset'][j]) + v * (t[k] - veh['t0'][j])) * lu, p * fu))
        if mv and not ms:
            c.close('moving loads where they are', sorted(an), sorted(exp), rtol=1e-9, atol=1e-12 * lu)
        elif mv:
            c.true('moving loads where they are', all(any(abs(a[0] - q[0]) <= 1e-9 * (abs(q[0]) + lu) and abs(a[1] - q[1]) <= 1e-9 * abs(q[1]) for a in an) for q in exp), (an, exp))
        if ms:
            mag = []
            for i in range(ms):
                m = np.interp(t[k], sta['vs_t'][i].x, sta['vs_t'][i].y)
                op = sta['omega_phase'][i]
                mag.append(m * (1 if op is None else np.cos(op[0] * t[k] + op[1])) * fu)
            jump = any(np.any(np.abs(sta['vs_t'][i].x - t[k]) < 1e-9 * tend) for i in range(ms))
            for q in sorted(set(sta['x'])):
                tot = sum(m for m, s in zip(mag, sta['x']) if s == q)
                seen = sum(float(a[1]) for a in an if abs(a[0] - q * lu) <= 1e-9 * lu)
                c.true('arrow at a stationary load', any(abs(a[0] - q * lu) <= 1e-9 * lu for a in an), (q * lu, an))
                if not jump and not mv:
                    c.close('size of a stationary load', seen, tot, rtol=1e-8, atol=1e-9 * 1e-4 * fu)
