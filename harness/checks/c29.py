"""C29 the shipped example analyses."""
import os, sys, re, glob, runpy, shutil, contextlib, hashlib, tempfile
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group, SCRATCH
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import geotecha
import geotecha.inputoutput.inputoutput as iop
from geotecha.speccon.speccon1d_vr import Speccon1dVR
from geotecha.speccon.speccon1d_vrw import Speccon1dVRW
from geotecha.speccon.speccon1d_vrc import Speccon1dVRC
from geotecha.speccon.speccon1d_unsat import Speccon1dUnsat
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970

RULE = ('Every script of examples/ runs in a copy of that folder; the analyses it makes and the lines it draws are captured.'
        '  Calculated series are compared with the published series drawn beside them, and each captured analysis is repeated'
        ' with other implementations, fewer or other output times and depths, scaled loads, another unit of time and added layers.')
ASSUMPTIONS = ['How well an example reproduces its publication (digitised figures, truncated series) was measured once on the repaired tree;'
               ' the limit for each axes is 1.3 times that difference.',
               'Showing figures on a screen is replaced by nothing (Agg).']
REPO = os.environ.get('VERIF_REPO', '/repo')
EX = os.path.join(REPO, 'examples')
# largest difference, over the largest value, of each axes with published series
PUB = {
    'speccon1d_unsat_3layer_shanetal2014': (.03, .03),
    'speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012': (1e-4, 4e-4),
    'speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012': (8e-3, 1.3e-3),
    'speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012': (.026, 6.5e-3, .021),
    'speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition': (.025, 6e-3, 6e-3),
    'speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth': (.038, 7e-3, 5.5e-3),
    'speccon1d_vr_radial_mimic_hansbo1981_with_vacuum': (None, 4.5e-3, 4.5e-3),
    'speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000': (4e-4, 2.5e-4, 1e-4),
    'speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003': (.17, .045, .033),
    'speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012': (3e-4, 2.7e-3),
    'speccon1d_vrc_stone_column_luetal2010': (2e-4, 5e-6, 5e-6, 1e-6),
    'speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load': (2e-4, 5e-6, 5e-6, 1e-6),
    'speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer': (.036, .017, .016),
    'speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000': (1e-7, 1e-8, 1e-8),
    'speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013': (.126,),
    'example_1d_vr_001a_schiffmanandstein1970': None,
    'example_1d_vr_001b_schiffmanandstein1970': None,
    'speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2': None,
}
INPUT = 'example_1d_vr_001_schiffmanandstein1970'
NAMES = sorted(PUB)
MODELS = (Speccon1dVR, Speccon1dVRW, Speccon1dVRC, Speccon1dUnsat)


def digest(d):
    return {f: hashlib.sha1(open(os.path.join(d, f), 'rb').read()).hexdigest() for f in sorted(os.listdir(d)) if f.endswith('.py')}


@contextlib.contextmanager
def folder(sub):
    """inside a copy of the examples"""
    d = tempfile.mkdtemp(prefix='ex', dir=SCRATCH)
    for f in glob.glob(os.path.join(EX, sub, '*.py')):
        shutil.copy(f, d)
    cwd, argv, show = os.getcwd(), sys.argv, plt.show
    rc = dict(matplotlib.rcParams)
    plt.show = lambda *a, **k: None
    plt.close('all')
    os.chdir(d)
    try:
        yield d
    finally:
        plt.close('all')
        plt.show, sys.argv = show, argv
        matplotlib.rcParams.update(rc)
        os.chdir(cwd)
        shutil.rmtree(d)


@contextlib.contextmanager
def captured():
    made = []
    old = iop.InputFileLoaderCheckerSaver.__init__

    def init(self, *a, **k):
        old(self, *a, **k)
        made.append(self)
    iop.InputFileLoaderCheckerSaver.__init__ = init
    try:
        yield made
    finally:
        iop.InputFileLoaderCheckerSaver.__init__ = old


@contextlib.contextmanager
def older_matplotlib():
    """calls which matplotlib has removed since the examples were written"""
    F, L = matplotlib.figure.Figure, matplotlib.legend.Legend
    sub = F.add_subplot
    F.add_subplot = lambda self, *a, **k: sub(self, *[int(v) if isinstance(v, str) else v for v in a], **k)
    L.draggable = lambda self, *a, **k: self.set_draggable(True)
    try:
        yield
    finally:
        F.add_subplot = sub
        if 'draggable' in vars(L):
            del L.draggable


def run(c, name, d):
    sys.argv = [name + '.py']
    before = digest(d)
    ns = None
    for how, ctx in (('', contextlib.nullcontext), (' with an older matplotlib', older_matplotlib)):
        with captured() as made, ctx():
            try:
                ns = runpy.run_path(os.path.join(d, name + '.py'), run_name='__main__')
            except Exception as e:
                c.fail('the script runs' + how, '%s: %s: %s' % (name, type(e).__name__, e), mech='the script runs%s:%s' % (how, name))
                plt.close('all')
                continue
            c.true('the script runs', True)
            break
    else:
        return None, []
    c.true('scripts are left as they were', digest(d) == before, name)
    return ns, made


def results(o):
    return {k: np.array(v, float) for k, v in vars(o).items() if re.match('^(por|avp|set)', k) and isinstance(v, np.ndarray)}


def prefer(g, w):
    """differences of two lines, relative to nothing"""
    gx, gy, wx, wy = [np.asarray(v, float) for v in (g.get_xdata(), g.get_ydata(), w.get_xdata(), w.get_ydata())]
    if len(gx) == len(wx):
        return max(np.abs(gx - wx).max(), 0), np.abs(gy - wy).max()
    o = np.argsort(gx)
    return 0., np.abs(np.interp(wx, gx[o], gy[o]) - wy).max()


@group('as shipped', quick=len(NAMES), thorough=len(NAMES), cpu=240)
def shipped(c):
    name = NAMES[c.idx % len(NAMES)]
    c.note(name=name)
    with folder('speccon') as d:
        ns, made = run(c, name, d)
        if ns is None:
            return
        c.true('analyses were made', len([o for o in made if isinstance(o, MODELS)]) >= 1, made)
        for o in made:
            r = results(o)
            c.true('every analysis has results', len(r) >= 1, o)
            for k, v in r.items():
                c.true('finite results', np.all(np.isfinite(v)), k)
        lim = PUB[name]
        axes = [a for n in plt.get_fignums() for a in plt.figure(n).axes]
        if lim is not None and not c.true('axes drawn', len(axes) == len(lim), len(axes)):
            return
        for ax, l in zip(axes, lim or ()):
            L = ax.get_lines()
            E = [w for w in L if w.get_label().startswith('expected')]
            C = [w for w in L if w.get_label().startswith('calculated')]
            if '3layer' in name:
                C, E = L[::2], L[1::2]
            if l is None:
                continue
            if not c.true('published and calculated series drawn', len(E) == len(C) > 0, '%d %d' % (len(E), len(C))):
                continue
            S = [max(np.abs(np.asarray(f(e), float)).max() for e in E) for f in (lambda e: e.get_xdata(), lambda e: e.get_ydata())]
            D = np.array([prefer(g, w) for g, w in zip(C, E)]).max(axis=0)
            c.true('published series reproduced', D[0] <= l * S[0] and D[1] <= l * S[1], '%s: differences %s of %s, limit %g' % (name, D, S, l))
        if name == 'example_1d_vr_001a_schiffmanandstein1970':
            # more terms get closer to the converged input file
            o = Speccon1dVR(open(INPUT + '.py').read() + '\nsave_data_to_file=False\nsave_figures_to_file=False\n')
            o.make_all()
            e = [np.abs(m.avp - o.avp).max() for m in made if isinstance(m, Speccon1dVR)]
            c.true('more terms come closer', len(e) == 6 and e[-1] < .3 * e[0] and e[-1] < 2, e)


@group('input file', quick=2, thorough=2, cpu=240)
def inputfile(c):
    """the example for the programs: files written, and the four layers by another solution"""
    with folder('speccon') as d:
        os.mkdir('o')
        t = open(INPUT + '.py').read() + '\ndirectory = "o"\n' + ('create_directory = False\n' if c.idx else '')
        c.note(idx=c.idx)
        o = c.call('input', Speccon1dVR, t)
        c.call('make_all', o.make_all)
        plt.close('all')
        fs = sorted(os.path.relpath(os.path.join(r, f), 'o') for r, _, n in os.walk('o') for f in n)
        stem = 'example_1d_vr_001_schiffmanandstein1970_'
        c.true('files written', len(fs) >= 7 and all(os.path.basename(f).startswith(stem) for f in fs) and {os.path.splitext(f)[1] for f in fs} == {'.py', '.csv', '.png'}, fs)
        inp = [f for f in fs if f.endswith('_input_original.py')]
        c.true('input kept', len(inp) == 1 and open(os.path.join('o', inp[0])).read() == t, inp)
        h, cv, mv = np.array([10, 20, 30, 20.]), np.array([0.0411, 0.1918, 0.0548, 0.0686]), np.array([3.07e-3, 1.95e-3, 9.74e-4, 1.95e-3])
        s = SchiffmanAndStein1970('\n'.join(['n = 60', 'h = np.array(%s)' % list(h), 'kv = np.array(%s)' % list(cv * mv), 'mv = np.array(%s)' % list(mv), 'bctop = 0', 'bcbot = 0',
                                             'surcharge_vs_time = PolyLine([0, 0, 30000], [0, 100, 100])', 'z = np.array(%s)' % list(o.ppress_z * 80), 't = np.array(%s)' % list(o.tvals), 'tpor = np.array(%s)' % list(o.tvals[[6, 11, 15]])]))
        c.call('SchiffmanAndStein1970', s.make_all)
        c.close('pore pressure by the layer solution', o.por, s.por, rtol=0, atol=1.0)
        c.close('average by the layer solution', o.avp, np.reshape(s.avp, (1, -1)), rtol=0, atol=.5)
        c.close('settlement by the layer solution', o.set, np.reshape(s.set, (1, -1)), rtol=0, atol=.01 * np.abs(s.set).max())


TEXTS = {}


def text_of(c, name):
    """input texts of the analyses of an example (run once per process)"""
    if name not in TEXTS:
        with folder('speccon') as d, older_matplotlib():
            ns, made = run(c, name, d)
            TEXTS[name] = [(type(o), o._input_text) for o in made if isinstance(o, MODELS)]
    return TEXTS[name]


def scaled(v, x=1., y=1.):
    """loads scaled in time and size"""
    if isinstance(v, PolyLine):
        return PolyLine(list(np.asarray(v.x) * x), list(np.asarray(v.y) * y))
    if isinstance(v, (list, tuple)):
        return type(v)(scaled(u, x, y) if isinstance(u, (PolyLine, list, tuple)) else u for u in v)
    return v


LOADS = lambda o: [k for k in vars(o) if not k.startswith('_') and getattr(o, k) is not None and (k.endswith('_vs_time') or re.search('(pumping|fixed_ppress)', k) and not k.endswith('omega_phase'))]


@group('variants', quick=162, thorough=3600, cpu=240)
def variants(c):
    name = NAMES[c.idx % len(NAMES)]
    kind = ('implementation', 'times', 'depths', 'loads', 'unit of time', 'sublayers')[(c.idx // len(NAMES) + c.idx) % 6]
    ts = text_of(c, name)
    if not ts:
        return
    cls, t = c.pick(*ts)
    t += '\nsave_data_to_file = False\nsave_figures_to_file = False\nshow_figures = False\n'
    c.note(name=name, kind=kind, n=len(ts))

    def fresh():
        o = cls(t)
        for k in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs'):
            if hasattr(o, k + '_tval_indexes') or k + '_tval_indexes' in o._attributes:
                setattr(o, k + '_tval_indexes', slice(None, None))
        o.tvals = np.array(o.tvals, float)
        if len(o.tvals) > 30 and not c.thorough:
            o.tvals = o.tvals[::len(o.tvals) // 20]
        return o
    a, b = fresh(), fresh()
    c.call('analysis', a.make_all)
    ra = results(a)
    cols, rows, fac, tol = slice(None), None, 1., 1e-5
    if kind == 'implementation':
        b.implementation = c.pick(*[k for k in ('scalar', 'vectorized', 'fortran') if k != a.implementation])
        c.note(implementation=b.implementation)
        if b.implementation == 'scalar' or a.implementation == 'scalar':
            a.neig = b.neig = min(a.neig, 15)
            c.call('analysis', a.make_all)
            ra = results(a)
    elif kind == 'times':
        cols = np.sort(c.rng.choice(len(a.tvals), c.i(1, len(a.tvals)), replace=False))
        b.tvals = a.tvals[cols]
        c.note(cols=cols)
    elif kind == 'depths':
        if a.ppress_z is None:
            return
        rows = np.sort(c.rng.choice(len(a.ppress_z), c.i(1, len(a.ppress_z)), replace=False))
        b.ppress_z = np.asarray(a.ppress_z, float)[rows]
        c.note(rows=rows)
    elif kind == 'loads':
        fac = c.pick(-1., 3., c.logu(1e-3, 1e3))
        c.note(factor=fac)
        for k in LOADS(b):
            setattr(b, k, scaled(getattr(b, k), 1, fac))
    elif kind == 'unit of time':
        f = c.pick(365.25, 60., 1 / 86400., c.logu(1e-4, 1e4))
        c.note(factor=f)
        for k in LOADS(b):
            # (pumping is a rate of flow)
            setattr(b, k, scaled(getattr(b, k), f, 1 / f if k.endswith('pumping') else 1))
        b.tvals = np.asarray(b.tvals, float) * f
        for k in list(vars(b)):
            if re.match('^dT.', k) and isinstance(getattr(b, k), (int, float)):
                setattr(b, k, getattr(b, k) / f)
            if k.endswith('omega_phase') and getattr(b, k) is not None:
                per = lambda v: v if v is None else (v[0] / f, v[1]) if np.isscalar(v[0]) else [per(u) for u in v]
                setattr(b, k, per(getattr(b, k)))
        b.dT = b.dT / f if c.coin() else b.dT
    else:
        # a boundary inside every material profile, between equal materials
        z = round(c.u(.02, .98), 4)
        c.note(z=z)
        n = 0
        for k in list(vars(b)):
            v = getattr(b, k)
            if isinstance(v, PolyLine) and not k.endswith('_vs_time') and v.x[0] == 0 and v.x[-1] == 1 and np.min(np.abs(np.asarray(v.x) - z)) > 1e-3:
                i = int(np.searchsorted(v.x, z))
                y = v.y[i - 1] + (v.y[i] - v.y[i - 1]) * (z - v.x[i - 1]) / (v.x[i] - v.x[i - 1])
                setattr(b, k, PolyLine(list(v.x[:i]) + [z] + list(v.x[i:]), list(v.y[:i]) + [y] + list(v.y[i:])))
                n += 1
        c.true('profiles found', n > 0, n)
    c.call('varied analysis', b.make_all)
    plt.close('all')
    rb = results(b)
    c.true('same results available', set(ra) == set(rb), '%s %s' % (sorted(ra), sorted(rb)))
    for k in sorted(ra):
        w = ra[k][:, cols]
        if rows is not None and k.startswith('por'):
            w = w[rows]
        # (wells without permeability are nearly singular)
        tl = 1e-3 if k == 'porwell' and 'kw_of_0' in name else tol
        c.close(kind + ': ' + k, rb[k] / fac, w, rtol=0, atol=tl * (np.abs(ra[k]).max() + 1e-300))


@group('beams', quick=1, thorough=2, cpu=600)
def beams(c):
    name = ('specbeam_transition_zone', 'specbeam_infinite_beam_dynamic_amplification_factor')[c.idx]
    c.note(name=name)
    from geotecha.beam_on_foundation.specbeam import SpecBeam
    made = []
    old = SpecBeam.__init__

    def init(self, *a, **k):
        old(self, *a, **k)
        made.append(self)
    SpecBeam.__init__ = init
    try:
        with folder('specbeam') as d:
            ns, _ = run(c, name, d)
            if ns is None:
                return
            c.true('figures drawn', len(plt.get_fignums()) >= 1)
            for n in plt.get_fignums():
                for ax in plt.figure(n).axes:
                    for l in ax.get_lines():
                        y = np.asarray(l.get_ydata(), float)
                        c.true('no infinite values drawn', not np.any(np.isinf(y)), l.get_label())
    finally:
        SpecBeam.__init__ = old
    c.true('beams were made', len(made) >= 1)
    # deflections of every beam satisfy the pinned ends and are finite
    for o in made:
        w = getattr(o, 'defl', None)
        if w is not None:
            c.true('finite deflections', np.all(np.isfinite(w)))
