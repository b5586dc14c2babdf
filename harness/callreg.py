"""Random calls of the package's public functions, for the checks of independence
between calls.  make(name, rng seed) -> (function, args, kwargs), always fresh
objects; canon(v) turns results and arguments into comparable plain data.

Run as a program it is the reference: started fresh, it forks one child for
every request read from stdin, so each reference result is the first call made
after import."""
import os, sys, pickle, struct, types, warnings
import numpy as np
import fbuild
fbuild.inject('plain')
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import geotecha.piecewise.piecewise_linear_1d as pw
from geotecha.piecewise.piecewise_linear_1d import PolyLine
import geotecha.consolidation.smear_zones as sz
import geotecha.consolidation.terzahi as tz
import geotecha.consolidation.cosenzaandkorosak2014 as ck
import geotecha.consolidation.dengetal2013and2014 as dg
import geotecha.consolidation.luetal2010 as lu
import geotecha.consolidation.shanetal2012 as sh
import geotecha.consolidation.tangandonitsuka2000 as to
import geotecha.consolidation.xieandleo2004 as xl
import geotecha.consolidation.zhuandyin2012 as zy
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003
import geotecha.mathematics.geometry as ge
import geotecha.mathematics.quadrature as qd
import geotecha.mathematics.root_finding as rf
import geotecha.mathematics.hankel as hk
import geotecha.mathematics.fourier as fo
import geotecha.mathematics.laplace as la
import geotecha.mathematics.mp_laplace as ml
import geotecha.mathematics.multi_transform as mt
from geotecha.mathematics.transformations import depth_to_reduced_level
import geotecha.constitutive_models.epus as ep
import geotecha.constitutive_models.swcc as sw
import geotecha.constitutive_models.void_ratio_stress as vs
import geotecha.constitutive_models.void_ratio_permeability as vp
import geotecha.constitutive_models.velocity_hydraulic_gradient as vg
import geotecha.speccon.integrals as si
import geotecha.inputoutput.inputoutput as io
import geotecha.plotting.one_d as od
import geotecha.beam_on_foundation.specbeam as sb
from geotecha.beam_on_foundation.dingetal2012 import DingEtAl2012
import specm
import beamcase


class G(object):
    """same random helpers as the checks"""
    thorough = False

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.params = {}

    def note(self, **k):
        pass

    def u(self, a, b, size=None):
        r = self.rng.uniform(a, b, size)
        return float(r) if size is None else r

    def logu(self, a, b, size=None):
        r = np.exp(self.rng.uniform(np.log(a), np.log(b), size))
        return float(r) if size is None else r

    def i(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def pick(self, *o):
        return o[int(self.rng.integers(len(o)))]

    def coin(self, p=.5):
        return bool(self.rng.random() < p)


REG = {}
TEXT = [True]    # include text made with print options
PLOT = set()      # draws figures, or sets styles


def reg(name=None, plot=False):
    def deco(f):
        n = name or f.__name__.strip('_')
        REG[n] = f
        if plot:
            PLOT.add(n)
        return f
    return deco


def X(c, n=None, a=0, b=1):
    return np.r_[a, np.sort(c.u(a, b, (n or c.i(1, 4)))), b]


def steps(c, n=4):
    x = np.sort(c.u(0, 3, n))
    if c.coin():
        k = c.i(1, n - 1)
        x[k] = x[k - 1]
    return x


# ---------------------------------------------------------------- piecewise
for nm in 'has_steps is_initially_increasing strictly_increasing strictly_decreasing non_increasing non_decreasing non_increasing_and_non_decreasing_parts force_strictly_increasing force_non_decreasing'.split():
    def f(c, nm=nm):
        return getattr(pw, nm), (c.pick(list, np.array)(steps(c).tolist() if nm.startswith(('has', 'force')) else c.u(0, 3, 5).tolist()),), {}
    REG['piecewise.' + nm] = f
for nm in 'start_index_of_ramps start_index_of_constants start_index_of_steps ramps_constants_steps convert_x_y_to_x1_x2_y1_y2 remove_superfluous_from_x_y'.split():
    def f(c, nm=nm):
        return getattr(pw, nm), (steps(c), np.round(c.u(0, 2, 4))), {}
    REG['piecewise.' + nm] = f


@reg('piecewise.segments')
def _f(c):
    x = X(c)
    nm = c.pick('segment_containing_xi', 'segments_less_than_xi')
    kw = {} if c.coin() else dict(subset=[k for k in range(len(x) - 1) if c.coin(.7)])
    return getattr(pw, nm), (x, c.pick(c.u(0, 1), c.u(0, 1, 3))), kw


@reg('piecewise.interp')
def _f(c):
    x, xi = steps(c), c.u(-.5, 3.5, 5)
    y = c.u(-1, 1, 4)
    if c.coin():
        return pw.interp_x_y, (x, y, xi), dict(choose_max=c.coin())
    return pw.pinterp_x_y, (PolyLine(x, y), xi), {}


@reg('piecewise.averages')
def _f(c):
    x, y = X(c, 2), c.u(-1, 1, 4)
    a, b = sorted(c.u(0, 1, 2))
    return c.pick(pw.avg_x_y_between_xi_xj, pw.integrate_x_y_between_xi_xj), (x, y, a, b), {}


@reg('piecewise.cos multiply')
def _f(c):
    a = [PolyLine(np.r_[0, np.sort(c.u(0, 2, 2))], c.u(-1, 1, 3)) for _ in range(c.i(1, 2))]
    b = [PolyLine(X(c, 1), c.u(0, 1, 3)) for _ in a]
    om = c.pick(None, [c.pick(None, (c.u(0, 3), c.u(-1, 1))) for _ in a])
    return pw.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super, (a, b, PolyLine(X(c, 1), c.u(.5, 1, 3)), c.u(0, 2, 3), [0., .3], [1., .7]), dict(omega_phase=om)


@reg('piecewise.polyline')
def _f(c):
    p = PolyLine(X(c, 2), c.u(-1, 1, 4))
    q = PolyLine(X(c, 3), c.u(-1, 1, 5))

    def ops(p, q, k):
        return [p + q, p - q, p + k, k - p, p * k, k * p, p / k, p == q, p == p, np.array(p.x1), np.array(p.y2), '' if not TEXT[0] else str(p) + repr(q), pw.polyline_make_x_common(p, q)]
    return ops, (p, q, c.u(.5, 2)), {}


@reg('piecewise.subdivide')
def _f(c):
    k = c.i(0, 3)
    if k == 0:
        return pw.subdivide_x_y_into_segments, (steps(c) + .1, c.u(.1, 2, 4)), dict(dx=c.pick(None, .2), min_segments=c.i(1, 4), logx=c.coin(), just_before=c.pick(None, .1))
    if k == 1:
        return pw.subdivide_x_into_segments, (X(c) + .1,), dict(dx=c.pick(None, .2), min_segments=c.i(1, 4))
    if k == 2:
        return pw.layer_coords, (c.u(.5, 2, 3), [c.i(1, 5) for _ in range(3)]), dict(min_segs=c.i(1, 3))
    return pw.subdivide_into_elements, (), dict(n=c.i(1, 8), h=c.u(.5, 3), p=c.u(.5, 2), symmetry=c.coin())


# ---------------------------------------------------------------- drains
def smear(c):
    s = c.u(1.5, 4)
    return c.u(6, 20), s, c.u(1.1, 4)


MU = ('mu_constant', 'mu_linear', 'mu_parabolic', 'mu_overlapping_linear')


@reg('drains.mu')
def _f(c):
    k = c.pick(*MU + ('mu_ideal', 'mu_piecewise_constant', 'mu_piecewise_linear'))
    n, s, kap = smear(c)
    if 'piecewise' in k:
        S = np.sort(c.u(1.2, n, 2)).tolist()
        return getattr(sz, k), (S + [n], [2., 1.5, 1.]) if 'constant' in k else ([1.] + S + [n], [3., 2., 1.5, 1.]), {}
    return getattr(sz, k), ((n,) if k == 'mu_ideal' else (np.array([n, n + 1]) if c.coin(.2) else n, s, kap)), {}


@reg('drains.u')
def _f(c):
    n, s, kap = smear(c)
    r = np.r_[1., np.sort(c.u(1, n, 4)), n]
    k = c.pick('u_ideal', 'u_constant', 'u_linear', 'u_parabolic', 'k_linear', 'k_parabolic', 'k_overlapping_linear', 'u_piecewise_constant', 'u_piecewise_linear', 'non_darcy_u_piecewise_constant')
    kw = {} if k.startswith('k_') else dict(uavg=c.u(.3, 1), uw=c.u(0, .2), muw=c.u(0, .3))
    if 'piecewise' in k:
        S, K = ([s, n], [kap, 1.]) if 'constant' in k else ([1., s, n], [kap, 1., 1.])
        return getattr(sz, k), (S, K, r), kw
    return getattr(sz, k), ((n,) if k == 'u_ideal' else (n, s, kap)) + (r,), kw


@reg('drains.eta')
def _f(c):
    n, s, kap = smear(c)
    return sz.drain_eta, (c.u(.5, 1), c.pick(*[getattr(sz, m) for m in MU]), n, s, kap), c.pick({}, dict(muw=c.u(0, 2)))


@reg('drains.non darcy')
def _f(c):
    n, s, kap = smear(c)
    k = c.i(0, 2)
    nf = c.pick(dict(nflow=1.3), dict(nflow=c.u(1.05, 1.5)), dict(nflow=c.u(1.05, 1.5), nterms=c.i(5, 30)))
    if k == 0:
        return sz.non_darcy_beta_constant, (n, s, kap), nf
    if k == 1:
        return sz.non_darcy_beta_piecewise_constant, ([s, n], [kap, 1.]), nf
    return sz.non_darcy_drain_eta, (c.u(.5, 1), c.u(1, 5), 10., sz.non_darcy_beta_constant, n, s, kap), nf


@reg('drains.spacing')
def _f(c):
    if c.coin():
        return sz.re_from_drain_spacing, (c.pick(c.u(.5, 3), c.u(.5, 3, 2)),), dict(pattern=c.pick('Triangle', 'Square', 'triangle', 'hex'))
    return sz.back_calc_drain_spacing_from_eta, (c.u(1, 10), c.pick('t', 's'), sz.mu_constant, .05, c.u(1.5, 3), c.u(1.2, 4)), {}


# ---------------------------------------------------------------- analytical solutions
def zt(c):
    z, t = np.sort(c.u(0, 1, 4)), np.sort(c.logu(.01, 2, 4))
    if c.coin(.3):
        z, t = z.tolist(), t.tolist()
    return z, t


@reg('solutions.terzaghi')
def _f(c):
    return c.pick(tz.terzaghi_1d, tz.terzaghi_1d_flowrate), zt(c), c.pick({}, dict(H=c.u(.5, 3), kv=c.u(.5, 2), mv=c.u(.05, .3), nterms=c.i(5, 120)))


@reg('solutions.cosenza')
def _f(c):
    z, t = zt(c)
    return ck.cosenzaandkorosak2014, (z, t, c.u(.01, 5), c.u(.2, .9)), dict(nterms=c.i(5, 40), tpor=c.pick(None, np.array([.1, .4])))


@reg('solutions.deng')
def _f(c):
    z, t = zt(c)
    if c.coin():
        return dg.dengetal2013, (z, t, .1, c.u(.5, 2)), dict(A1=1, A2=c.u(0, .5), A3=c.u(0, .3), kw0=c.logu(10, 1e4))
    return dg.dengetal2014, (z, t, .1, c.u(.5, 2)), dict(A3=c.u(0, 2), kw0=c.logu(10, 1e4), nterms=c.i(5, 40))


@reg('solutions.lu')
def _f(c):
    z, t = zt(c)
    return lu.luetal2010, (z, t, .2, c.u(.6, 2)), dict(rs=.3, ks=c.u(.2, 1), kvc=c.logu(1, 100), mvc=c.u(.01, .1), ubot=c.u(0, 1), nterms=c.i(5, 40))


@reg('solutions.shan')
def _f(c):
    z, t = zt(c)
    return sh.shanetal2012, (np.asarray(z), np.asarray(t), 1., c.u(-.8, -.6), -c.logu(.001, .1), c.u(-.1, -.05), -c.u(.01, .2)), dict(drn=c.i(0, 1), uwi=(c.u(0, 50), 0), uai=(c.u(0, 10), 0), nterms=c.i(5, 30))


@reg('solutions.tang')
def _f(c):
    z, t = zt(c)
    return to.tangandonitsuka2000, (z, t, c.u(.5, 2), c.u(.5, 2), c.u(.2, .5), c.logu(10, 1e4), .1, 10, .05, .1, c.u(.5, 1), 1., c.i(0, 1)), c.pick({}, dict(surcharge_vs_time=((0, .1, c.u(.2, 1), 2), (0, 0, 1., 1.)), tpor=np.array([.2, .3])))


@reg('solutions.zhu')
def _f(c):
    z, t = zt(c)
    return zy.zhuandyin2012, (z, t, c.u(.2, 2), c.u(.5, 2), c.u(-1, 1)), dict(drn=c.i(0, 1), nterms=c.i(4, 12))


@reg('solutions.xie')
def _f(c):
    def go(a, t, m, nt, drn):
        o = xl.XieAndLeo2004(10., 40., 5., 1., 1e-9, 2e-3, 2., 2.7, nterms=nt, drn=drn)
        s = ('_PTIB' if drn else '_PTPB')
        return [getattr(o, m + s)(a, t / o.dTv)] if m in ('u', 'e', 'settlement') else [getattr(o, m + s)(t / o.dTv)]
    return go, (np.linspace(0, 5, 4), np.sort(c.logu(.01, 2, 3)), c.pick('u', 'settlement', 'Us', 'Up', 'e'), c.i(5, 40), c.i(0, 1)), {}


@reg('solutions.layered')
def _f(c):
    L = c.i(1, 2)
    h = np.round(c.u(.5, 2, L), 2).tolist()
    txt = 'h=np.array(%r)\nmv=np.array(%r)\nkv=np.array(%r)\nbctop=0\nbcbot=%d\n' % (h, np.round(c.u(.5, 2, L), 2).tolist(), np.round(c.u(.5, 2, L), 2).tolist(), c.i(0, 1))
    txt += 'z=np.linspace(0,%r,4)\nt=np.array(%r)\ntpor=np.array(%r)\nsurcharge_vs_time=PolyLine([0,%r,10],[0,1.0,1.0])\n' % (sum(h), np.sort(c.logu(.05, 2, 3)).tolist(), [.2, .5], c.pick(0., .2))
    nog = c.coin(.3)
    txt += 'kh=np.array(%r)\nnv=5\nnh=2\nr0=.05\nr1=.8\nrcalc=.4\n' % np.round(c.u(.5, 2, L), 2).tolist() if nog else 'htop=None\nktop=None\nhbot=None\nkbot=None\nn=6\n'

    def go(t):
        o = (NogamiAndLi2003 if nog else SchiffmanAndStein1970)(t)
        o.make_all()
        return o.por, o.avp, o.set
    return go, (txt,), {}


# ---------------------------------------------------------------- models
def model(c, m):
    p = specm.case(c, m, 2)
    t = specm.text(p, c)

    def go(t):
        o = specm.cls(m)(t)
        o.make_all()
        return [getattr(o, k, None) for k in 'por avp set porwell pors porc avps avpc porw pora avpw avpa setw seta'.split()]
    return go, (t,), {}


for m_ in ('vr', 'vrw', 'vrc', 'unsat'):
    REG['models.' + m_] = lambda c, m=m_: model(c, m)


@reg('models.rejected')
def _f(c):
    def go(t):
        o = specm.cls('vr')(t)
        o.make_all()
        return o.por
    return go, (c.pick('H = 1\ndrn = 0\nneig = 2\n', 'import os\nH = 1', 'H = 1\nmv = PolyLine([0, 1], [1, 2]', 'H = open("x").read()', 'H = 1.0\ntvals = np.array([1, 2])\nmvref = "a"\n'),), {}


@reg('models.beam')
def _f(c):
    n, pl, props, br, kf, k1, mu, tend = beamcase.config(c, 3)
    veh, _ = beamcase.vehicles(c, 1, tend)
    sta, _ = beamcase.stationary(c, c.i(0, 1), tend)
    x, t = np.r_[0, np.sort(c.u(0, 1, 2)), 1], np.r_[0, np.sort(c.u(0, 1, 3))] * tend
    kw = beamcase.build(c, n, pl, kf, k1, mu, tend, veh, sta if sta['x'] else None, t, x, c.coin(.3))

    def go(**kw):
        o = sb.SpecBeam(use_analytical=True, force_calc=True, file_stem='none', **kw)
        o.runme()
        o.defl_vs_time_under_loads()
        return o.defl_norm, o.moving_load_w_norm
    return go, (), kw


@reg('models.moving loads')
def _f(c):
    k = c.i(1, 3)
    x, p = c.u(-5, 0, k), c.u(-2, 2, k)
    v = c.u(.5, 3) * c.pick(-1, 1)

    def go(x, p, v, t):
        m = sb.MovingPointLoads(x, p, v=v, L=10., t0=.5, x0=0.)
        return m.axle_positions(t, v, .5, 1.), m.point_loads_on_beam(t), m.convert_to_specbeam(), m.time_axles_pass_beam_point(2.), m.axle_positions(t + 1, v)
    return go, (x, p, v, c.u(0, 5)), {}


@reg('models.infinite beam')
def _f(c):
    k = c.i(0, 4)
    if k == 0:
        return sb.DAFinfinite, (c.u(.1, .8), c.u(.05, .5)), dict(kratio=c.u(.5, 3))
    if k == 1:
        return sb.moving_load_on_beam_on_elastic_foundation, (c.u(.1, .8), c.u(.05, .5)), dict(npts=21)
    if k == 2:
        return sb.point_load_static_defl_shape_function, (c.u(-5, 5, 4), c.u(.5, 2)), dict(xc=c.u(-1, 1))
    if k == 3:
        return sb.multi_static, (c.u(-2, 2, 2), c.u(-1, 1, 2)), dict(n=21)
    return c.pick(sb.tanhtran, sb.tanhtrani), (np.array([.2, .6]), c.u(.5, 2), c.u(.1, .9)), {}




# ---------------------------------------------------------------- mathematics
def f_exp(x, a=1.):
    return np.exp(-a * x)


def f_gauss(x, a=1.):
    return np.exp(-a * x ** 2)


@reg('maths.quadrature')
def _f(c):
    k = c.i(0, 4)
    if k == 0:
        return c.pick(qd.gauss_legendre_abscissae_and_weights, qd.gauss_kronrod_abscissae_and_weights), (c.pick(7, 10, 15, 20),), {}
    if k == 1:
        return qd.shanks, (np.cumsum(c.u(.1, 1, 9) * .5 ** np.arange(9)).tolist(),), dict(ind=c.pick(0, -1, -3))
    if k == 2:
        return qd.shanks_table, (np.cumsum(c.u(.1, 1, 9) * .5 ** np.arange(9)).tolist(),), {}
    a = np.sort(c.u(0, 3, 3))
    return c.pick(qd.gl_quad, qd.gk_quad), (f_exp, a[:-1], a[1:]), dict(args=(c.u(.5, 2),), n=c.pick(7, 10, 15), sum_intervals=c.coin())


def f_roots(x, b):
    return np.cos(b * x) - .1 * x


@reg('maths.roots')
def _f(c):
    if c.coin():
        return rf.find_n_roots, (f_roots,), dict(args=(c.u(1, 3),), n=c.i(1, 3), x0=.01, dx=.05, **c.pick({}, {}, dict(fsolve_kwargs=dict(xtol=1e-10)), dict(rtol=1e-7), dict(atol=1e-10, rtol=1e-3), dict(fsolve_kwargs=dict(xtol=1e-3))))
    return rf.fixed_point_no_accel, (lambda x, a: np.cos(a * x), c.u(.1, .9)), dict(args=(c.u(.3, .9),))


@reg('maths.transforms')
def _f(c):
    k = c.i(0, 6)
    a = c.u(.5, 2)
    if k == 6:
        def gom(t, a, n):
            return np.array(ml.Talbot(lambda p: 1 / (p + a), n=n)(t), dtype=float)
        return gom, (c.pick(c.u(.1, 2), c.u(.1, 2, 3)), a, c.pick(12, 24)), {}
    if k == 0:
        def go(s, a, kw):
            return hk.HankelTransform(f_gauss, args=(a,), **kw)(s)
        return go, (c.u(.3, 3), a, c.pick({}, dict(order=1), dict(m=12, ng=12))), {}
    if k == 1:
        return hk.vhankel_transform, (f_gauss, np.sort(c.u(.3, 3, 3))), dict(args=(a,), m=c.i(8, 20))
    if k == 2:
        return c.pick(fo.cosine_transform, fo.sine_transform), (f_gauss, c.u(.2, 3)), dict(args=(a,))
    if k == 3:
        return fo.vcosine_transform, (f_gauss, np.sort(c.u(.3, 3, 3))), dict(args=(a,), m=c.i(8, 20))
    if k == 4:
        def go(t, a, n):
            return la.Talbot(lambda p: 1 / (p + a), n=n)(t)
        return go, (c.pick(c.u(.1, 2), c.u(.1, 2, 3)), a, c.pick(12, 24)), {}

    def go2(s, a, kw):
        return fo.FourierTransform(f_gauss, args=(a,), func_is_real=True, real_part_even=True, **kw)(s)
    return go2, (c.u(.2, 2), a, c.pick({}, dict(inv=True))), {}


@reg('maths.geometry')
def _f(c):
    n = c.i(3, 6)
    th = np.sort(c.u(0, 6.28, n))
    pts = np.c_[np.cos(th), np.sin(th), np.zeros(n)]
    k = c.i(0, 4)
    if k == 0:
        return c.pick(ge.polygon_area, ge.polygon_centroid, ge.polygon_2nd_moment_of_area), (pts[:, :2] if c.coin() else pts,), {}
    if k == 1:
        return ge.eqn_of_plane, (c.u(-1, 1, (3, 3)),), {}
    if k == 2:
        return ge.xyz_from_pts, (pts.tolist(),), dict(close_polygon=c.coin())
    if k == 3:
        def go(a):
            return ge.polyhedron_volume(ge.make_hexahedron(a))
        q = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], float) * c.u(.5, 2)
        return go, (q,), {}
    return depth_to_reduced_level, (c.u(0, 1, 3),), c.pick({}, dict(H=2., rlzero=c.u(-5, 5)), dict(H=c.u(1, 2)))


# ---------------------------------------------------------------- soil models
@reg('soils.stress')
def _f(c):
    k = c.i(0, 3)
    s = np.sort(c.u(5, 200, 4))

    def go(k, s, p, g):
        if k == 0:
            m = vs.CcCrSoilModel(Cc=p[0], Cr=p[0] / 5, siga=20., ea=2.)
            return m.e_from_stress(s, pstress=60.), m.stress_from_e(np.array([1.2, 1.5]), pstress=60.), m.av_from_stress(s, pstress=60.), m.e_and_stress_for_plotting(pstress=50.), m.e_from_stress(s), m.stress_from_e(1. + p), m.av_from_stress(s)
        if k == 1:
            m = vs.AvSoilModel(av=p[0] / 100, siga=20., ea=2.)
            return m.e_from_stress(s), m.av_from_stress(s), m.stress_from_e(1. + p), m.e_and_stress_for_plotting()
        if k == 2:
            m = vs.PwiseLinearSoilModel(siga=g[0], ea=g[1], Cr=.001, xlog=False, ylog=False)
            return m.e_from_stress(s, pstress=60.), m.av_from_stress(s, pstress=60.), m.e_from_stress(s), m.av_from_stress(s), m.stress_from_e(1.5 + p), m.stress_from_e(1.5 + p, pstress=60.), m.e_and_stress_for_plotting()
        m = vs.YinAndGrahamSoilModel(lam=.2, kap=.04, psi=.01, siga=20., ea=2., ta=1., e0=1.7 + p[0] / 10, estress0=25.)
        return m.e_from_stress(30. + p[0], dt=.5), m.e_from_stress(32. + p[1], dt=2.), m.av_from_stress(33.)
    d = c.pick(1, -1)
    g = [np.array([1., 50., 300.])[::d].copy(), np.array([3., 2., c.u(.3, 1)])[::d].copy()]
    return go, (k, s, c.u(.3, .9, 2), g if c.coin() else [v.tolist() for v in g]), {}


@reg('soils.permeability')
def _f(c):
    k = c.i(0, 2)
    cls_, a = [(vp.CkPermeabilityModel, (c.u(.3, 1), 10., 4.)), (vp.ConstantPermeabilityModel, (c.u(1, 3),)), (vp.PwiseLinearPermeabilityModel, (np.array([1., 2.5]), np.array([5., 3.2])))][k]
    if k == 2:
        a = (np.array([1., 2.5, 4.]), np.array([4., 6., 9.]))

    def go(e, *a):
        m = cls_(*a)
        return m.k_from_e(e), m.e_and_k_for_plotting()
    return go, (c.u(3, 9, 3),) + a, {}


@reg('soils.flow')
def _f(c):
    h = c.coin()
    a = dict(klinear=c.u(1, 3), i0=c.u(.5, 1.5), n=c.u(1.1, 1.5)) if h else dict(k=c.u(1, 3))

    def go(i, a):
        m = (vg.HansboNonDarcianFlowModel if h else vg.DarcyFlowModel)(**a)
        v = m.v_from_i(i)
        return v, m.i_from_v(v), m.dv_di(i), m.v_and_i_for_plotting(), m.vdrain_strain_rate(3., 10.)
    return go, (c.u(.1, 6, 4), a), {}


@reg('soils.retention')
def _f(c):
    fx = c.coin()

    def go(psi, a):
        m = sw.SWCC_FredlundAndXing1994(*a) if fx else sw.SWCC_PhamAndFredlund2008(*a)
        return m.w_from_psi(psi), m.dw_dpsi(psi), m.psi_and_w_for_plotting(npts=5), m.k_from_psi(psi)
    return go, (c.logu(.1, 1e4, 3), (c.u(10, 300), c.u(.8, 3), c.u(.5, 1.5), .5) if fx else (.5, c.logu(10, 1e3), c.u(.8, 2), .1, .03)), {}


@reg('soils.epus')
def _f(c):
    P = [dict(ist=c.coin(), vl=c.logu(1, 1e3), npp=c.i(3, 5), name='s') for _ in range(c.i(1, 2))]
    d = dict(logDS=.5, logRS=1.5, Css=None, Ccs=None, Ccd=0., Gs=2.7, Npoint=c.pick(31, 41), NumSr=15, Pore_shape=c.pick(0., 1.), Assumption=c.pick(1, 2), implementation=c.pick('fortran', 'vectorized'))
    s = (.4, c.logu(10, 300), c.u(1, 2), .05, c.u(.05, .15))

    def go(P, d, s):
        st = ep.StressPath(P)
        a = ep.EPUS(SimpleSWCC=ep.CurveFittingSWCC(*s), stp=st, **d)
        a.Calresults()
        return [(r.ss, r.st, r.e, r.w, r.Sr, r.vw) for r in st.datapoints]
    return go, (P, d, s), {}


# ---------------------------------------------------------------- spectral building blocks
@reg('kernels.space')
def _f(c):
    m = si.m_from_sin_mx(np.arange(c.i(1, 4)), c.i(0, 1))
    a, b = PolyLine(X(c, 1), c.u(.5, 2, 3)), PolyLine(X(c, 2), c.u(.5, 2, 4))
    kw = dict(implementation=c.pick('scalar', 'vectorized', 'fortran'))
    k = c.pick('pdim1sin_af_linear', 'pdim1sin_D_aDf_linear', 'pdim1sin_abf_linear', 'pdim1sin_ab_linear', 'pdim1sin_D_aDb_linear', 'pdim1sin_DD_abDDf_linear')
    if k in ('pdim1sin_af_linear', 'pdim1sin_D_aDf_linear'):
        return getattr(si, k), (m, a), kw
    a, b = pw.polyline_make_x_common(a, b)
    return getattr(si, k), (m, a, b), kw


@reg('kernels.modes')
def _f(c):
    return si.m_from_sin_mx, (c.pick(c.i(0, 5), c.rng.permutation(8)[:c.i(1, 4)]), c.i(0, 1)), {}


@reg('kernels.time')
def _f(c):
    e = c.logu(.1, 100, c.i(1, 3))
    t = np.sort(c.u(0, 3, 4))
    a = PolyLine(steps(c), c.u(-1, 1, 4))
    kw = dict(dT=c.pick(1., .5), implementation=c.pick('scalar', 'vectorized', 'fortran'))
    k = c.pick('pEDload_linear', 'pEload_linear', 'pEDload_coslinear', 'pEload_coslinear', 'pEload_sinlinear')
    return getattr(si, k), ((a, e, t) if k.endswith('d_linear') else (a, c.u(.3, 5), c.u(-1, 1), e, t)), kw


# ---------------------------------------------------------------- input and output
@reg('text.parse')
def _f(c):
    t = 'a = %r\nb = np.array(%r)\nc1 = [b, a]\nd = PolyLine([0, 1], [a, 2])\n' % (c.u(0, 1), c.u(0, 1, 3).tolist())
    t += c.pick('', 'e = __import__("os")\n', 'e = np.linspace(0, 1, 3)*a\n', 'e = open("x")\n', 'np.cos = 3\n', 'e = b.tolist()\n', 'e = zz + 1\n', 'zz = 3\ne = [zz]\n', 'def zz(v):\n    return v\ne = zz(2)\n', 'for e in [4]:\n    zz = e\n', 'e = len([a, 2])\n', 'e = sorted([3, a])\n', 'e = np.cos(a)\n', 'e = math.cos(a)\n')

    class O(object):
        pass

    def go(t, ok, kw):
        o = O()
        io.copy_attributes_from_text_to_object(t, o, ['a', 'b', 'c1', 'd', 'e'], dict(e=[1, 2]), syntax_checker=io.SyntaxChecker(ok), **kw)
        return [o.a, o.b, o.c1, o.d, o.e, '' if not TEXT[0] else io.string_of_object_attributes(o, ['a', 'b', 'd', 'e'])]
    return go, (t, c.pick(['ast', 'builtin', 'numpy', 'PolyLine'], ['ast', 'builtin', 'numpy', 'PolyLine'], ['ast', 'numpy', 'PolyLine'], ['ast', 'builtin'], ['ast', 'PolyLine', 'numpy']), c.pick({}, dict(not_found_value=7))), {}


@reg('text.checks')
def _f(c):
    class O(object):
        pass

    def go(v, n):
        o = O()
        o.a, o.b, o.c = v
        r = [io.check_attribute_is_list(o, ['a', 'b'], force_list=True), o.a, o.b]
        io.force_attribute_same_len_if_none(o, [['a', 'c']], None)
        io.initialize_objects_attributes(o, ['q'], dict(q=[n]))
        return r + [o.c, o.q]
    return go, (c.pick((1, [2], None), ([1, 2], 3, None), ([1], [2], [None])), c.i(0, 9)), {}


@reg('text.helpers')
def _f(c):
    k = c.i(0, 3)
    if k == 0:
        return io.hms_string, (c.u(0, 1e5),), {}
    if k == 1:
        return io.make_array_into_dataframe, (c.u(0, 1, (2, 3)),), c.pick({}, dict(column_labels=['a', 'b', 'c']), dict(row_labels=[1., 2.]))
    if k == 2:
        return io.code_for_explicit_attribute_initialization, (['a', 'b'], dict(a=c.i(0, 9))), {}
    return io.object_members, (math_mod(), c.pick('function', 'routine')), {}


def math_mod():
    import cmath
    return cmath


@reg('soils.functions')
def _f(c):
    def go(a, b, s, e, off):
        m = vs.FunctionSoilModel(lambda a, s, b=0, pstress=None: a - b * np.log(s), lambda a, e, b=0: np.exp((a - e) / b), lambda a, s, b=0: b / s, a, b=b)
        n = vp.FunctionPermeabilityModel(lambda a, b, kk, off=0: (kk / a) ** (1 / b) + off, lambda a, b, e, off=0: a * (e - off) ** b, a, 1 + b, off=off)
        return m.e_from_stress(s), m.av_from_stress(s), m.stress_from_e(e), n.k_from_e(e + off), n.e_from_k(np.array([.5, 2.])), m.e_from_stress(s, pstress=3.)
    return go, (c.u(2, 4), c.u(.2, .6), c.u(10, 90, 3), c.u(.5, 2, 3), c.u(.05, .3)), {}


@reg('soils.relative permeability')
def _f(c):
    if c.coin(.3):
        return sw.karel_air_from_saturation, (c.pick(c.u(0, 1), c.u(0, 1, 3)),), c.pick({}, dict(qfit=c.u(0, 3)))
    n = c.i(5, 40)
    x = np.geomspace(.1, 1e4, n)
    y = np.sort(c.u(.05, .5, n))[::-1].copy()
    return sw.kwrel_from_discrete_swcc, (c.pick(c.u(1, 9000), c.u(1, 9000, 3)), x, y), {}


@reg('text.combinations')
def _f(c):
    class O(object):
        pass

    def go(v, k, nf):
        o = O()
        o.a, o.b, o.c, o.d = v
        if k == 0:
            return io.check_attribute_combinations(o, zero_or_all=[['a', 'b']], at_least_one=[['a', 'c']], one_implies_others=[['d', 'a']])
        if k == 1:
            return io.check_attribute_pairs_have_equal_length(o, attributes=[['c', 'd']])
        if k == 2:
            o.a, o.b = PolyLine([0, 1.], [1, 2.]), PolyLine([0, float(nf)], [1, 2.])
            return io.check_attribute_PolyLines_have_same_x_limits(o, attributes=[['a', 'b']])
        q = O()
        io.copy_attributes_between_objects(o, q, ['a', 'b', 'zz'], dict(zz=[1, 2]), nf)
        r = q.zz, q.a, q.b
        q.zz.append(nf)
        return r
    return go, ([c.pick(None, 1, [2], [3, c.i(0, 9)]) for _ in range(4)], c.i(0, 3), c.i(1, 2)), {}


@reg('files.grid')
def _f(c):
    def go(d, stem, cd, ext, again):
        import tempfile, shutil
        D = tempfile.mkdtemp()
        try:
            r = []
            for _ in range(again):
                s = io.next_output_stem(stem, path=D)
                io.save_grid_data_to_file(d, directory=D, file_stem=s, create_directory=cd, ext=ext)
                r.append(s)
            for p, q, f in sorted(os.walk(D)):
                r.append([os.path.relpath(p, D), sorted(f), [open(os.path.join(p, n)).read() for n in sorted(f)]])
            return r
        finally:
            shutil.rmtree(D)
    d = dict(data=c.u(0, 1, (2, 3)), **c.pick({}, dict(column_labels=['a', 'b', 'c']), dict(row_labels=[1., 2.], row_labels_label='Time'), dict(header='h: 1'), dict(df_kwargs=dict(sep=';'))))
    return go, (c.pick(d, [dict(d, name='_1'), dict(d, name='_2')]), c.pick('out_', 'q'), c.coin(.7), c.pick('.csv', '.txt'), c.i(1, 2)), {}


@reg('files.folder')
def _f(c):
    def go(names, bad):
        import tempfile, shutil
        D = tempfile.mkdtemp()
        try:
            for n in names:
                open(os.path.join(D, n), 'w').close()
            with io.working_directory(D):
                r = [os.path.relpath(p, D) for p in sorted(io.get_filepaths(os.path.join(D, '*.py')))], sorted(os.listdir('.'))
                if bad:
                    raise KeyError('in the folder')
            return r
        finally:
            shutil.rmtree(D)
    return go, ([c.pick('a.py', 'b.py', 'c.txt', 'd_e.py') for _ in range(3)], c.coin(.3)), {}


def numbers_of(path):
    r = []
    for w in open(path).read().split('\n', 1)[1].replace('\n', ',').split(','):
        try:
            r.append(float(w))
        except ValueError:
            r.append(w)
    return r


@reg('files.analysis')
def _f(c):
    p = specm.case(c, 'vr', 2)
    p['impl'] = 'vectorized'
    t = specm.text(p, c)

    def go(t):
        import tempfile, shutil
        D = tempfile.mkdtemp()
        try:
            o = specm.cls('vr')(t + '\nsave_data_to_file = True\ndirectory = %r\noverwrite = True\nprefix = "r_"\n' % D)
            o.make_all()
            return [[os.path.relpath(p, D), sorted(f), [numbers_of(os.path.join(p, n)) if n.endswith('.csv') else '' for n in sorted(f)]] for p, q, f in sorted(os.walk(D))]
        finally:
            shutil.rmtree(D)
    return go, (t,), {}


@reg('code.text')
def _f(c):
    import sympy
    x, y, z = sympy.symbols('x y z')
    k = c.i(0, 2)
    n = c.i(1, 5)
    if k == 0:
        return (lambda n: ge.integrate_f_over_polygon_code(n * x + x * y ** 2)), (n,), {}
    if k == 1:
        return (lambda n, kw: io.fcode_one_large_expr(sum(sympy.sin(j * x) / (y + j) for j in range(1, 9 * n)), **kw)), (n, c.pick({}, dict(prepend='p(i) = '), dict(source_format='free'))), {}
    import geotecha.speccon.integrals_generate_code as gc
    return (lambda s: getattr(gc, s + '_implementations')()), (c.pick('Eload_linear', 'EDload_linear', 'dim1sin_ab_linear', 'dim1sin_D_aDb_linear'),), {}


# ---------------------------------------------------------------- plots
@reg('plots.lines', plot=True)
def _f(c):
    n = c.i(1, 3)
    t, y = np.sort(c.u(.1, 3, 4)), c.u(0, 1, (4, n))
    pd = c.pick(None, {}, dict(xlabel='x', has_legend=False), dict(styles=[dict(color='r')] * n), dict(fig_prop=dict(figsize=(4, 3))), dict(legend_prop=dict(title='L')))
    kw = {} if pd is None else dict(prop_dict=pd)
    if c.coin(.6):
        kw['line_labels'] = ['l%d' % i for i in range(n)]
    if c.coin():
        return od.plot_vs_time, (t, y), kw
    return od.plot_vs_depth, (y, t), dict(kw, **c.pick({}, dict(H=2., RLzero=5.)))


@reg('plots.loads', plot=True)
def _f(c):
    p = PolyLine([0, 0, 1.], [0, c.u(1, 5), 3.])
    q = PolyLine([0, 1.], [1., c.u(.5, 1)])
    return od.plot_generic_loads, ([[(p, q, None)], [(p, q, c.pick(None, (1., .5)))]], ['a', 'b']), c.pick({}, dict(H=2., RLzero=1.), dict(prop_dict=dict(fig_prop=dict(figsize=(5, 4)))))


@reg('plots.materials', plot=True)
def _f(c):
    return od.plot_single_material_vs_depth, ([PolyLine([0, 1.], c.u(0, 1, 2))] * 2, ['a', 'b']), c.pick({}, dict(H=2., RLzero=1.), dict(prop_dict=dict(styles=[dict(color='r')])))


@reg('plots.styles', plot=True)
def _f(c):
    def go(kw, n):
        m = od.MarkersDashesColors(**kw)
        m.construct_styles(markers=list(range(n)), dashes=[0], marker_colors=[0, 1], line_colors=[0])
        return m.styles, m.markers, m.colors
    return go, (c.pick({}, dict(markersize=c.u(3, 8)), dict(color=(1., 0, 0))), c.i(1, 4)), {}


@reg('plots.small')
def _f(c):
    k = c.i(0, 3)
    if k == 0:
        return c.pick(od.rgb_shade, od.rgb_tint), ((.1, .5, c.u(0, 1)),), dict(factor=c.u(0, 1))
    if k == 1:
        return od.copy_dict, (dict(a=[1, 2], b=3), dict(b=c.i(0, 9), c=[4])), {}
    if k == 2:
        return od.row_major_order_reverse_map, ((c.i(1, 3), c.i(1, 3)),), dict(transpose=c.coin())
    return od.split_sequence_into_dict_and_nondicts, (1, dict(a=2), [3], dict(b=c.i(0, 9))), {}


@reg('plots.analysis', plot=True)
def _f(c):
    p = specm.case(c, 'vr', 2)
    p['impl'] = 'vectorized'
    t = specm.text(p, c)

    def go(t):
        o = specm.cls('vr')(t)
        o.make_all()
        o.produce_plots()
        return o._figures
    return go, (t,), {}


# ---------------------------------------------------------------- objects and their methods
OBJ = {}


def obj(f):
    OBJ[f.__name__.strip('_').replace('_', ' ')] = f
    return f


@obj
def _void_ratio_stress(c):
    d = c.pick(1, -1)
    sg, ea = np.array([1., 50., 300.])[::d].copy(), np.array([3., 2., c.u(.3, 1)])[::d].copy()
    cc, k = c.u(.3, .9), c.i(0, 2)
    xl, yl = c.coin(), c.coin()
    mk = lambda: (vs.CcCrSoilModel(cc, cc / 6, 20., 2.) if k == 0 else vs.AvSoilModel(cc / 100, 20., 2.) if k == 1 else vs.PwiseLinearSoilModel(sg.copy(), ea.copy(), .001, xlog=xl, ylog=yl))

    def one():
        s = c.pick(c.u(5, 200), np.sort(c.u(5, 200, 3)), c.u(5, 200, 3))
        kw = {} if k == 1 else c.pick({}, dict(pstress=c.u(20, 250)), dict(pstress=c.u(20, 250)))
        return c.pick(('e_from_stress', (s,), kw), ('av_from_stress', (s,), kw), ('stress_from_e', (c.pick(c.u(1.1, 2.5), c.u(1.1, 2.5, 2)),), kw), ('e_and_stress_for_plotting', (), {}))
    return mk, one


@obj
def _permeability(c):
    k = c.i(0, 2)
    a = [(c.u(.3, 1), 10., 4.), (c.u(1, 3),), (np.array([1., 2.5, 4.]), np.array([4., 6., 9.]))][k]
    mk = lambda: (vp.CkPermeabilityModel, vp.ConstantPermeabilityModel, vp.PwiseLinearPermeabilityModel)[k](*a)

    def one():
        e = c.pick(c.u(4, 9), c.u(4, 9, 3))
        return c.pick(('k_from_e', (e,), {}), ('k_from_e', (e,), {}), ('e_and_k_for_plotting', (), {}) if k == 0 else ('k_from_e', (5.,), {}), ('e_from_k', (c.u(1, 4),), {}) if k != 1 else ('k_from_e', (e,), {}))
    return mk, one


@obj
def _flow(c):
    h, z = c.pick(0, 1, 2), c.u(1, 3)
    mk = lambda: (vg.DarcyFlowModel(k=z) if h == 0 else vg.HansboNonDarcianFlowModel(klinear=z, i0=.7, n=1.3) if h == 1 else vg.HansboNonDarcianFlowModel(kstar=z, n=1.4, iL=2.))

    def one():
        i = c.pick(c.u(-6, 6), c.u(.1, 6, 3), c.u(-6, 6, 3))
        return c.pick(('v_from_i', (i,), {}), ('i_from_v', (i,), {}), ('dv_di', (i,), {}), ('vdrain_strain_rate', (c.u(1, 4), c.u(1, 20)), {}), ('v_and_i_for_plotting', (), {}))
    return mk, one


@obj
def _retention(c):
    fx, a = c.coin(), (c.u(10, 300), c.u(.8, 3), c.u(.5, 1.5), .5)
    mk = lambda: sw.SWCC_FredlundAndXing1994(*a) if fx else sw.SWCC_PhamAndFredlund2008(.5, a[0], a[1], .1, .03)

    def one():
        p = c.pick(c.logu(.1, 1e4), c.logu(.1, 1e4, 3))
        return c.pick(('w_from_psi', (p,), {}), ('dw_dpsi', (p,), {}), ('k_from_psi', (p,), {}), ('psi_and_w_for_plotting', (), dict(npts=c.i(3, 6))))
    return mk, one


@obj
def _large_strain(c):
    a, nt = (c.u(8, 12), 40., 5., 1., 1e-9, 2e-3, c.u(1.5, 2), 2.7), c.i(5, 30)
    drn = c.i(0, 1)
    mk = lambda: xl.XieAndLeo2004(*a, nterms=nt, drn=drn)

    def one():
        d = c.pick('_PTIB', '_PTPB')
        A, T = np.sort(c.u(0, 5, 3)), np.sort(c.logu(1e4, 1e9, 2))
        n = c.pick('u', 'settlement', 'effective_stress', 'total_stress', 'total_pore_pressure', 'e', 'vs', 'vw', 'xi', 'Us', 'e0', 'efinal', 'tf')
        if n in ('Us',):
            return n + d, (T,), {}
        if n == 'tf':
            return 't_from_Us' + d, (c.u(.1, .8),), {}
        if n in ('e0', 'efinal'):
            return n, (A,), {}
        return n + d, (A, T), {}
    return mk, one


@obj
def _hankel(c):
    a, o, m = c.u(.5, 2), c.i(0, 2), c.i(6, 16)
    mk = lambda: hk.HankelTransform(f_gauss, args=(a,), order=o, m=m)
    return mk, lambda: ('__call__', (c.u(.3, 3),), c.pick({}, dict(inv=True)) if False else {})


@obj
def _fourier(c):
    a, kw = c.u(.5, 2), {}
    mk = lambda: fo.FourierTransform(f_gauss, args=(a,), func_is_real=True, real_part_even=True, **kw)
    return mk, lambda: ('__call__', (c.u(.2, 2),), {})


@obj
def _laplace(c):
    a, n = c.u(.5, 2), c.pick(12, 24)
    mk = lambda: la.Talbot(lambda p: 1 / (p + a), n=n, vectorized=False)
    return mk, lambda: ('__call__', (c.pick(c.u(.1, 2), c.u(.1, 2, 3)),), {})


@obj
def _polyline(c):
    x, y = np.r_[0, np.sort(c.u(0, 1, 2)), 1], c.u(-1, 1, 4)
    mk = lambda: PolyLine(x.copy(), y.copy())

    def one():
        q = PolyLine(X(c, 2), c.u(-1, 1, 4))
        return c.pick(('__add__', (c.pick(q, 2.),), {}), ('__mul__', (c.u(.5, 2),), {}), ('__sub__', (c.pick(q, 2.),), {}), ('__rsub__', (1.,), {}), ('__truediv__', (c.u(.5, 2),), {}), ('__str__', (), {}), ('__eq__', (q,), {}))
    return mk, one


@obj
def _moving_loads(c):
    k = c.i(1, 3)
    x, p, v, L = c.u(-5, 0, k), c.u(-2, 2, k), c.u(.5, 3) * c.pick(-1, 1), 10.
    mk = lambda: sb.MovingPointLoads(x.copy(), p.copy(), v=v, L=L, t0=.5, x0=0.)

    def one():
        t = c.u(.5, 6)
        return c.pick(('axle_positions', (t, v, .5, 1.), {}), ('axle_positions', (t, c.u(-2, 2)), {}), ('point_loads_on_beam', (t,), {}), ('convert_to_specbeam', (), {}), ('convert_to_specbeam', (), dict(v=c.u(.5, 2))),
                      ('time_axles_pass_beam_point', (c.u(0, L),), {}), ('time_axles_pass_point', (c.u(0, L), v), {}))
    return mk, one


@obj
def _syntax_checker(c):
    import ast
    al = c.pick(['ast', 'builtin', 'numpy', 'PolyLine'], ['ast', 'builtin'], ['ast'])

    class K(io.SyntaxChecker):
        def verdict(self, t):
            self.visit(ast.parse(t))
            return 'accepted'
    mk = lambda: K(al)
    return mk, lambda: ('verdict', (c.pick('a = np.cos(1)', 'a = len([1])', 'a = open(1)', 'import os', 'a = 1', 'a = PolyLine([0, 1], [1, 2])', 'a = (1).real', 'a = f', 'np.cos = 2', 'class A: pass', 'a = [v for v in [1]]', 'a = foo.bar'),), {})


NAMES = sorted(REG)


def make(name, seed):
    return REG[name](G([seed, sum(map(ord, name))]))


# ---------------------------------------------------------------- comparable data
def canon(v, depth=0):
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return v
    if isinstance(v, (float, complex, np.generic)):
        return ('n', complex(v)) if not isinstance(v, (np.str_, np.bytes_)) else str(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('a', v.shape, [canon(a, depth + 1) for a in v.ravel()])
        return ('f', v.shape, str(v.dtype), np.array(v))
    if isinstance(v, PolyLine):
        return ('poly', np.array(v.x, float), np.array(v.y, float))
    if isinstance(v, BaseException):
        return ('exc', type(v).__name__)
    if isinstance(v, dict):
        return ('d', [(str(k), canon(a, depth + 1)) for k, a in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [canon(a, depth + 1) for a in v])
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, types.ModuleType)):
        return ('name', getattr(v, '__name__', '?'))
    if isinstance(v, matplotlib.figure.Figure):
        return ('fig', v.get_label(), [float(a) for a in v.get_size_inches()],
                [(a.get_xlabel(), a.get_ylabel(), a.get_xscale(), [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_label()) for l in a.get_lines()],
                  None if a.get_legend() is None else (a.get_legend().get_title().get_text(), [t.get_text() for t in a.get_legend().get_texts()])) for a in v.axes])
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(str, v)))
    if hasattr(v, 'values') and hasattr(v, 'columns'):
        return ('df', [str(q) for q in v.columns], [str(q) for q in v.index], canon(v.values))
    if hasattr(v, '__next__'):
        return ('it', [canon(a, depth + 1) for a in v])
    if depth > 6 or not hasattr(v, '__dict__'):
        return ('o', type(v).__name__)
    return ('obj', type(v).__name__, [(k, canon(a, depth + 1)) for k, a in sorted(vars(v).items())])


def same(a, b, tol=0.):
    """equal data; numbers to tol*max|.| (0: identical bits or both nan)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q, tol) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind not in 'fc':
            return bool(np.all(a == b))
        with np.errstate(all='ignore'):
            if tol == 0:
                return bool(np.array_equal(a, b, equal_nan=True))
            n = np.isnan(a)
            if not np.array_equal(n, np.isnan(b)):
                return False
            i = np.isinf(a) | np.isinf(b)
            if not np.array_equal(a[i], b[i]):
                return False
            k = ~n & ~i
            return not k.any() or bool(np.max(np.abs(a[k] - b[k])) <= tol * max(np.max(np.abs(b[k])), 1e-300))
    if isinstance(a, complex):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= tol * max(abs(a), abs(b))
    return a == b


def run(fn, a, k, after=None):
    """result or exception, as comparable data; and the raw result; after() is
    called before warning filters are put back"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if after is not None:
            before = after()
        try:
            r = fn(*a, **k)
        except Exception as e:
            r = None
            d = canon(e)
        else:
            d = canon(r)
        if after is not None:
            return d, r, before, after()
        return d, r


def serve():
    out = os.fdopen(os.dup(1), 'wb')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, 'w')
    np.seterr(all='ignore')
    inp = sys.stdin.buffer
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        name, seed = pickle.loads(inp.read(struct.unpack('>Q', h)[0]))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                import resource              # a call that never ends must not outlive its check
                resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                fn, a, k = make(name, seed)
                d = pickle.dumps(run(fn, a, k)[0])
            except BaseException as e:
                d = pickle.dumps(('ref failed', repr(e)[:300]))
            with os.fdopen(w, 'wb') as f:
                f.write(d)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            d = f.read()
        os.waitpid(pid, 0)
        d = d or pickle.dumps(('ref failed', 'no answer within 60 s of CPU time'))
        out.write(struct.pack('>Q', len(d)) + d)
        out.flush()


if __name__ == '__main__':
    serve()
