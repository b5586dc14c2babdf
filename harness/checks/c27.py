"""C27 code generator of the spectral kernels: what it writes is run."""
import math, os, sys, subprocess, sysconfig, importlib.util, tempfile, shutil
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group, SCRATCH
import sref
from sref import PL
import geotecha.speccon
import geotecha.speccon.integrals_generate_code as gc
import geotecha.piecewise.piecewise_linear_1d as pw
from checks import c06, c07

RULE = ('Every generator is called; the Python and Fortran source it returns is compiled; the scalar, vectorised and Fortran'
        ' forms are run on random layerings, functions, eigenvalues and load histories and compared with Gauss-Legendre'
        ' quadrature (depth) or exact convolution (time) of the documented integrand.')
ASSUMPTIONS = ['Generated source is placed in a module with np, math, MUST_TRY_FORTRAN and the segment functions of'
               ' piecewise_linear_1d, as in speccon/integrals.py; the Fortran is preceded by its "types" module.',
               'Load values differ by more than a few 1e-7 of their size or are equal (tolerance of the Fortran kernels).']
IMPL = ('scalar', 'vectorized', 'fortran')
TIME = ('Eload_linear', 'EDload_linear', 'Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear')
GEN = ['dim1sin_DD_abDDf_linear', 'dim1sin_abf_linear', 'Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear', 'dim1sin_af_linear', 'dim1sin_D_aDf_linear',
       'dim1sin_abc_linear', 'Eload_linear', 'dim1sin_ab_linear', 'dim1sin_D_aDb_linear', 'EDload_linear']
TYPES = '''      MODULE types
        IMPLICIT NONE
        INTEGER, PARAMETER :: DP = KIND(0.0D0)
      END MODULE

'''


def namespace():
    ns = {k: getattr(pw, k) for k in dir(pw) if k.startswith('seg')}
    ns.update(np=np, math=math, MUST_TRY_FORTRAN=True)
    return ns


def compile_fortran(src, name):
    d = tempfile.mkdtemp(prefix='gen', dir=SCRATCH)
    mod = 'gen_%s_%d' % (name.lower(), os.getpid())
    f = os.path.join(d, mod + '.f95')
    with open(f, 'w') as h:
        h.write(TYPES + src + '\n')
    import numpy.f2py
    f2 = os.path.join(os.path.dirname(numpy.f2py.__file__), 'src')
    inc = ['-I' + np.get_include(), '-I' + f2, '-I' + sysconfig.get_paths()['include']]

    def run(cmd):
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError(' '.join(cmd[:4]) + ': ' + p.stdout.decode(errors='replace')[-1200:])
    run([sys.executable, '-m', 'numpy.f2py', '--lower', '-m', mod, f])
    run(['gfortran', '-fPIC', '-O1', '-fcheck=bounds', '-c', f, '-o', 'f.o'])
    objs = ['f.o']
    for w in sorted(os.listdir(d)):
        if 'f2pywrappers' in w:
            run(['gfortran', '-fPIC', '-O1', '-c', w, '-o', w + '.o'])
            objs.append(w + '.o')
    for s, o in ((mod + 'module.c', 'm.o'), (os.path.join(f2, 'fortranobject.c'), 'fo.o')):
        run(['gcc', '-O1', '-w', '-fPIC'] + inc + ['-c', s, '-o', o])
    so = os.path.join(d, mod + sysconfig.get_config_var('EXT_SUFFIX'))
    run(['gfortran', '-shared', '-o', so] + objs + ['m.o', 'fo.o'])
    spec = importlib.util.spec_from_file_location(mod, so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    shutil.rmtree(d)
    return m


class Using(object):
    """the generated Python finds the generated Fortran"""

    def __init__(self, ext):
        self.ext, self.full = ext, 'geotecha.speccon.ext_integrals'

    def __enter__(self):
        self.old = sys.modules[self.full]
        sys.modules[self.full] = geotecha.speccon.ext_integrals = self.ext

    def __exit__(self, *a):
        sys.modules[self.full] = geotecha.speccon.ext_integrals = self.old


def depth_case(c, name):
    m, bc = c06.eigs(c, c.pick(1, 2, 3, 5, 8))
    z = sref.layers(c, minh=.02)
    a, b, d = [sref.prof(c, z, neg=True) for _ in range(3)]
    if name == 'dim1sin_af_linear':
        w, p = sref.mat(m, [a]), (a,)
    elif name == 'dim1sin_abf_linear':
        w, p = sref.mat(m, [a, b]), (a, b)
    elif name == 'dim1sin_D_aDf_linear':
        w, p = -sref.mat(m, [a], 1, 1), (a,)
    elif name == 'dim1sin_DD_abDDf_linear':
        w, p = sref.mat(m, [a, b], 2, 2), (a, b)
    elif name == 'dim1sin_ab_linear':
        w, p = sref.vec(m, [a, b]), (a, b)
    elif name == 'dim1sin_abc_linear':
        w, p = sref.vec(m, [a, b, d]), (a, b, d)
    else:
        y0, y1 = c.u(-3, 3), c.u(-3, 3)
        lin = PL([(p, q, y0 + (y1 - y0) * p, y0 + (y1 - y0) * q) for p, q in zip(z[:-1], z[1:])])
        w, p = (y1 - y0) * (np.sin(m) * a.val(1.0) - sref.vec(m, [a], 1)), (a, lin)
    c.note(name=name, m=m, args=c06.args(*p))
    return [m] + [np.array(v) for v in c06.args(*p)], w, dict(rtol=0, atol=(1e-5 if 'DD' in name else 1e-6) * max(abs(w).max(), 1e-2))


def time_case(c, name):
    x, y, lam, dT, t = c07.kernel(c)
    om = (c.pick(c.u(-4, 4), c.logu(.1, 60)), c.u(-4, 4))
    r, L = c07.ref(x, y), lam * dT
    a = om if 'coslin' in name or 'sinlin' in name else ()
    if name == 'Eload_sinlinear':
        w = sref.convsin(r, L, t, om)
    elif name[1] == 'D':
        w = sref.convD(r, L, t, om if a else None, start=r.start)
    else:
        w = sref.conv(r, L, t, om if a else None)
    c.note(name=name, x=x, y=y, lam=lam, dT=dT, t=t, om=a)
    ym = max(abs(v) for v in y)
    return [np.array(x), np.array(y)] + list(a) + [lam, t, dT], w, dict(rtol=1e-6, atol=1e-6 * ym * (1 + (abs(om[0]) if a else 0)))


def one(c, name, f, im, tag):
    args, w, tol = (time_case if name in TIME else depth_case)(c, name)
    A = c.call('%s %s %s' % (tag, name, im), f, *args, implementation=im)
    c.close('%s %s %s' % (tag, name, im), np.real(A), w, **tol)
    if name in TIME:
        c.close('no imaginary part', np.imag(A), 0 * w, rtol=0, atol=tol['atol'])


@group('generated', quick=len(GEN), thorough=3 * len(GEN), cpu=300)
def generated(c):
    name = GEN[c.idx % len(GEN)]
    c.note(name=name)
    py, ft = c.call('generate ' + name, getattr(gc, name + '_implementations'))
    ns = namespace()
    try:
        exec(compile(py, 'generated ' + name, 'exec'), ns)
    except SyntaxError as e:
        c.fail('the Python compiles', e)
        return
    if not c.true('the Python defines the kernel', callable(ns.get(name))):
        return
    try:
        ext = compile_fortran(ft, name)
    except RuntimeError as e:
        c.fail('the Fortran compiles', e)
        return
    c.true('the Fortran has the kernel', hasattr(ext, name.lower()))
    with Using(ext):
        for k in range(300 if c.thorough else 60):
            one(c, name, ns[name], IMPL[k % 3], 'generated')


@group('between', quick=2, thorough=4, cpu=120)
def between(c):
    k = c.idx % 2
    name, fun = (('dim1sin_a_linear_between', 'dim1sin_a_linear_between'), ('dim1_ab_linear_between', 'integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between'))[k]
    py = c.call('generate ' + name, getattr(gc, name))
    ns = namespace()
    try:
        exec(compile(py, 'generated ' + name, 'exec'), ns)
    except SyntaxError as e:
        c.fail('the Python compiles', e)
        return
    if not c.true('the Python defines the kernel', callable(ns.get(fun))):
        return
    f = ns[fun]
    for _ in range(40 if c.thorough else 20):
        z = sref.layers(c, minh=.02)
        a, b = sref.prof(c, z, neg=True), sref.prof(c, z, neg=True)
        pairs = [sorted([c.pick(float(c.pick(*z)), c.u(0, 1)), c.u(0, 1)]) for _ in range(c.i(1, 4))]
        c.note(name=name, layers=len(z) - 1, pairs=pairs)
        if k == 0:
            m, bc = c06.eigs(c, c.pick(1, 2, 5))
            want = np.array([sref.vec(m, [a], lo=p, hi=q) for p, q in pairs])
            got = c.call(name, f, m, *c06.args(a), pairs)
        else:
            xa, xb = a.x4(), b.x4()
            want = np.array([sref.scal([a, b], p, q) for p, q in pairs])
            got = c.call(name, f, *[np.array(v) for v in list(xa) + list(xb)], [p for p, q in pairs], [q for p, q in pairs])
        c.close('generated ' + name, got, want, rtol=0, atol=1e-8 * (1 + abs(want).max()))


@group('wrapping', quick=60, thorough=1000)
def wrapping(c):
    """tw: wrapped expression keeps its meaning, width and indentation"""
    import re
    n = c.i(1, 60)
    s = ' + '.join('%s%d*x**%d' % (c.pick('a', 'bb', 'long_name_'), c.i(0, 99), c.i(0, 9)) for _ in range(n))
    w, ind = c.i(40, 120), c.i(0, 5)
    c.note(s=s, w=w, ind=ind)
    kw = {}
    if w != 100 or c.coin():
        kw['width'] = w
    else:
        w = 100
    if ind != 3 or c.coin():
        kw['indents'] = ind
    r = c.call('tw', gc.tw, s, **kw)
    lines = r.split(os.linesep)
    c.true('same tokens', ' '.join(r.split()) == s, r)
    c.true('width', all(len(l) <= w for l in lines), r)
    c.true('indented', lines[0][0] != ' ' and all(len(l) - len(l.lstrip()) == 4 * ind for l in lines[1:]), r)


@group('fortran text', quick=60, thorough=1000)
def fortran_text(c):
    """fcode_one_large_expr: the printed expression has the value of the original"""
    import re, sympy
    from geotecha.inputoutput.inputoutput import fcode_one_large_expr
    names = ['x', 'y', 'zt', 'mebot']
    sy = sympy.symbols(names)
    ib = [sympy.IndexedBase(n) for n in ('a', 'at')]
    i, j = sympy.symbols('i j', integer=True)
    atoms = list(sy) + [b[k] for b in ib for k in (i, j)]

    def e(d):
        if d == 0 or c.coin(.15):
            return c.pick(*atoms, sympy.Integer(c.i(1, 9)), sympy.Rational(c.i(1, 9), c.i(2, 9)))
        k = c.i(0, 8)
        a, b = e(d - 1), e(d - 1)
        return [lambda: a + b, lambda: a - b, lambda: a * b, lambda: a / b, lambda: a ** c.pick(2, 3, -1, -2), lambda: sympy.sin(a), lambda: sympy.cos(a - b), lambda: sympy.exp(-a / 50), lambda: -a][k]()
    ex = e(c.i(1, 5))
    while ex.has(sympy.nan, sympy.zoo, sympy.oo, sympy.I) or any(not g.free_symbols for g in ex.atoms(sympy.Function)):
        # (sympy itself prints functions of numbers as unprotected signed numbers)
        ex = e(c.i(1, 3))
    pre = c.pick(None, None, 'p(i, j) = p(i, j) + ')
    form = c.pick(None, 'fixed', 'free')
    c.note(ex=str(ex)[:300], pre=pre, form=form)
    kw = {} if form is None else dict(source_format=form)
    t = c.call('fcode_one_large_expr', fcode_one_large_expr, ex, *([pre] if pre else []), **kw)
    if form != 'free':
        for l in t.split('\n'):
            c.true('fixed form columns', l.startswith('      ') and len(l) <= 74, l)
    s = re.sub(r'&?\s*\n\s*', '', t).strip()
    if pre:
        p = re.sub(r'\s', '', pre)
        s = re.sub(r'\s', '', s)
        if not c.true('text in front', s.startswith(p), s[:60]):
            return
        s = s[len(p):]
    val = {n: c.u(.5, 2) for n in names}
    arr = {n: {1: c.u(.5, 2), 2: c.u(.5, 2)} for n in ('a', 'at')}
    env = dict(val, i=1, j=2, sin=math.sin, cos=math.cos, exp=math.exp, a=lambda k: arr['a'][k], at=lambda k: arr['at'][k], sqrt=math.sqrt)
    py = re.sub(r'(\d(?:\.\d*)?)d([+-]?\d+)', r'\1e\2', s.replace(' ', ''))
    want = ex
    sub = {sympy.Symbol(n): v for n, v in val.items()}
    sub.update({b[k]: arr[str(b)][m] for b in ib for k, m in ((i, 1), (j, 2))})
    want = complex(sympy.sympify(ex).xreplace(sub))
    try:
        got = eval(py, {}, env)
    except ZeroDivisionError:
        return
    except Exception as x:
        c.fail('the text is an expression', '%r: %s' % (x, py[:300]))
        return
    if np.isfinite(want) and abs(want) < 1e12:
        c.close('value of the printed expression', got, want.real, rtol=1e-7, atol=1e-9 * (1 + abs(want)))
