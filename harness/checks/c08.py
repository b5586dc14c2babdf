"""C08: the compiled routines under AddressSanitizer/UBSan, run-time bounds
checks, valgrind (thorough) and memory-fill/ordering differentials, on calls
recorded from the Python layer working on generated problems."""
import os, sys, pickle, subprocess, re
import numpy as np
import fbuild
fbuild.inject('plain')
import vh
from vh import group, GROUPS, Ctx, CaseAbort
import checks.c06, checks.c07, checks.c22
from geotecha.speccon import ext_integrals as EXT
from geotecha.constitutive_models import epus as E, epus_ext
import geotecha.speccon.integrals as it
import memdrv
import specm

MEM = 0          # the sanitizer reserves a large address range
RULE = ('Calls of the compiled routines are recorded while the Python layer works on generated layerings, loads, eigenvalues,'
        ' whole spectral analyses and elasto-plastic soils and stress paths (the workloads of C01-C07 and C22), then replayed in separate'
        ' processes: address+undefined sanitizer with two different fills of fresh memory, bounds-checked build, plain'
        ' build in shuffled order with repeats, and (thorough) valgrind.')
ASSUMPTIONS = ['The replayed build differs from the shipped one only in flags (same source, same wrapper generator).',
               'Sanitizers see heap and stack accesses outside live objects; a stray access that lands inside another live array is seen only by'
               ' the bounds-checked build.']
SRC = dict((g, d) for g, d in GROUPS.items())
LOG = []
NAMES = [n for n in dir(EXT) if callable(getattr(EXT, n)) and not n.startswith('_')]


def wrap(name, f):
    def g(*a, **k):
        LOG.append((name, tuple(np.array(x) if isinstance(x, (list, np.ndarray)) else x for x in a),
                    {q: (np.array(x) if isinstance(x, (list, np.ndarray)) else x) for q, x in k.items()}))
        r = f(*a, **k)
        LOG[-1] = LOG[-1] + ([np.array(x) for x in (r if isinstance(r, tuple) else (r,))],)
        return r
    return g


class _Rec(object):
    """install recorders for the duration of a workload"""

    def __enter__(self):
        del LOG[:]
        self.old = {n: getattr(EXT, n) for n in NAMES}
        for n in NAMES:
            setattr(EXT, n, wrap(n, self.old[n]))
        self.ep = E.EPUS._calres = E.EPUS._Calresults_fortran
        ep = self.ep

        def rec(s):
            ep(s)
            m = epus_ext.epus
            LOG.append(('epus', {k: np.array(getattr(m, k)) for k in memdrv.EP_IN}, {},
                        [np.array(getattr(m, k)) for k in memdrv.EP_OUT]))
        E.EPUS._Calresults_fortran = rec
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(EXT, n, f)
        E.EPUS._Calresults_fortran = self.ep


def edge_calls(c):
    """smallest and lopsided shapes that the Python layer accepts"""
    for t in range(10):
        n, nl = c.pick(1, 1, 2, 17), c.pick(1, 1, 2, 6)
        big = t - 7 # sizes that no fixed work array would hold: layers, modes, loads and times
        if big == 0:
            nl = int(c.logu(30, 700))
        if big == 1:
            n = int(c.logu(30, 200))
        z = np.concatenate(([0], np.sort(c.u(0.02, .98, nl - 1)), [1])) if nl > 1 else np.array([0., 1.])
        if nl > 1 and np.diff(z).min() < min(.01, .1 / nl):
            z = np.linspace(0, 1, nl + 1)
        f = lambda: list(c.u(.2, 3, nl))
        m = np.array([it.m_from_sin_mx(i, c.i(0, 1)) for i in range(n)])
        m = np.sort(m) + np.arange(n) * 1e-3
        zt, zb = list(z[:-1]), list(z[1:])
        it.dim1sin_af_linear(m, f(), f(), zt, zb, implementation='fortran')
        it.dim1sin_abf_linear(m, f(), f(), f(), f(), zt, zb, implementation='fortran')
        it.dim1sin_D_aDf_linear(m, f(), f(), zt, zb, implementation='fortran')
        it.dim1sin_ab_linear(m, f(), f(), f(), f(), zt, zb, implementation='fortran')
        it.dim1sin_abc_linear(m, f(), f(), f(), f(), f(), f(), zt, zb, implementation='fortran')
        it.dim1sin_D_aDb_linear(m, f(), f(), f(), f(), zt, zb, implementation='fortran')
        it.dim1sin_DD_abDDf_linear(m, f(), f(), f(), f(), zt, zb, implementation='fortran')
        k = c.pick(1, 2, 2, 3, 7)
        nt = c.pick(1, 1, 2, 30)
        if big == 2:
            k, nt = int(c.logu(30, 700)), int(c.logu(30, 700))
        tim = np.sort(np.round(c.u(0, 4, k), c.pick(0, 3)))
        mag = c.u(-2, 2, k)
        tv = np.sort(c.u(0, 5, nt))
        if c.coin() and k > 1:
            tv[0] = tim[0]
        eig = c.u(.1, 30, n)
        it.Eload_linear(tim, mag, eig, tv, c.u(.5, 2), implementation='fortran')
        it.EDload_linear(tim, mag, eig, tv, c.u(.5, 2), implementation='fortran')
        it.Eload_coslinear(tim, mag, c.u(.1, 5), c.u(0, 3), eig, tv, c.u(.5, 2), implementation='fortran')
        it.EDload_coslinear(tim, mag, c.u(.1, 5), c.u(0, 3), eig, tv, c.u(.5, 2), implementation='fortran')
        it.Eload_sinlinear(tim, mag, c.u(.1, 5), c.u(0, 3), eig, tv, c.u(.5, 2), implementation='fortran')


def workload(c, per):
    """run other checks' workloads here, recording compiled calls; their own
    verdicts belong to those checks"""
    pick = ('matrices', 'vectors', 'intervals', 'kernels', 'load vectors', 'reconstruct', 'model', 'history', 'profile')
    with _Rec():
        edge_calls(c)
        for j in range(per):
            for g in pick:
                if g == 'profile' and j:
                    continue
                x = Ctx('C08', g, 100000 + c.idx * 50 + j, c.seed, 'quick')
                try:
                    SRC[g]['fn'](x)
                except (CaseAbort, Exception):
                    pass
        for j in range(c.pick(1, 2)):
            try:
                spec(c)
            except Exception:
                pass
        calls = list(LOG)
    return calls


def spec(c):
    """one whole spectral analysis through the compiled implementation"""
    model = c.pick('vr', 'vrw', 'vrc', 'unsat')
    p = specm.case(c, model)
    specm.run(specm.text(p, c) + "\nimplementation = 'fortran'\n", model)


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def near(a, b):
    # rounding of sums that cancel is the build's own business
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-7 * max(1e-300, np.abs(np.where(np.isfinite(y), y, 0)).max()), equal_nan=True)
                                    for x, y in zip(a, b) if x.size)


def libasan():
    return subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()


def replay(c, kind, calls, tag, env=None, sd=0, pre=()):
    """run the recorded calls in a fresh process; returns (returncode, log, results)"""
    here = os.getcwd()
    cp, op = os.path.join(here, 'calls.pkl'), os.path.join(here, 'out-%s.pkl' % tag)
    pickle.dump([x[:3] for x in calls], open(cp, 'wb'))
    if os.path.exists(op):
        os.remove(op)
    so = [fbuild.build(n, kind) for n in ('ext_integrals', 'epus_ext')]
    e = dict(os.environ, OPENBLAS_NUM_THREADS='1', PYTHONMALLOC='malloc', PYTHONPATH='', **(env or {}))
    p = subprocess.run(list(pre) + [sys.executable, '-W', 'ignore', os.path.join(vh.HERE, 'memdrv.py'), cp, op] + so + [str(sd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=here)
    log = p.stdout.decode(errors='replace')
    res = pickle.load(open(op, 'rb')) if os.path.exists(op) else None
    return p.returncode, log, res


def report(c, label, rc, log, res):
    bad = rc != 0 or res is None
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Fortran runtime error[^\n]*)', log)
    at = re.findall(r'(?:in |at |file )\s*\S*(?:ext_integrals|epus_ext)\.f95[^\n]*|#\d+ [^\n]*f95[^\n]*', log)
    c.true(label, not bad, 'exit %s %s\n%s\n%s' % (rc, m.group(1) if m else '', '\n'.join(at[:6]), log[-700:]))
    return not bad


ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=100000000:malloc_fill_byte=%d:max_free_fill_size=0:detect_stack_use_after_return=0:allocator_may_return_null=1'
UB = 'print_stacktrace=1:halt_on_error=1:exitcode=66'


def asan(c, calls, per_fill=(255, 171)):
    out = []
    for k, fill in enumerate(per_fill):
        rc, log, res = replay(c, 'asan', calls, 'asan%d' % fill, env=dict(LD_PRELOAD=libasan(), ASAN_OPTIONS=ASAN % fill, UBSAN_OPTIONS=UB), sd=k * (c.idx + 1))
        if not report(c, 'sanitizer silent', rc, log, res):
            return
        out.append(res)
    n = 0
    for k in range(len(calls)):
        runs = [r for o in out for r in o[k]]
        ok = all(same(runs[0], r) for r in runs[1:])
        n += len(runs)
        if not c.true('independent of memory contents and order', ok, 'call %s %s' % (calls[k][0], [a.shape for a in runs[0]])):
            break
        if not c.true('same as the plain build', near(runs[0], calls[k][3]), 'call %s: %s vs %s' % (calls[k][0], runs[0], calls[k][3])):
            break
    c.obs['sanitized calls'] += n


@group('sanitizer', quick=10, thorough=160, cpu=300)
def sanitizer(c):
    calls = workload(c, 2 if not c.thorough else 4)
    c.note(calls=len(calls), kinds=sorted(set(x[0] for x in calls)), largest=max(sum(np.size(a) for a in x[1]) if x[0] != 'epus' else int(x[1]['npoint']) for x in calls))
    c.true('every routine exercised', len(set(x[0] for x in calls)) >= 12, sorted(set(x[0] for x in calls)))
    asan(c, calls)


@group('bounds', quick=8, thorough=240, cpu=300)
def bounds(c):
    calls = workload(c, 3 if not c.thorough else 8)
    c.note(calls=len(calls), kinds=sorted(set(x[0] for x in calls)))
    out = []
    for fill in ('85', '170'):
        rc, log, res = replay(c, 'bounds', calls, 'b', env=dict(MALLOC_PERTURB_=fill), sd=int(fill) + c.idx)
        if not report(c, 'bounds checks silent', rc, log, res):
            return
        out.append(res)
    for k in range(len(calls)):
        runs = [r for o in out for r in o[k]]
        if not c.true('same with other memory contents', all(same(runs[0], r) for r in runs[1:]), calls[k][0]):
            break
        if not c.true('same as the plain build', near(runs[0], calls[k][3]), 'call %s: %s vs %s' % (calls[k][0], runs[0], calls[k][3])):
            break
    c.obs['bounds-checked calls'] += sum(len(v) for o in out for v in o.values())


@group('repeat', quick=8, thorough=240, cpu=300)
def repeat(c):
    """same build: fresh process, shuffled with repeats, and this (used) process agree bit for bit"""
    calls = workload(c, 3 if not c.thorough else 10)
    c.note(calls=len(calls))
    res = []
    for sd in (0, c.idx + 1):
        rc, log, r = replay(c, 'plain', calls, 'p', env=dict(MALLOC_PERTURB_=str(17 + 100 * (sd > 0))), sd=sd)
        if not report(c, 'process survives', rc, log, r):
            return
        res.append(r)
    for k in range(len(calls)):
        runs = [r for o in res for r in o[k]]
        if not c.true('repeated use gives the same results', all(same(calls[k][3], r) for r in runs), calls[k][0]):
            break


@group('valgrind', quick=0, thorough=8, cpu=2000)
def valgrind(c):
    calls = workload(c, 1)
    keep, seen = [], {}
    for x in calls:
        seen[x[0]] = seen.get(x[0], 0) + 1
        if seen[x[0]] <= 12:
            keep.append(x)
    c.note(calls=len(keep))
    rc, log, res = replay(c, 'valgrind', keep, 'v', pre=('valgrind', '--error-limit=no', '--num-callers=30', '--track-origins=yes'))
    blocks = re.split(r'\n==\d+== \n', log)
    mine = [b for b in blocks if re.search(r'(ext_integrals|epus_ext)\.f95', b) and re.search(r'uninitialised|Invalid (read|write)', b)]
    c.true('valgrind ran', rc == 0 and 'ERROR SUMMARY' in log, log[-600:])
    c.true('no invalid access or use of uninitialised values', not mine, (mine or [''])[0])
