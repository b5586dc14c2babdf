"""C30 calls do not depend on each other."""
import os, sys, gc, time, random, signal, atexit, pickle, struct, subprocess, threading, warnings, locale, decimal
import numpy as np
import mpmath
import fbuild
fbuild.inject('plain')
from vh import group, SCRATCH, REPO, HERE, CaseTimeout
import matplotlib
import matplotlib.pyplot as plt
import callreg as R

RULE = ('Random calls of %d kinds (the public functions of every package, the analyses and the figures; some of them invalid).'
        '  The reference of a call is its result as the first call of a fresh process.  Random histories of calls, on their own'
        ' and in several threads at once, must give the reference results; snapshots of the arguments, of earlier results and of'
        ' process-wide state are compared before and after every call.') % len(R.NAMES)
ASSUMPTIONS = ['Figures are drawn in one thread and closed after each call; drawing an analysis chooses its fonts with the process-wide settings of matplotlib.',
               "Text made with numpy's print options (which are process-wide), also when saving an analysis, is made in one thread.",
               'Documented in-place work is left out: shanks on an array; a PolyLine gives access to its own arrays.',
               'Results are compared to 1e-9 of the largest value of each array (identical otherwise); of exceptions the type is compared.']
TOL = 1e-9
QUIET = [n for n in R.NAMES if n not in R.PLOT and n not in ('files.folder', 'files.analysis', 'code.text')]


# ---------------------------------------------------------------- reference
SRV = {}


def server():
    if SRV.get('pid') != os.getpid():
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, HERE]))
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'callreg.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        SRV.update(pid=os.getpid(), p=p)
        atexit.register(p.kill)
    return SRV['p']


def reference(name, seed):
    p = server()
    d = pickle.dumps((name, seed))
    try:
        p.stdin.write(struct.pack('>Q', len(d)) + d)
        p.stdin.flush()
        n = struct.unpack('>Q', p.stdout.read(8))[0]
        r = pickle.loads(p.stdout.read(n))
    except CaseTimeout:
        p.kill()
        SRV.clear()
        raise
    if isinstance(r, tuple) and r and r[0] == 'ref failed':
        raise RuntimeError('reference of %s %s: %s' % (name, seed, r[1]))
    return r


# ---------------------------------------------------------------- process-wide state
def state(plots):
    d = dict(floating_point_errors=np.geterr(), print_options=str(np.get_printoptions()), decimal=str(decimal.getcontext()), mpmath=(mpmath.mp.dps, mpmath.mp.prec), error_call=np.geterrcall(),
             numpy_random=pickle.dumps(np.random.get_state()), random=random.getstate(), folder=os.getcwd(), environment=dict(os.environ),
             path=list(sys.path), recursion=sys.getrecursionlimit(), stdout=id(sys.stdout), stderr=id(sys.stderr),
             warnings=list(map(str, warnings.filters)), threads=threading.active_count(), collector=gc.isenabled(), gc=gc.get_threshold(),
             switch=sys.getswitchinterval(), handlers=[str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)],
             locale=locale.setlocale(locale.LC_ALL), files=sorted(os.listdir('.')), mask=os.umask(0o22), hook=id(sys.excepthook), trace=sys.gettrace())
    os.umask(d['mask'])
    d['backend'] = matplotlib.get_backend()
    if not plots:
        d['figure_settings'] = {k: str(v) for k, v in matplotlib.rcParams.items()}
        d['figures'] = plt.get_fignums()
        d['open_files'] = len(os.listdir('/proc/self/fd'))
    return d


def compare_state(c, label, a, b):
    for k in a:
        if a[k] != b[k]:
            what = ''
            if isinstance(a[k], dict):
                what = {q: (a[k].get(q), b[k].get(q)) for q in sorted(set(a[k]) | set(b[k])) if a[k].get(q) != b[k].get(q)}
            c.fail('process-wide state untouched', '%s changed %s: %s' % (label, k, str(what or (a[k], b[k]))[:300]))
            return
    c.true('process-wide state untouched', True)


def show(v):
    return str(v)[:260]


def first_difference(a, b, path='result'):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if not R.same(p, q, TOL):
                return first_difference(p, q, '%s[%d]' % (path, i))
    return '%s: %s, expected %s' % (path, show(a), show(b))


def check(c, label, got, want):
    ok = R.same(got, want, TOL)
    c.true(label, ok, '' if ok else first_difference(got, want))


# ---------------------------------------------------------------- returned data that nobody else holds
def leaves(v, seen=None, depth=0):
    """arrays, lists and dicts inside v"""
    seen = {} if seen is None else seen
    if id(v) in seen or depth > 6 or isinstance(v, (str, bytes, type)):
        return seen
    if isinstance(v, np.ndarray):
        seen[id(v)] = v
        if v.dtype == object:
            for a in v.ravel():
                leaves(a, seen, depth + 1)
    elif isinstance(v, dict):
        seen[id(v)] = v
        for a in v.values():
            leaves(a, seen, depth + 1)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            seen[id(v)] = v
        for a in v:
            leaves(a, seen, depth + 1)
    return seen


def spoil(r, args):
    """overwrite what was returned, unless it is (part of) what was given"""
    A = leaves(args)
    arrays = [v for v in A.values() if isinstance(v, np.ndarray)]
    n = 0
    for k, v in list(leaves(r).items()):
        if k in A:
            continue
        if isinstance(v, np.ndarray):
            if v.flags.writeable and v.size and v.dtype.kind in 'fiubc' and not any(np.shares_memory(v, a) for a in arrays):
                v[...] = 77
                n += 1
        elif isinstance(v, list) and v:
            v.append('spoiled')
            n += 1
        elif isinstance(v, dict):
            v['spoiled'] = 1
            n += 1
    return n


# ---------------------------------------------------------------- groups
IMPORTS = r"""
import os, sys, json, pkgutil, importlib, random, locale, warnings, signal, threading
import numpy as np, scipy.optimize, scipy.linalg, scipy.special, matplotlib, pandas, sympy
matplotlib.use('Agg')
import matplotlib.pyplot as plt
def state():
    return dict(errors=np.geterr(), printing=str(np.get_printoptions()), text=repr(np.array([1 / 3., 2])), numpy_random=str(np.random.get_state()), random=random.getstate(), folder=os.getcwd(),
                environment=dict(os.environ), recursion=sys.getrecursionlimit(), out=id(sys.stdout), err=id(sys.stderr), threads=threading.active_count(),
                handlers=[str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)], locale=locale.setlocale(locale.LC_ALL), files=sorted(os.listdir('.')),
                settings={k: str(v) for k, v in matplotlib.rcParams.items()}, figures=plt.get_fignums(), pandas=[pandas.get_option(k) for k in ('display.precision', 'display.max_rows', 'mode.chained_assignment')],
                numpy=[id(vars(np)[k]) for k in sorted(vars(np)) if not k.startswith('_')], builtins=sorted(k for k in dir(__builtins__)))
import geotecha
names = [m.name for m in pkgutil.walk_packages(geotecha.__path__, 'geotecha.') if '.test' not in m.name and not m.name.endswith(('_ext', 'ext_integrals', '_interactive'))]
for n in names:
    r, w = os.pipe()
    if os.fork() == 0:
        os.close(r)
        a = state()
        try:
            m = importlib.import_module(n)
            b = state()
            d = [k for k in a if a[k] != b[k]]
            d = ['%s: %s' % (k, {q: (a[k].get(q), b[k].get(q)) for q in set(a[k]) | set(b[k]) if a[k].get(q) != b[k].get(q)} if isinstance(a[k], dict) else str(b[k])[:200]) for k in d]
        except BaseException as e:
            d = ['import fails: %r' % e]
        os.write(w, json.dumps([n, d]).encode())
        os._exit(0)
    os.close(w)
    sys.__stderr__.write('RESULT ' + os.fdopen(r).read() + chr(10))
    os.wait()
"""


@group('imports', quick=1, thorough=1, cpu=120)
def imports(c):
    """every module can be imported first, and importing it changes nothing else"""
    import json
    c.note(modules='all')
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, HERE]))
    env.pop('PYTHONWARNINGS', None)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', IMPORTS], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    res = [json.loads(l[7:]) for l in p.stderr.splitlines() if l.startswith('RESULT ')]
    c.true('modules found', len(res) > 30, p.stderr[-500:])
    for n, d in res:
        c.true('importing changes nothing else', not d, '%s %s' % (n, d))


@group('repeat', quick=20 * len(R.NAMES), thorough=400 * len(R.NAMES), cpu=120)
def repeat(c):
    """the same call twice"""
    name = R.NAMES[c.idx % len(R.NAMES)]
    seed = c.i(0, 10 ** 9)
    c.note(name=name, seed=seed)
    plots = name in R.PLOT
    ref = reference(name, seed)
    fn, a, k = R.make(name, seed)
    before = R.canon((a, k))
    if c.coin(.1):
        np.set_printoptions(edgeitems=c.i(4, 7))
    np.seterr(all=c.pick('warn', 'ignore'))
    try:
        one, raw, s0, s1 = R.run(fn, a, k, lambda: state(plots))
    finally:
        np.seterr(all='ignore')
    if name == 'code.text':                  # sympy draws random numbers to test expressions
        s0.pop('random')
    compare_state(c, name, s0, s1)
    np.set_printoptions(edgeitems=3)
    plt.close('all')
    c.true('arguments untouched', R.same(before, R.canon((a, k))), first_difference(R.canon((a, k)), before, 'arguments'))
    check(c, 'as in a fresh process', one, ref)
    n = 0
    if c.coin() and not plots:
        n = spoil(raw, (a, k))
        c.true('arguments not part of the result', R.same(before, R.canon((a, k))))
    two, _ = R.run(fn, a, k)
    plt.close('all')
    check(c, 'same call again' if not n else 'same call after its result was overwritten', two, one)


@group('history', quick=320, thorough=8000, cpu=90)
def history(c):
    """a sequence of calls"""
    base = [c.pick(*R.NAMES) for _ in range(c.i(1, 4))]
    if c.coin(.3):
        # relatives of one package
        fam = c.pick(*sorted({n.split('.')[0] for n in R.NAMES}))
        base = [n for n in R.NAMES if n.startswith(fam + '.')]
    if c.coin(.3):
        base += ['models.rejected', 'text.parse']
    n = c.i(5, 14)
    calls, log = [], []
    for _ in range(n):
        if calls and c.coin(.35):
            calls.append(c.pick(*calls))
        else:
            calls.append((c.pick(*base), c.i(0, 10 ** 9)))
    c.note(calls=calls)
    args, refs = {}, {}
    for name, seed in calls:
        if (name, seed) not in refs:
            refs[name, seed] = reference(name, seed)
        if (name, seed) in args and c.coin():
            fn, a, k = args[name, seed]
        else:
            fn, a, k = args[name, seed] = R.make(name, seed)
        got, raw = R.run(fn, a, k)
        check(c, 'as in a fresh process', got, refs[name, seed])
        if name not in R.PLOT and raw is not None and not hasattr(raw, '__next__'):
            if c.coin(.25):
                if spoil(raw, (a, k)):
                    log = [(u, v, w, x) for u, v, w, x in log if x is not a]
            else:
                log.append((name, raw, got, a))
        plt.close('all')
    for name, raw, got, _ in log:
        now = R.canon(raw)
        c.true('earlier results untouched', R.same(now, got), name + ' ' + ('' if R.same(now, got) else first_difference(now, got)))


@group('objects', quick=50 * len(R.OBJ), thorough=1000 * len(R.OBJ), cpu=60)
def objects(c):
    """methods of one object, in any order and again, as of a new object"""
    name = sorted(R.OBJ)[c.idx % len(R.OBJ)]
    mk, one = R.OBJ[name](c)
    o = mk()
    did = []
    log = []
    for _ in range(c.i(3, 10)):
        if did and c.coin(.3):
            q = c.pick(*did)
        else:
            q = one()
            did.append(q)
        m, a, k = q
        before = R.canon((a, k))
        want, _ = R.run(getattr(mk(), m), a, k)
        got, raw = R.run(getattr(o, m), a, k)
        c.note(object=name, calls=[(u[0], R.canon(u[1:])) for u in did])
        check(c, 'as of a new object: ' + m, got, want)
        c.true('arguments untouched', R.same(before, R.canon((a, k))), m)
        if raw is not None:
            log.append((m, raw, got))
    for m, raw, got in log:
        now = R.canon(raw)
        c.true('earlier results untouched', R.same(now, got), m + ' ' + ('' if R.same(now, got) else first_difference(now, got)))


@group('threads', quick=120, thorough=2400, cpu=60)
def threads(c):
    """calls in several threads at once"""
    base = [c.pick(*QUIET) for _ in range(c.i(1, 3))]
    calls = [(c.pick(*base), c.i(0, 10 ** 9)) for _ in range(c.i(3, 6))]
    nt = c.i(2, 4)
    c.note(calls=calls, threads=nt)
    R.TEXT[0] = False
    try:
        in_threads(c, calls, nt)
    finally:
        R.TEXT[0] = True


def in_threads(c, calls, nt):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = [R.run(*R.make(*q))[0] for q in calls]
        orders = [c.rng.permutation(len(calls)) for _ in range(nt)]
        got = [[] for _ in range(nt)]
        gate = threading.Barrier(nt)

        def work(j):
            np.seterr(all='ignore')
            gate.wait(200)
            for i in orders[j]:
                fn, a, k = R.make(*calls[i])
                try:
                    r = R.canon(fn(*a, **k))
                except Exception as e:
                    r = R.canon(e)
                got[j].append((i, r))
        si = sys.getswitchinterval()
        sys.setswitchinterval(c.logu(1e-6, 1e-4))
        try:
            end = time.time() + 240
            T = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(nt)]
            for t in T:
                t.start()
            for t in T:
                t.join(max(1, end - time.time()))
        finally:
            sys.setswitchinterval(si)
    c.true('threads finish', not any(t.is_alive() for t in T))
    for j in range(nt):
        c.true('all calls return', len(got[j]) == len(calls))
        for i, r in got[j]:
            check(c, 'as in one thread', r, want[i])
