"""C28 time limited calls, timers, listings and printing helpers."""
import os, sys, io, re, time, signal, types, inspect, contextlib, functools, multiprocessing as mp
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group, SCRATCH
import geotecha.inputoutput.inputoutput as iop
import geotecha.inputoutput.timeout as to

RULE = ('Random functions (results of all sizes and kinds, exceptions, silent ends of the process, overruns) are called'
        ' directly and under a time limit, in random sequences; result, exception, elapsed wall time and the processes left are'
        ' observed.  Listings are compared with the file system and with inspect, prints and timers are read back.')
ASSUMPTIONS = ['Functions that must finish have limits of at least 20 s, functions that must not finish sleep 10 minutes, so a loaded machine changes nothing.',
               'A result or exception has to survive pickling to be returned; when it does not, some exception is raised at once.']


class Hang(Exception):
    pass


class Odd(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, 'odd %s %s' % (a, b))
        self.a, self.b = a, b


class Rich(ValueError):
    def __init__(self, a=0):
        ValueError.__init__(self, a)


@contextlib.contextmanager
def wall(seconds):
    def h(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


EXC = [KeyError('k'), ValueError('bad', 3), ZeroDivisionError(), Rich(7), AssertionError('x'), StopIteration(4), MemoryError('m'), OSError(2, 'no'), to.TimeoutException('own'), TypeError('t')]


def work(kind, arg, wait=0, log=None, scale=1):
    """what runs under the limit"""
    if log is not None:
        log.append('changed')
        open(log[0], 'a').write('%d\n' % os.getpid())
    if wait:
        time.sleep(wait)
    if kind == 'bytes':
        return b'ab' * arg
    if kind == 'array':
        return np.arange(arg) * scale
    if kind == 'value':
        return arg
    if kind == 'raise':
        raise EXC[arg]
    if kind == 'unpicklable':
        return lambda x: x
    if kind == 'odd':
        raise Odd(1, arg)
    if kind == 'exit':
        sys.exit(arg)
    if kind == 'die':
        os._exit(arg)
    if kind == 'kill':
        os.kill(os.getpid(), 9)
    if kind == 'sleep':
        t = time.time()
        while time.time() - t < 600:
            time.sleep(1)


def alike(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, BaseException):
        return type(a) is type(b) and a.args == b.args
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(alike, a, b))
    return type(a) is type(b) and a == b


@group('time limits', quick=80, thorough=1500, cpu=60)
def limits(c):
    hist = []
    for step in range(c.i(1, 4)):
        kind = c.pick('bytes', 'array', 'value', 'value', 'raise', 'raise', 'unpicklable', 'odd', 'exit', 'die', 'kill', 'sleep', 'sleep', 'exact')
        arg = dict(bytes=c.pick(c.i(0, 100), c.i(32700, 32800), int(c.logu(1e4, 4e6))), array=c.pick(c.i(0, 20), c.i(8000, 8300), int(c.logu(1e3, 1e6))),
                   value=c.pick(None, False, 0, '', 'text', (1, [2.5, None]), dict(a=1), EXC[1], (False, KeyError('q')), (True, 1), 1e300, [np.arange(3), 2]),
                   exit=c.pick(0, 1, 3), die=c.pick(0, 0, 2)).get(kind, c.i(0, len(EXC) - 1))
        over = kind in ('sleep', 'exact')
        lim = c.pick(.05, .3, c.u(.1, 1.2)) if over else c.pick(20, 25.5, 22, None if kind not in ('unpicklable', 'odd', 'kill') else 20)
        wait = 0 if over or c.coin(.7) else c.u(0, .3)
        if kind == 'exact':
            # takes the limit exactly
            wait = lim
        hist.append((kind, arg if not isinstance(arg, EXC[0].__class__) else repr(arg), lim, round(wait, 2)))
        c.note(calls=str(hist))
        force = c.pick(True, True, None, False) if over else c.pick(True, None, False)
        f = to.timeout(lim) if force is None else to.timeout(lim, force_kill=force) if c.coin() else to.timeout(lim, force)
        f = f(functools.partial(work, scale=3) if c.coin(.3) else work)
        mark = os.path.join(SCRATCH, 'mark%d_%d' % (os.getpid(), c.idx))
        if os.path.exists(mark):
            os.remove(mark)
        log = [mark]
        args, kw = [kind, arg], dict(wait=wait)
        if c.coin():
            kw['log'] = log
        else:
            args += [kw.pop('wait'), log]
        t0 = time.time()
        try:
            with wall(40):
                out = ('returned', f(*args, **kw))
        except Hang:
            c.fail('the call comes back', 'no answer 40 s after the call %s' % (hist[-1],))
            return
        except Exception as e:
            out = ('raised', e)
        took = time.time() - t0
        # observations
        c.true("the caller's objects are not changed", log == [mark], log)
        ran = open(mark).read().split() if os.path.exists(mark) else []
        if not over:
            c.true('the function ran once, in another process', len(ran) == 1 and ran[0] != str(os.getpid()), ran)
        if kind in ('bytes', 'array', 'value'):
            want = work(kind, arg)
            if kind == 'array' and out[0] == 'returned' and isinstance(out[1], np.ndarray):
                c.true('result', alike(want, out[1]) or alike(3 * want, out[1]), '%s instead of %d items' % (out[1].shape, arg))
            else:
                c.true('result', out[0] == 'returned' and alike(want, out[1]), '%s %r instead of %.60r' % (out[0], str(out[1])[:80], want))
        elif kind == 'raise':
            c.true('exception', out[0] == 'raised' and alike(EXC[arg], out[1]), '%s %r instead of %r' % (out + (EXC[arg],)))
        elif over:
            if c.true('overrun is reported', out[0] == 'raised' and type(out[1]) is to.TimeoutException, '%s %r' % out):
                m = re.match(r'^timed out after (\d+) seconds$', str(out[1]))
                c.true('overrun message', m and int(lim) <= int(m.group(1)) <= took + 1, out[1])
            c.true('not before the limit', took >= lim - .01, took)
            c.true('soon after the limit', took < lim + 30, took)
        else:
            c.true('an exception, not a result', out[0] == 'raised' and not isinstance(out[1], to.TimeoutException), '%s %r' % out)
        if not over:
            c.true('not held up', took < wait + 18, took)
        # processes
        stop = time.time() + 20
        if kind == 'sleep' and force is False:
            alive = [p for p in mp.active_children()]
            c.true('left running as asked', len(alive) == 1, alive)
            for p in alive:
                p.kill()
        while mp.active_children() and time.time() < stop:
            time.sleep(.02)
        left = mp.active_children()
        c.true('no process is left', not left, left)
        for p in left:
            p.kill()
        if c.viol:
            return
        if os.path.exists(mark):
            os.remove(mark)


@group('cosine example', quick=6, thorough=30)
def cosine(c):
    x = c.u(-9, 9)
    c.note(x=x)
    over = c.coin()
    f = to.timeout(.2 if over else 20)(to._longcos)
    try:
        with wall(40):
            r = f(x, 4 if over else c.pick(0, .1))
        c.true('value', not over and r == np.cos(x), r)
    except to.TimeoutException as e:
        c.true('only overruns time out', over, e)
    for p in mp.active_children():
        p.join(30)


def names(c, k):
    return c.rng.choice([a + str(i) for a in ('x', 'Foo', 'b_', '_p', 'test', 'a_test') for i in ('',) + tuple(range(25))], k, replace=False).tolist()


@group('listings', quick=60, thorough=600)
def listings(c):
    # packages written for the occasion
    pk = 'pk%d_%d' % (os.getpid(), c.idx)
    root = os.path.join(SCRATCH, 'pkgs%d' % os.getpid())
    d = os.path.join(root, pk)
    os.makedirs(d)
    mods = names(c, c.i(0, 8))
    subs = [n for n in names(c, c.i(0, 4)) + c.pick([], ['test']) if n not in mods]
    subs = sorted(set(subs))
    open(os.path.join(d, '__init__.py'), 'w').write('')
    for m in mods:
        open(os.path.join(d, m + '.py'), 'w').write('v = 1\n')
    for s in subs:
        os.mkdir(os.path.join(d, s))
        open(os.path.join(d, s, '__init__.py'), 'w').write('')
    for o in ('notes.txt', 'data.csv', 'README'):
        open(os.path.join(d, o), 'w').write('')
    c.note(mods=mods, subs=subs)
    sys.path.insert(0, root)
    try:
        importlib = __import__('importlib')
        importlib.invalidate_caches()
        ex = c.pick(None, [], ['test'], (mods + subs)[:2])
        want = set(mods + subs) - set(['test'] if ex is None else ex)
        got = c.call('modules_in_package', iop.modules_in_package, pk, *([] if ex is None else [ex]))
        c.true('modules listed', sorted(got) == sorted(want), '%s instead of %s' % (got, sorted(want)))
        got = c.call('object_members', iop.object_members, importlib.import_module(pk), 'module', False)
        c.true('modules of the package', sorted(got) == sorted(mods + subs), got)
    finally:
        sys.path.remove(root)
        sys.modules.pop(pk, None)
        import shutil
        shutil.rmtree(d)
    # members of an object
    m = types.ModuleType('m')
    kinds = dict(function=lambda: (lambda x: x), builtin=lambda: c.pick(len, abs, sum), ufunc=lambda: c.pick(np.sin, np.add, np.exp), generatorfunction=lambda: eval('lambda: (yield 1)'))
    kinds['class'] = lambda: type('K', (), {})
    have = {}
    for n in names(c, c.i(0, 25)):
        k = c.pick(*sorted(kinds))
        setattr(m, n, kinds[k]())
        have[n] = k
    for n in ('number', 'text'):
        setattr(m, n, 1)
    k = c.pick(*sorted(kinds))
    want = sorted(n for n in have if have[n] == k or (k == 'function' and have[n] == 'generatorfunction'))
    if k == 'class':
        want = sorted(want + (['__loader__'] if inspect.isclass(m.__loader__) else []))
    join = c.pick(True, False, None)
    kw = {} if join is None else dict(join=join)
    if k != 'function' or c.coin():
        kw['info'] = k
    got = c.call('object_members', iop.object_members, m, **kw)
    if join is False:
        c.true('members', got == want, '%s: %s instead of %s' % (k, got, want))
    else:
        c.true('members in text', isinstance(got, str) and got.split() == want, '%s: %s instead of %s' % (k, got, want))
        c.true('wrapped', all(len(s) <= 65 for s in got.split('\n')) , got)


@group('timer', quick=60, thorough=600)
def timer(c):
    t = iop.SimpleTimer()
    out = io.StringIO()
    ops = []
    open_ = {}
    lev = c.i(1, 4)
    hist = []
    for _ in range(c.i(1, 10)):
        i = c.i(0, lev)
        if i in open_ and c.coin(.6):
            hist.append(('finish', i, open_[i], None))
        else:
            open_[i] = c.pick(None, 'job %d' % i, 'brace {} %s')
            hist.append(('start', i, open_[i], None))
    c.note(ops=hist)
    want = []
    times = {}
    base = time.time
    clock = [1e9]

    def fake():
        clock[0] += float(step)
        return clock[0]
    old = iop.time.time
    iop.time.time = fake
    try:
        with contextlib.redirect_stdout(out):
            for op, i, msg, _ in hist:
                step = c.pick(0, 1, .25, 61, 3600 * 5, 86400 * 3)
                name = 'Level %d' % i if msg is None else msg
                if op == 'start':
                    t.start(*([i] if msg is None else [i, msg]))
                    times[i] = clock[0]
                    if i == 0:
                        want.append('*' * 40)
                    want.append('  ' * i + 'Started ' + name)
                else:
                    t.finish(i)
                    want.append(('  ' * i + 'Finished ' + name + ', run time = ', clock[0] - times[i]))
                    if i == 0:
                        want.append('*' * 40)
    finally:
        iop.time.time = old
    got = out.getvalue().split('\n')[:-1]
    if not c.true('one line each', len(got) == len(want), got):
        return
    for g, w in zip(got, want):
        if isinstance(w, str):
            c.true('line', g == w, '%r instead of %r' % (g, w))
        else:
            m = re.match(r'^(?:(\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)$', g[len(w[0]):])
            if c.true('line', g.startswith(w[0]) and m, '%r, %r' % (g, w)):
                s = int(m.group(1) or 0) * 86400 + int(m.group(2)) * 3600 + int(m.group(3)) * 60 + float(m.group(4))
                c.true('elapsed time', abs(s - w[1]) < 1e-4, '%s for %s' % (g, w[1]))


@group('array prefix', quick=60, thorough=600)
def prefix(c):
    pre = c.pick(None, 'np.', 'numpy.', '', 'N_')
    p = iop.PrefixNumpyArrayString(*([] if pre is None else [pre]))
    pre = 'np.' if pre is None else pre
    a = c.pick(np.arange(c.i(0, 9)), np.array([c.u(-1, 1) for _ in range(c.i(1, 40))]), np.array([[1, 2.5], [c.u(0, 1), 4]]), np.array([True, False]), np.linspace(0, 1, c.pick(3, 1500)))
    c.note(a=str(a)[:60], pre=pre)
    s0, r0 = str(a), repr(a)
    p.turn_on()
    try:
        s, r = str(a), repr(a)
    finally:
        p.turn_off()
    c.true('prefixed', s == pre + r0, s[:80])
    c.true('repr not changed', r == r0, r[:80])
    c.true('switched off again', str(a) == s0 and repr(a) == r0, str(a)[:80])
