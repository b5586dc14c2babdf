"""Runtime-monitoring core: case contexts, monitors (assertions recorded as
observations), a crash-isolating worker pool and evidence/replay writing.

A check module registers *groups*: functions that generate one randomized
workload (from ``c.rng``), drive the real code and report to monitors
(``c.close``, ``c.true``...).  Every monitor evaluation is counted.  A case in
which the code under test raises, crashes, or does not finish within its CPU
allowance, on an input the property covers, is a violation too.
"""
import os, sys, json, time, signal, traceback, zlib, collections, multiprocessing as mp
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCRATCH = os.environ.get('VERIF_SCRATCH') or '/tmp'


class CaseAbort(Exception):
    pass


class CaseTimeout(BaseException):
    pass


GROUPS = collections.OrderedDict()


def group(name, quick=20, thorough=200, cpu=60, min_obs=1):
    """Register a workload.  quick/thorough: number of generated cases."""
    def deco(fn):
        GROUPS[name] = dict(fn=fn, quick=quick, thorough=thorough, cpu=cpu,
                            min_obs=min_obs)
        return fn
    return deco


def _short(v, n=400):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


class Ctx(object):
    def __init__(self, prop, gname, idx, seed, tier):
        self.prop, self.gname, self.idx, self.seed, self.tier = prop, gname, idx, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(gname.encode()), idx])
        self.obs = collections.Counter()
        self.nontriv = 0
        self.viol = []
        self.params = collections.OrderedDict()
        self.thorough = tier == 'thorough'

    # ---- describing the case
    def note(self, **kw):
        for k, v in kw.items():
            self.params[k] = _short(v)

    # ---- random helpers
    def u(self, a, b, size=None):
        r = self.rng.uniform(a, b, size)
        return float(r) if size is None else r

    def logu(self, a, b, size=None):
        r = np.exp(self.rng.uniform(np.log(a), np.log(b), size))
        return float(r) if size is None else r

    def i(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def pick(self, *opts):
        return opts[int(self.rng.integers(len(opts)))]

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    # ---- monitors
    def fail(self, label, msg, mech=None):
        self.viol.append(dict(group=self.gname, idx=self.idx, label=label,
                              mech=mech or (self.gname + ':' + label),
                              msg=str(msg)[:1500], params=dict(self.params)))

    def true(self, label, cond, msg='', mech=None):
        self.obs[label] += 1
        self.nontriv += 1
        if not bool(cond):
            self.fail(label, msg if str(msg) else 'condition is false', mech)
            return False
        return True

    def close(self, label, got, want, rtol=1e-7, atol=0.0, elem=False, mech=None, shape=True, scale=None):
        """got == want to  atol + rtol*scale  (scale: max|want| or, elem,
        elementwise |want|).  NaNs never match (unless in both)."""
        self.obs[label] += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(complex)
            if shape and g.shape != w.shape:
                self.fail(label, 'shape %s, expected %s' % (g.shape, w.shape), mech)
                return False
            if w.size == 0:
                return True
            g, w = np.broadcast_arrays(g, w)
            fin = np.isfinite(w)
            same_nonfin = np.array_equal(np.where(fin, 0, g), np.where(fin, 0, w), equal_nan=True)
            d = np.abs(np.where(fin, g, 0) - np.where(fin, w, 0))
            aw = np.abs(np.where(fin, w, 0))
            sc = aw if elem else (aw.max() if scale is None else scale)
            bad = ~(d <= atol + rtol * sc)
        except Exception as e:
            self.fail(label, 'result not comparable: %r got=%s' % (e, _short(got)), mech)
            return False
        if aw.max() > atol:
            self.nontriv += 1
        if bad.any() or not same_nonfin:
            k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            self.fail(label, 'max diff %.3e at flat index %d: got %r want %r (scale %.3e, rtol %g, atol %g) got=%s want=%s'
                      % (d.ravel()[k], k, g.ravel()[k], w.ravel()[k], aw.max(), rtol, atol, _short(g), _short(w)), mech)
            return False
        return True

    def leq(self, label, a, b, tol=0.0, mech=None):
        a = np.asarray(a); b = np.asarray(b)
        ok = bool(np.all(a <= b + tol))
        self.obs[label] += 1
        self.nontriv += 1
        if not ok:
            self.fail(label, 'expected a <= b: a=%s b=%s' % (_short(a), _short(b)), mech)
        return ok

    def call(self, label, fn, *a, **k):
        """Call the code under test on a valid input; raising is a violation."""
        try:
            return fn(*a, **k)
        except Exception as e:
            self.fail(label, 'raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-900:]))
            raise CaseAbort()

    def raises(self, label, exc, fn, *a, **k):
        self.obs[label] += 1
        self.nontriv += 1
        try:
            r = fn(*a, **k)
        except exc:
            return True
        except Exception as e:
            self.fail(label, 'raised %s: %s instead of %s' % (type(e).__name__, e, exc))
            return False
        self.fail(label, 'no exception; returned %s' % _short(r))
        return False


def _on_cpu(signum, frame):
    raise CaseTimeout()


def run_case(prop, gname, idx, seed, tier):
    g = GROUPS[gname]
    c = Ctx(prop, gname, idx, seed, tier)
    t0 = time.process_time()
    lim = g['cpu'] * (3 if tier == 'thorough' else 1)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, lim)
    try:
        g['fn'](c)
    except CaseAbort:
        pass
    except CaseTimeout:
        c.fail('finishes', 'no result within %g CPU seconds' % lim)
    except MemoryError:
        c.fail('finishes', 'memory exhausted')
    except Exception as e:
        c.fail('usable result', 'exception while driving/monitoring: %s: %s\n%s'
               % (type(e).__name__, e, traceback.format_exc()[-1200:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(group=gname, idx=idx, obs=dict(c.obs), nontriv=c.nontriv, viol=c.viol,
                params=dict(c.params), cpu=time.process_time() - t0)


def _worker(conn, prop, seed, tier, cwd, mem):
    try:
        import resource
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    sys.stdout = open(os.devnull, 'w')
    np.seterr(all='ignore')
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        res = run_case(prop, job[0], job[1], seed, tier)
        conn.send(res)
    os._exit(0)


def run_pool(prop, jobs, seed, tier, nproc, budget, mem=8 << 30, max_viol=25, known=()):
    """Run jobs on forked workers; a worker killed by a signal is a violation
    of the case it was running."""
    ctx = mp.get_context('fork')
    from multiprocessing.connection import wait
    t0 = time.time()
    results = []
    nv = 0
    todo = collections.deque(jobs)
    workers = {}

    def spawn(k):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, prop, seed, tier, os.path.join(SCRATCH, 'w%d' % k), mem))
        p.start()
        b.close()
        return dict(conn=a, proc=p, job=None, k=k, t=0)

    def feed(w):
        if todo and time.time() - t0 < budget and nv < max_viol:
            w['job'] = todo.popleft()
            w['t'] = time.time()
            w['conn'].send(w['job'])
            return True
        try:
            w['conn'].send(None)
        except Exception:
            pass
        w['job'] = None
        return False

    active = {}
    for k in range(min(nproc, len(jobs))):
        w = spawn(k)
        if feed(w):
            active[w['conn']] = w
    stuck = 0
    while active:
        ready = wait(list(active), timeout=5)
        now = time.time()
        for cn in ready:
            w = active[cn]
            try:
                res = cn.recv()
            except (EOFError, ConnectionResetError):
                w['proc'].join()
                ec = w['proc'].exitcode
                g, i = w['job']
                results.append(dict(group=g, idx=i, obs={'process survives': 1}, nontriv=1, params={}, cpu=0,
                                    viol=[dict(group=g, idx=i, label='process survives', mech=g + ':crash',
                                               msg='worker process died, exit code %s' % ec, params={})]))
                nv += 1
                del active[cn]
                w2 = spawn(w['k'])
                if feed(w2):
                    active[w2['conn']] = w2
                continue
            results.append(res)
            nv += sum(v['mech'] not in known for v in res['viol'])
            if not feed(w):
                del active[cn]
                w['proc'].join(10)
        for cn, w in list(active.items()):
            # wall-clock watchdog only: inconclusive, not a violation
            lim = GROUPS[w['job'][0]]['cpu'] * (3 if tier == 'thorough' else 1) * 6 + 60
            if now - w['t'] > lim:
                w['proc'].kill()
                w['proc'].join()
                del active[cn]
                stuck += 1
    return results, len(todo), stuck
