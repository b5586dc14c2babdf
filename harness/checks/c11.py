"""C11 input text."""
import os, sys, ast, io, copy
import urllib.request, gzip, bz2, lzma, encodings.idna, http.client, email.message, _strptime, numpy.testing, numpy.polynomial
import numpy as np
import fbuild
fbuild.inject('plain')
from vh import group
import specm
import geotecha.inputoutput.inputoutput as iop
from geotecha.inputoutput.inputoutput import InputFileLoaderCheckerSaver, SyntaxChecker
from geotecha.piecewise.piecewise_linear_1d import PolyLine

RULE = ('Random programs: allowed ones are executed in parallel by the plain interpreter and compared; hostile ones hide a'
        ' forbidden construct somewhere in an otherwise harmless program whose first statement leaves a mark on disk.'
        ' A process-wide audit hook watches every construction.')
ASSUMPTIONS = ['What the input language is meant to refuse is taken from the documentation of SyntaxChecker (imports, classes,'
               ' names/functions/attributes that are not listed) and from what its commented-out entries leave out.']

# ---------------------------------------------------------------- audit hook
WATCH = dict(on=False, ev=[])
BAD = ('import', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'subprocess.Popen', 'ctypes.dlopen', 'pickle.find_class',
       'socket.connect', 'os.remove', 'os.rename', 'os.rmdir', 'shutil.rmtree', 'os.kill', 'sys._getframe', 'marshal.loads', 
       'urllib.Request', 'code.__new__', 'function.__new__', 'os.fork')


import pydoc        # numpy.info() imports it; not a way to run anything


def literal():
    """compile() called by ast.literal_eval, which only builds a syntax tree"""
    WATCH['on'] = False
    try:
        f = sys._getframe(2)
        for _ in range(6):
            if f is None:
                return False
            if f.f_code.co_name == 'literal_eval' and f.f_code is ast.literal_eval.__code__:
                return True
            f = f.f_back
        return False
    finally:
        WATCH['on'] = True


def hook(ev, args):
    if WATCH['on'] and (ev in BAD or ev.startswith('os.exec')):
        if ev == 'import' and args[0] in sys.modules:
            return
        WATCH['ev'].append((ev, repr(args)[:120]))
    elif WATCH['on'] and ev == 'compile' and args[0] is not None and not isinstance(args[0], ast.AST) and args[0] not in WATCH.get('texts', ()) and not literal():
        WATCH['ev'].append((ev, repr(args)[:120]))


sys.addaudithook(hook)


class watch(object):
    def __init__(self, *texts):
        self.texts = texts + tuple(t.encode() for t in texts)

    def __enter__(self):
        WATCH['ev'] = []
        WATCH['texts'] = self.texts
        WATCH['on'] = True
        return WATCH['ev']

    def __exit__(self, *a):
        WATCH['on'] = False


def make(names, defaults=None, **rules):
    d = dict(rules)

    def _setup(self):
        self._attributes = list(names)
        self._attribute_defaults = copy.deepcopy(defaults or {})
        for k, v in rules.items():
            setattr(self, k, copy.deepcopy(v))
    return type('Analysis', (InputFileLoaderCheckerSaver,), dict(_setup=_setup))


COMMON = 'plot_properties save_data_to_file prefix directory overwrite create_directory data_ext input_ext figure_ext save_figures_to_file show_figures author version title'.split()

# ---------------------------------------------------------------- allowed programs
NAMES = ['alpha', 'beta', 'gam', 'depth', 'tvals', 'kv', 'load', 'H', 'zz', 'q1', 'q2', 'q3']


def num(c):
    return c.pick(str(c.i(-9, 20)), '%.4g' % c.u(-50, 50), '%.3e' % (c.logu(1e-6, 1e6)), '-%.3f' % c.u(0, 3), str(c.i(1, 9)), '%d/%d' % (c.i(1, 9), c.i(1, 9)), '(%d)' % c.i(1, 5),
                  '1e3', '0x1f', '1_000', '.5', 'abs(-%d)' % c.i(1, 9), 'float("%.2f")' % c.u(0, 5), 'len([1, 2, 3])', 'np.pi', 'round(%.3f, 1)' % c.u(0, 9), 'int(%.2f)' % c.u(0, 9))


def scal(c, vs, d=0):
    k = c.i(0, 9) if d < 3 else 0
    if k == 1 and vs['s']:
        return c.pick(*vs['s'])
    if k in (2, 3):
        return '(%s %s %s)' % (scal(c, vs, d + 1), c.pick('+', '-', '*'), scal(c, vs, d + 1))
    if k == 4:
        return '(%s if %s %s %s else %s)' % (scal(c, vs, d + 1), scal(c, vs, d + 1), c.pick('<', '>', '<=', '>=', '==', '!='), scal(c, vs, d + 1), scal(c, vs, d + 1))
    if k == 5:
        return 'np.%s(%s)' % (c.pick('sin', 'cos', 'exp', 'arctan', 'abs', 'tanh', 'floor', 'rint', 'sign'), '(%s) / 1e3' % scal(c, vs, d + 1))
    if k == 6 and vs['l']:
        return '%s[%d]' % (c.pick(*vs['l']), c.i(-1, 0))
    if k == 7:
        return '%s(%s, %s)' % (c.pick('max', 'min', 'pow' if False else 'max'), scal(c, vs, d + 1), scal(c, vs, d + 1))
    if k == 8:
        return 'sum(%s)' % lst(c, vs, d + 1)
    return num(c)


def lst(c, vs, d=0):
    k = c.i(0, 6) if d < 3 else 0
    if k == 1 and vs['l']:
        return c.pick(*vs['l'])
    if k == 2:
        return '(%s + %s)' % (lst(c, vs, d + 1), lst(c, vs, d + 1))
    if k == 3:
        return 'sorted(%s)' % lst(c, vs, d + 1)
    if k == 4:
        return 'list(range(%d, %d, %d))' % (c.i(0, 3), c.i(4, 9), c.i(1, 3))
    if k == 5:
        return '%s[%s:%s]' % ('[1, 2.5, -3, %s]' % num(c), c.pick('', '1', '-2'), c.pick('', '3', '4'))
    if k == 6:
        return '([%s] * %d)' % (num(c), c.i(1, 3))
    return '[%s]' % ', '.join(scal(c, vs, d + 2) for _ in range(c.i(1, 4)))


def arr(c, vs, d=0):
    k = c.i(0, 7)
    if k == 0:
        return 'np.linspace(%s, %s, %d)' % (num(c), num(c), c.i(2, 6))
    if k == 1:
        return 'np.logspace(%d, %d, %d)' % (c.i(-3, 0), c.i(1, 3), c.i(2, 5))
    if k == 2 and vs['a']:
        return '%s %s %s' % (c.pick(*vs['a']), c.pick('*', '+', '-'), scal(c, vs, 2))
    if k == 3:
        return 'np.array(%s)' % lst(c, vs, 2)
    if k == 4:
        return 'np.concatenate((np.arange(%d), np.zeros(%d)))' % (c.i(1, 4), c.i(1, 3))
    if k == 5:
        return 'np.cumsum(%s)' % lst(c, vs, 2)
    if k == 6:
        return 'np.array([[%s, %s], [%s, %s]])[:, %d]' % (num(c), num(c), num(c), num(c), c.i(0, 1))
    return 'np.ones(%d).reshape((%d, 1))[0]' % ((lambda n: (n, n))(c.i(1, 4)))


def val(c, vs):
    """text, kind"""
    k = c.i(0, 9)
    if k <= 2:
        return scal(c, vs), 's'
    if k == 3:
        return lst(c, vs), 'l'
    if k == 4:
        return arr(c, vs), 'a'
    if k == 5:
        n = c.i(2, 4)
        x = sorted(round(c.u(0, 5), 2) for _ in range(n))
        return c.pick('PolyLine(%r, %r)' % (x, [round(c.u(-3, 3), 2) for _ in x]), 'PolyLine([0, %s], [1, 2])' % abs(float(x[-1]) + .5),
                      'PolyLine([0.0], [1.0], [%s], [%s])' % (num(c), num(c)), '[PolyLine([0, 1], [%s, 3])] * 2' % num(c), 'PolyLine([0, 2], [1, 5]) * %s' % num(c)), 'o'
    if k == 6:
        return c.pick('"text"', "'it\\'s'", '"two\\nlines"', 'r"raw\\n"', '"%s" % 3', '"a" + "b"', '"abc".upper()', 'u"x"', '"""long\ntext"""', 'str(3)'), 'o'
    if k == 7:
        return c.pick('None', 'True', 'False', 'not True', '1 < 2 < 3', '3 in [1, 2, 3]', '2j', '(1, 2)', '(3,)', '()', '[]', '{}', 'slice(0, None)', 'slice(1, -1)'), 'o'
    if k == 8:
        return c.pick('dict(a=1, b=%s)' % num(c), '{"ylabel": "x", "n": %s}' % lst(c, vs), '{1, 2, 2}', '[(0, 1), [2, %s]]' % num(c), 'dict(styles=[dict(ls="-")])', '[None, (1.5, %s)]' % num(c)), 'o'
    return 'np.float64(2.0)' if False else '[[0, %s], [%s, 1]]' % (num(c), num(c)), 'o'


def program(c, n=None):
    vs = dict(s=[], l=[], a=[])
    L = []
    seen = []
    for _ in range(n or c.i(1, 8)):
        nm = c.pick(*NAMES)
        k = c.i(0, 11)
        for q in vs.values():
            if nm in q and k != 9:
                q.remove(nm)
        if k == 0 and vs['s']:
            s = c.pick(*vs['s'])
            L.append('%s %s %s' % (s, c.pick('+=', '-=', '*='), num(c)))
            continue
        if k == 1:
            m = c.pick(*NAMES)
            for q in vs.values():
                if m in q:
                    q.remove(m)
            if m != nm:
                a, b = scal(c, vs), scal(c, vs)
                L.append(c.pick('%s, %s = %s, %s', '(%s, %s) = (%s, %s)', '[%s, %s] = [%s, %s]') % (nm, m, a, b))
                vs['s'] += [nm, m]
                seen += [nm, m]
                continue
        if k == 2:
            L.append('%s = 0\nfor q in range(%d):\n    %s += q * %s' % (nm, c.i(0, 4), nm, num(c)))
            vs['s'].append(nm); seen.append(nm)
            continue
        if k == 3:
            L.append('if %s > %s:\n    %s = %s\nelse:\n    %s = %s' % (scal(c, vs), scal(c, vs), nm, scal(c, vs), nm, scal(c, vs)))
            vs['s'].append(nm); seen.append(nm)
            continue
        if k == 4:
            L.append('%s = []\n%s.append(%s)\n%s.extend([%s])' % (nm, nm, scal(c, vs), nm, scal(c, vs)))
            vs['l'].append(nm); seen.append(nm)
            continue
        if k == 5:
            m = c.pick(*NAMES)
            L.append('%s = %s = %s' % (nm, m, scal(c, vs)))
            for q in (nm, m):
                for v in vs.values():
                    if q in v:
                        v.remove(q)
                if q not in vs['s']:
                    vs['s'].append(q)
                seen.append(q)
            continue
        if k == 6:
            L.append('# %s = 5' % nm)
            if nm in seen:
                v, kd = val(c, vs)
                L.append('%s = %s' % (nm, v))
                if kd != 'o':
                    vs[kd].append(nm)
            continue
        v, kd = val(c, vs)
        L.append('%s = %s' % (nm, v))
        if kd != 'o':
            vs[kd].append(nm)
        seen.append(nm)
    t = '\n'.join(L) + c.pick('', '\n', '\n\n# end\n')
    return t


def same(a, b):
    try:
        return same_(a, b)
    except RecursionError:      # a list that contains itself
        return repr(a) == repr(b)


def same_(a, b):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and type(a) == type(b)):
        return False
    if isinstance(a, PolyLine):
        return len(a.x) == len(b.x) and np.array_equal(np.asarray(a.x), np.asarray(b.x)) and np.array_equal(np.asarray(a.y), np.asarray(b.y)) and np.array_equal(np.asarray(a.y1), np.asarray(b.y1))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_(p, q) for p, q in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_(a[k], b[k]) for k in a)
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


@group('faithful', quick=1500, thorough=40000)
def faithful(c):
    t = program(c)
    c.note(text=t)
    env = dict(np=np, numpy=np, PolyLine=PolyLine)
    try:
        with np.errstate(all='ignore'):
            exec(t, env)
    except Exception:
        return   # not a program that works in Python either
    attrs = [n for n in NAMES if c.coin(.7)] + ['other']
    dflt = {n: c.pick(3, 'd', [1, 2], None) for n in attrs if c.coin(.4)}
    cls = make(attrs, dflt)
    with watch(t) as ev:
        o = c.call('reads', cls, t if c.coin(.6) else io.StringIO(t))
    c.true('no side effects', not ev, ev)
    for n in attrs:
        if n in env:
            c.true('assigned value', same(getattr(o, n), env[n]), '%s = %r, in Python %r' % (n, getattr(o, n), env[n]))
        else:
            c.true('initial value kept', n in vars(o) and same(getattr(o, n), dflt.get(n)), '%s = %r want %r' % (n, getattr(o, n, '?'), dflt.get(n)))
    for n in NAMES:
        if n not in attrs:
            c.true('nothing else set', not hasattr(o, n), n)
    q = cls()
    for n in COMMON:
        if n not in env:
            c.true('common attribute kept', same(getattr(o, n), getattr(q, n)), n)
    c.true('text kept', o._input_text == t)
    c.true('defaults unchanged', all(same_(getattr(q, n), dflt.get(n)) for n in attrs))


# ---------------------------------------------------------------- hostile programs
PAY = "open('owned','w')"
FORBIDDEN_CALLS = ['eval', 'exec', 'open', 'getattr', 'setattr', 'delattr', 'globals', 'vars', 'dir', '__import__', 'memoryview', 'callable', 'hash',
                   'property', 'staticmethod', 'classmethod', 'breakpoint', 'exit', 'quit', 'help', 'compile', 'locals', 'os', 'sys', '__build_class__', '__loader__', '__builtins__',
                   'object', 'undefined_thing', 'PolyLine2', 'aiter', 'copyright']
FORBIDDEN_ATTRS = ['__class__', '__globals__', '__subclasses__', '__bases__', '__mro__', '__dict__', '__code__', '__reduce__', '__getattribute__', '__init__',
                   '__self__', '__func__', '__module__', 'f_globals', 'gi_frame', 'func_globals', 'im_func', 'system', 'popen', 'ctypeslib', 'lib', 'core', 'distutils', 'f2py', 'sys', 'os', 'undefined_thing',
                   'testing', 'load', 'memmap', '_attributes', '__doc__', '__name__', 'modules', 'exec', 'eval', 'tests', '__array_interface__', 'ctypes', 'base_', 'DataSource', 'lookfor', 'info', 'test']


def bad_expr(c):
    k = c.i(0, 13)
    f = c.pick(*FORBIDDEN_CALLS)
    a = c.pick(*FORBIDDEN_ATTRS)
    if k == 0:
        return '%s("1")' % f
    if k == 1:
        return f
    if k == 2:
        return '%s.%s' % (c.pick('np', '()', '"s"', '[]', '(1).real', 'np.array([1])', 'len', 'PolyLine', 'print', '{}', 'PolyLine([0, 1], [1, 2])'), a)
    if k == 3:
        return '().__class__.__bases__[0].__subclasses__()'
    if k == 4:
        return 'list(map(%s, ["1"]))' % f
    if k == 5:
        return "__import__('os').system('touch owned')"
    if k == 6:
        return 'eval("%s")' % PAY.replace('"', "'")
    if k == 7:
        return '(lambda: 0).%s' % a
    if k == 8:
        return 'type(lambda: 0)(compile("%s", "", "eval"), {})()' % PAY
    if k == 9:
        return 'locals()["__builtins__"]["eval"]("%s")' % PAY
    if k == 10:
        return 'np.load("x.npy", None, True)'
    if k == 11:
        return 'sorted([1, 2], key=%s)' % f
    if k == 12:
        return '(%s for _ in [1])' % f
    return '[%s for _ in [1]][0]' % f


def wrap(c, e):
    """hide an expression somewhere in an expression"""
    for _ in range(c.i(0, 3)):
        e = c.pick('[1, %s]', '(%s, 2)', 'max(1, *[%s])', '{"k": %s}', '{%s: 1}', 'len([%s])', '(1 if True else %s)', '(%s or 1)', 'str(%s)', '[0, 1][0:%s]',
                   'dict(a=%s)', 'np.array([%s])', '(1 + %s)', '"%%s" %% (%s,)', '(lambda: %s)', '[v for v in [%s]]', '"{}".format(%s)', 'not %s', '(1 < %s)', 'np.sum([%s], axis=0)', '-(%s)', 'print(%s)', '[][%s]',
                   '[%s for _ in range(3)]', '{1: 2 for _ in [%s]}', '(0 for _ in [%s])',
                   'np.array([1], dtype=%s)', 'np.array([1], copy=[%s])', 'np.array(*[%s])', 'np.array([1], **{"dtype": %s})', '"{a}".format(a=%s)', '{}.update(a=%s)', '[3, 1].sort(key=lambda v: %s)',
                   'dict(**{"a": %s})', 'max(1, 2, key=lambda v: %s)', '[0, 1, 2][%s:]', '[0, 1, 2][::%s]', '(lambda v=%s: v)()', '(lambda *, v=%s: v)()', '[v for v in [1] if %s]', '{%s: v for v in [1]}',
                   '{1: %s for v in [1]}', '{v for v in [1] for u in [%s]}', '(1 < 2 < %s)', '(1 in [%s])', '{**{1: %s}}', '[*[%s]]', '(1 if %s else 2)', '(%s)(1)', '(lambda: (yield %s))', 'np.zeros((2, 2))[0, %s]',
                   '(2 ** %s)', '(True and %s)', '%s[0]', 'np.linalg.norm([1], ord=%s)') % e
    return e


def bad_stmt(c):
    e = wrap(c, bad_expr(c))
    k = c.i(0, 28)
    nm = c.pick(*NAMES)
    if k == 22:
        return 'def fun(*, a=%s):\n    return 1\n%s = 1' % (e, nm)
    if k == 23:
        return 'for q in [1]:\n    %s = 1\nelse:\n    %s = %s' % (nm, nm, e)
    if k == 24:
        return 'try:\n    %s = 1\n%s\n    %s = %s' % (nm, c.pick('finally:', 'except ValueError:', 'except:'), nm, e)
    if k == 25:
        return 'try:\n    %s = 1\nexcept %s:\n    pass' % (nm, e)
    if k == 26:
        return 'if True:\n    %s = 1\nel%s' % (nm, c.pick('se:\n    %s = %s' % (nm, e), 'if %s:\n    pass' % e))
    if k == 27:
        return c.pick('%s, q = 1, %s', 'q = %s = %s', 'global %s\n%s', 'def fun(*a: %s, **k):\n    yield %s') % (nm, e)
    if k == 28:
        return 'while %s:\n    break' % e
    if k == 0:
        return c.pick('import os', 'import numpy', 'from os import system', 'import os as np', 'from numpy import *', 'import antigravity', 'from . import x')
    if k == 1:
        return 'class %s(object):\n    x = 1' % nm
    if k == 2:
        return '%s = 1\n%s' % (c.pick('getattr', 'eval', 'exec', 'open', '__import__', 'globals'), '%s = %s' % (nm, c.pick('eval("%s")' % PAY, 'getattr(np, "array")', 'open("owned", "w")', '__import__("os")', 'exec("1")', 'globals()')))
    if k == 3:
        a = c.pick('__class__', '__globals__', '__builtins__', '__subclasses__')
        return '%s = 1\n%s = (1).%s' % (a, nm, a)
    if k == 4:
        return 'def fun(a=%s):\n    return 1\n%s = 1' % (e, nm)
    if k == 5:
        return 'def fun():\n    return %s\n%s = 1' % (e, nm)
    if k == 6:
        return 'for q in [%s]:\n    %s = 1' % (e, nm)
    if k == 7:
        return 'if False:\n    %s = %s' % (nm, e)
    if k == 8:
        return 'while False:\n    %s = %s' % (nm, e)
    if k == 9:
        return 'try:\n    %s = %s\nexcept:\n    %s = 1' % (nm, e, nm)
    if k == 10:
        return 'assert True, %s' % e
    if k == 11:
        return '%s = [0]\n%s[0] = %s' % (nm, nm, e)
    if k == 12:
        return '%s = 0\n%s += %s' % (nm, nm, e)
    if k == 13:
        return 'with %s as %s:\n    pass' % (e, nm)
    if k == 14:
        return '@%s\ndef fun():\n    return 1' % c.pick('eval', 'property', 'exec', 'np.__class__', '(lambda f: eval)')
    if k == 15:
        return 'async def fun():\n    return 1'
    if k == 16:
        return c.pick('%s: int = 3' % nm, '(%s := 3)' % nm, '%s = f"{eval}"' % nm, '%s = f"{1}"' % nm, 'match 1:\n    case %s: pass' % nm, 'def fun():\n    nonlocal zz', 'type X = int')
    if k == 17:
        return '(1).%s = 3' % c.pick(*FORBIDDEN_ATTRS)
    if k == 18:
        return 'def fun(a: %s) -> 1:\n    return 1' % e
    if k == 19:
        return 'raise %s' % e
    if k == 20:
        return 'del %s' % c.pick('undefined_thing.x', 'np.__class__')
    return '%s = %s' % (nm, e)


@group('hostile', quick=2500, thorough=80000)
def hostile(c):
    mark = 'ran%d' % c.idx
    for f in ('owned', mark):
        if os.path.exists(f):
            os.remove(f)
    bad = bad_stmt(c)
    parts = ["np.savetxt('%s', [1, 2])" % mark] if c.coin(.7) else ["np.array([1.0]).tofile('%s')" % mark]
    pre = program(c, c.i(1, 3)) if c.coin() else ''
    post = program(c, c.i(1, 3)) if c.coin() else ''
    t = '\n'.join(p for p in parts + [pre, bad, post] if p)
    c.note(bad=bad)
    c.params['text'] = t
    try:
        ast.parse(t)
    except SyntaxError:
        pass
    cls = make(NAMES)
    old = sys.stdin
    sys.stdin = io.StringIO('1\n')
    err = None
    try:
        with watch(t) as ev:
            try:
                o = cls(t)
            except BaseException as e:
                err = e
    finally:
        sys.stdin = old
    c.true('rejected', isinstance(err, SyntaxError), 'ended with %r' % (err,))
    c.true('nothing executed', not os.path.exists(mark), 'the statement before the forbidden construct was executed')
    c.true('no arbitrary code', not os.path.exists('owned') and not ev, ev)


# every route to running or reading something outside, whatever is accepted
POOL = FORBIDDEN_CALLS + ['np', 'PolyLine', 'len', 'map', 'type', 'str', 'dict', 'filter', 'sorted', 'max', 'min', 'list', 'print', 'iter', 'next', 'super', 'isinstance', 'hasattr', 'format', 'zip', 'bytes', 'range', 'id', 'repr', 'input'] + NAMES
ATTR = FORBIDDEN_ATTRS + ['append', 'format', 'array', 'sum', 'x', 'y', 'copy', 'keys', 'items', 'values', 'get', 'update', 'save', 'frompyfunc', 'apply_along_axis', 'fromfunction', 'deprecate', 'source', 'info',
                          'loads', 'safe_eval', 'set_string_function', 'fromiter', 'tofile', 'view', 'piecewise', 'vdot', 'real', 'loadtxt', 'genfromtxt', 'recfromtxt', 'math', 'random']


def rexpr(c, d=0):
    k = c.i(0, 12) if d < 4 else c.i(0, 2)
    if k == 0:
        return c.pick('1', '2.5', "'os'", "'__import__(\"os\").getcwd()'", "'%s'" % PAY.replace("'", '"'), "'eval'", "'__builtins__'", '[]', '{}', '()', "'{0.__class__}'", "'x.npy'", 'None')
    if k in (1, 2):
        return c.pick(*POOL)
    if k in (3, 4):
        return '%s.%s' % (c.pick('np', 'np', rexpr(c, d + 1)), c.pick(*ATTR))
    if k in (5, 6, 7):
        return '%s(%s)' % (rexpr(c, d + 1), ', '.join([rexpr(c, d + 1) for _ in range(c.i(0, 3))]
                           + (['%s=%s' % (c.pick('key', 'dtype', 'axis', 'out'), rexpr(c, d + 1))] if c.coin(.3) else []) + (['**%s' % rexpr(c, d + 1)] if c.coin(.1) else [])))
    if k == 8:
        return '(%s)[%s]' % (rexpr(c, d + 1), rexpr(c, d + 1))
    if k == 9:
        return '(lambda: %s)' % rexpr(c, d + 1)
    if k == 10:
        return '[%s, %s]' % (rexpr(c, d + 1), rexpr(c, d + 1))
    if k == 11:
        return 'list(map(%s, [%s]))' % (rexpr(c, d + 1), rexpr(c, d + 1))
    return '[%s for q1 in [%s]]' % (rexpr(c, d + 1), rexpr(c, d + 1))


NODES = (ast.Import, ast.ImportFrom, ast.ClassDef, ast.Nonlocal, ast.AsyncFunctionDef, ast.Await, ast.AsyncFor, ast.AsyncWith)
NONAMES = set(FORBIDDEN_CALLS)
NOATTRS = set(a for a in FORBIDDEN_ATTRS)


def forbidden(t):
    for n in ast.walk(ast.parse(t)):
        if isinstance(n, NODES):
            return type(n).__name__
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NONAMES:
            return n.id
        if isinstance(n, ast.Attribute) and (n.attr in NOATTRS or n.attr.startswith('_')):
            return n.attr
    return None


@group('random programs', quick=3000, thorough=120000)
def rprog(c):
    L = []
    for _ in range(c.i(1, 4)):
        k = c.i(0, 5)
        e = rexpr(c, c.i(0, 2))
        L.append(e if k == 0 else '%s = %s' % (c.pick(*(NAMES + FORBIDDEN_CALLS[:12] if k == 1 else NAMES)), e) if k < 5 else 'def %s():\n    return %s' % (c.pick(*NAMES), e))
    t = '\n'.join(L)
    try:
        why = forbidden(t)
    except (SyntaxError, ValueError, RecursionError):
        return
    c.note(text=t)
    if os.path.exists('owned'):
        os.remove('owned')
    old = sys.stdin
    sys.stdin = io.StringIO('1\n')
    err = None
    st = np.get_printoptions()
    try:
        with watch(t) as ev:
            try:
                make(NAMES)(t)
            except BaseException as e:
                err = e
    finally:
        sys.stdin = old
        np.set_string_function(None); np.set_string_function(None, False)
        np.set_printoptions(**{k: v for k, v in st.items()})
    if why:
        c.true('rejected', isinstance(err, SyntaxError), '%s accepted: %r' % (why, err))
    ev = [e for e in ev if e[0] != 'import' or not any(q in e[1] for q in ("'numpy", 'encodings', 'unicodedata', '_strptime', 'colorsys', 'email', 'html'))]
    c.true('no arbitrary code', not os.path.exists('owned') and not ev, ev)


# ---------------------------------------------------------------- same problem, three ways
@group('three ways', quick=60, thorough=1500)
def three(c):
    m = c.pick('vr', 'vrw', 'vrc', 'unsat')
    p = specm.case(c, m, c.pick(2, 3, 4))
    t = specm.text(p, c)
    c.note(model=m, text=t)
    OUT = ('por', 'porwell', 'pors', 'porc', 'porw', 'pora', 'avp', 'avps', 'avpc', 'avpw', 'avpa', 'set', 'setw', 'seta')
    g = lambda o: {k: np.array(getattr(o, k)) for k in OUT if hasattr(o, k)}
    cls = specm.cls(m)
    o = c.call('text', cls, t)
    fn = 'input%d.py' % c.idx
    open(fn, 'w').write(t)
    with open(fn) as f:
        o2 = c.call('file', cls, f)
    os.remove(fn)
    o3 = cls()
    env = dict(np=np, PolyLine=PolyLine)
    exec(t, env)
    for k in o3._attributes:
        if k in env:
            setattr(o3, k, env[k])
    for k in o._attributes:
        if k in env:
            c.true('attribute set', same(getattr(o, k), env[k]), k)
        else:
            c.true('other attributes initial', same(getattr(o, k), getattr(cls(), k)), k)
    r = []
    for q in (o, o2, o3):
        c.call('runs', q.make_all)
        r.append(g(q))
    for q in r[1:]:
        for k in r[0]:
            c.close('same ' + k, q[k], r[0][k], rtol=0, atol=0)


# ---------------------------------------------------------------- declared rules
def rules(c, names):
    sub = lambda a, b: [str(v) for v in c.rng.permutation(names)[:c.i(a, b)]]
    r = {}
    if c.coin(.5):
        r['_zero_or_all'] = [sub(2, 4) for _ in range(c.i(1, 3))]
    if c.coin(.5):
        r['_at_least_one'] = [sub(1, 3) for _ in range(c.i(1, 3))]
    if c.coin(.5):
        r['_one_implies_others'] = [sub(2, 4) for _ in range(c.i(1, 3))]
    if c.coin(.5):
        r['_attributes_that_should_be_lists'] = sub(1, 4)
    if c.coin(.3):
        r['_attributes_that_should_have_same_len_pairs'] = [sub(2, 2) for _ in range(c.i(1, 2))]
    if c.coin(.5):
        r['_attributes_to_force_same_len'] = [sub(2, 3) for _ in range(c.i(1, 2))]
    return r


@group('declared rules', quick=1500, thorough=30000)
def declared(c):
    names = ['a1', 'b1', 'c1', 'd1', 'e1']
    r = rules(c, names)
    xl = c.coin(.3)
    vals = {}
    for n in names:
        if c.coin(.65):
            vals[n] = [round(c.u(0, 9), 2) for _ in range(c.i(1, 3))] if c.coin(.85) else (c.i(1, 3) if '_attributes_to_force_same_len' not in r and '_attributes_that_should_have_same_len_pairs' not in r else [1])
    if xl:
        pls = {}
        for n in ('p1', 'p2', 'p3'):
            if c.coin(.75):
                x1 = c.pick(1, 1, 1, 2)
                pls[n] = 'PolyLine([0, %d], [1, 2])' % x1 if c.coin() else '[PolyLine([0, 1], [1, 2]), PolyLine([%s, %d], [1, 3])]' % (c.pick('0', '0', '.5'), x1)
        r['_attributes_that_should_have_same_x_limits'] = [['p1', 'p2', 'p3']]
    else:
        pls = {}
    allnames = names + (['p1', 'p2', 'p3'] if xl else [])
    cls = make(allnames, None, **r)
    t = '\n'.join(['%s = %r' % kv for kv in vals.items()] + ['%s = %s' % kv for kv in pls.items()])
    c.note(rules={k: v for k, v in r.items()}, text=t)
    o = c.call('reads', cls, t)
    # what must happen
    has = lambda n: n in vals or n in pls
    want = None
    for s in r.get('_zero_or_all', []):
        if 0 < sum(has(n) for n in s) < len(s):
            want = want or 'combination'
    for s in r.get('_at_least_one', []):
        if not any(has(n) for n in s):
            want = want or 'combination'
    for s in r.get('_one_implies_others', []):
        if has(s[0]) and not all(has(n) for n in s[1:]):
            want = want or 'combination'
    exp = {n: vals.get(n) for n in names}
    if want is None:
        for n in r.get('_attributes_that_should_be_lists', []):
            if exp[n] is not None and not isinstance(exp[n], list):
                exp[n] = [exp[n]]
        for s in r.get('_attributes_to_force_same_len', []):
            if exp[s[0]] is not None:
                for n in s[1:]:
                    if exp[n] is None:
                        exp[n] = [None] * len(exp[s[0]])
        if xl:
            lim = set()
            for n, v in pls.items():
                for q in (eval(v, dict(PolyLine=PolyLine)) if v.startswith('[') else [eval(v, dict(PolyLine=PolyLine))]):
                    lim.add((float(q.x[0]), float(q.x[-1])))
            if len(lim) > 1:
                want = 'x limits'
        for a, b in r.get('_attributes_that_should_have_same_len_pairs', []):
            if exp[a] is not None and exp[b] is not None:
                if not isinstance(exp[a], list) or not isinstance(exp[b], list):
                    want = 'type'
                elif len(exp[a]) != len(exp[b]):
                    want = want or 'length'
    if want:
        c.raises('refused', (ValueError, TypeError), o.check_input_attributes)
    else:
        c.call('accepted', o.check_input_attributes)
        for n in names:
            c.true('value after checking', same(getattr(o, n), exp[n]), '%s = %r want %r' % (n, getattr(o, n), exp[n]))


@group('model rules', quick=250, thorough=4000)
def modelrules(c):
    """leave something out of, or add half of something to, a valid problem"""
    m = c.pick('vr', 'vrw', 'vrc', 'unsat')
    p = specm.case(c, m, 2)
    t = specm.text(p)
    lines = [l for l in t.split('\n') if l.strip()]
    env = dict(np=np, PolyLine=PolyLine)
    exec(t, env)
    cls = specm.cls(m)
    ref = cls()
    have = [k for k in ref._attributes if k in env and env[k] is not None]
    drop = set(c.pick(*have) for _ in range(c.i(1, 2)))
    left = [k for k in have if k not in drop]
    has = lambda n: n in left or getattr(ref, n) is not None
    bad = False
    for s in getattr(ref, '_zero_or_all', []):
        bad |= 0 < sum(has(n) for n in s) < len(s)
    for s in getattr(ref, '_at_least_one', []):
        bad |= not any(has(n) for n in s)
    for s in getattr(ref, '_one_implies_others', []):
        bad |= has(s[0]) and not all(has(n) for n in s[1:])
    if not bad:
        return
    keep = [l for l in lines if l.split('=')[0].strip() not in drop]
    t2 = '\n'.join(keep)
    c.note(model=m, dropped=sorted(drop))
    c.params['text'] = t2
    o = c.call('reads', cls, t2)
    c.raises('refused before calculation', ValueError, o.make_all)
    c.true('nothing calculated', not any(hasattr(o, k) for k in ('por', 'set', 'avp', 'gam', 'psi', 'eigs')))


@group('initialisation code', quick=300, thorough=3000)
def initcode(c):
    names = [n for n in NAMES if c.coin(.6)] or ['H']
    dflt = {n: c.pick(1, 2.5, 'text', [1, 2], None, (1, 2), True) for n in names if c.coin(.5)}
    nf = c.pick(None, 7)
    c.note(names=names, defaults=dflt, nf=nf)

    class Q(object):
        pass
    o = Q()
    iop.initialize_objects_attributes(o, names, dflt, nf)
    c.true('initialised', vars(o) == {n: dflt.get(n, nf) for n in names}, vars(o))
    o2 = Q()
    o2._attribute_defaults = dflt
    dn = c.pick('_attribute_defaults', None)
    s = iop.code_for_explicit_attribute_initialization(names, dflt, dn, 'o2', nf)
    exec(s, dict(o2=o2))
    d = vars(o2).copy()
    d.pop('_attribute_defaults')
    c.true('same by code', d == vars(o), (d, vars(o)))
    o3 = Q()
    src = Q()
    for n in names:
        if c.coin():
            setattr(src, n, c.i(0, 9))
    iop.copy_attributes_between_objects(src, o3, names, dflt, nf)
    c.true('copied', vars(o3) == {n: vars(src).get(n, dflt.get(n, nf)) for n in names}, vars(o3))


@group('names of modules', quick=300, thorough=6000)
def modules(c):
    """no input text, accepted or not, changes numpy, PolyLine or builtins for the rest of the process"""
    import builtins
    held = (np, PolyLine, builtins, np.linalg, np.random)
    before = [dict(vars(h)) for h in held]
    base = c.pick('np', 'np', 'numpy', 'PolyLine', 'q', 'str', 'np.linalg', 'np.ndarray', '[np][0]', '(np)', '(lambda: np)()', 'len')
    attr = c.pick('cos', 'pi', 'array', 'linspace', 'x', 'x1', 'y', 'sum', 'e', 'sin', 'copy', 'norm', 'append')
    tgt = base + '.' + attr
    k = c.pick('%s = 3', '%s += 1', 'for %s in [1, 2]:\n    pass', 'v = [0 for %s in [1]]', '(%s, v) = 1, 2', '[v, *%s] = 1, 2, 3', 'v = %s = 4', 'del %s',
                'def fun():\n    %s = 3\nfun()', '%s: float = 3', 'if True:\n    %s = None', 'for v in [1]:\n    %s = v', 'try:\n    %s = 3\nfinally:\n    v = 1',
                'with open("x") as %s:\n    pass', 'np, PolyLine = 3, %s', 'v = lambda: 0\nv.x = %s', 'global np\n%s = 3', 'try:\n    v = 1/0\nexcept Exception as np:\n    pass')
    st = (k % tgt if '%s' in k else k) if c.coin(.9) else \
        c.pick('np = 3', 'PolyLine = None', 'len = 3', 'def np():\n    return 3', 'global len\nlen = 3', 'for np in [3]:\n    pass')
    t = ('q = np\n' if 'q' in tgt.split('.') else '') + st + '\na0 = 1\n'
    c.note(text=t)
    cls = make(NAMES)
    try:
        with watch(t):
            cls(t)
    except Exception:
        pass
    try:
        for h, b in zip(held, before):
            v = vars(h)
            ch = [k for k in set(v) | set(b) if v.get(k, c) is not b.get(k, c) and not k.startswith('__')]
            c.true('modules are as they were', not ch, '%s: %s changed by\n%s' % (h.__name__, ch, t))
    finally:
        for h, b in zip(held, before):
            for k in set(vars(h)) | set(b):
                if vars(h).get(k, c) is not b.get(k, c) and not k.startswith('__'):
                    if k in b:
                        setattr(h, k, b[k])
                    else:
                        delattr(h, k)
