"""C12 saved reports, output numbering, batch processing."""
import os, sys, csv, io, re, glob, hashlib, logging, shutil, copy
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import pandas as pd
import fbuild
fbuild.inject('plain')
from vh import group
import specm
import beamcase
import geotecha.beam_on_foundation.specbeam as sb
import geotecha.inputoutput.inputoutput as iop
from geotecha.inputoutput.inputoutput import InputFileLoaderCheckerSaver, GenericInputFileArgParser
from geotecha.piecewise.piecewise_linear_1d import PolyLine

RULE = ('Files are written into fresh directories holding random earlier files, read back with an independent reader and'
        ' compared with the arrays they report; digests of all earlier files are compared before and after.')
ASSUMPTIONS = ['Prefixes contain no path separators; one analysis object stands for one output set.']
NUM = [0]


def fresh(c):
    NUM[0] += 1
    d = os.path.abspath('d%d_%d' % (c.idx, NUM[0]))
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    return d


def digest(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        if r != d:
            out[os.path.relpath(r, d) + '/'] = 'dir'
    return out


PREFIX = ['out', 'a', 'run_', 'out.', 'a+b', 'case(1)', 'x[2]_', 'speccon1dvr_', 'o$t', 'A b', 'out2_', 'é_', 'a1', '^out', 'out*', 'a|b']


def populate(c, d, prefix):
    names = []
    for _ in range(c.i(0, 6)):
        n = c.pick(c.i(0, 30), c.i(0, 12000))
        s = c.pick(prefix, prefix, prefix, 'out', 'b', 'z' + prefix, prefix + 'x') + str(n).zfill(c.pick(1, 3, 4, 6)) + c.pick('', '.txt', '_input_original.py', '_data_por.csv', 'x', '7', '_2', '/')
        p = os.path.join(d, s.rstrip('/'))
        if os.path.exists(p):
            continue
        if s.endswith('/'):
            os.mkdir(p)
        else:
            open(p, 'w').write('earlier %s' % s)
        names.append(s.rstrip('/'))
    for s in (prefix, prefix + 'abc', 'unrelated.txt'):
        if c.coin(.3) and not os.path.exists(os.path.join(d, s)):
            open(os.path.join(d, s), 'w').write('x')
            names.append(s)
    return names


def numbers(names, prefix):
    """the numbers following the prefix"""
    out = []
    for n in names:
        if n.startswith(prefix):
            k = len(prefix)
            e = k
            while e < len(n) and n[e] in '0123456789':
                e += 1
            if e > k:
                out.append(int(n[k:e]))
    return out


@group('numbering', quick=600, thorough=10000)
def numbering(c):
    d = fresh(c)
    prefix = c.pick(*PREFIX)
    names = populate(c, d, prefix)
    start, inc, zf = c.pick(1, 1, 0, 7), c.pick(1, 1, 2, 10), c.pick(3, 4, 1, 6)
    c.note(prefix=prefix, names=names, start=start, inc=inc, zfill=zf)
    nums = numbers(names, prefix)
    cwd = os.getcwd()
    kw = dict(start=start, inc=inc, zfill=zf)
    if c.coin(.2):
        kw = {}
        start, inc, zf = 1, 1, 3
    if c.coin(.5):
        s = c.call('next stem', iop.next_output_stem, prefix, path=d, overwrite=False, **kw)
    else:
        os.chdir(d)
        try:
            s = c.call('next stem', iop.next_output_stem, prefix, **kw)
        finally:
            os.chdir(cwd)
    c.true('prefix and digits', s.startswith(prefix) and s[len(prefix):].isdigit() and len(s) - len(prefix) >= zf, s)
    n = int(s[len(prefix):])
    c.true('no clash', n not in nums and not any(x == s or (x.startswith(s) and not x[len(s):len(s) + 1].isdigit()) for x in names), s)
    c.true('next number', n == (max(nums) + inc if nums else start), (s, nums))
    s2 = c.call('overwriting', iop.next_output_stem, prefix, path=d, overwrite=True, **kw)
    c.true('last number again', int(s2[len(prefix):]) == (max(nums) if nums else start), (s2, nums))
    c.raises('missing directory', ValueError, iop.next_output_stem, prefix, path=os.path.join(d, 'nowhere'))
    c.true('directory untouched', sorted(os.listdir(d)) == sorted(set(names)))
    shutil.rmtree(d)


def rfloat(c):
    return c.pick(c.u(-1, 1), c.logu(1e-300, 1e300), -c.logu(1e-9, 1e9), 0.0, 1 / 3., float(c.i(-9, 9)), 1e22, -0.1, 123456789.123456789)


def read_csv(fn, header, sep=','):
    with open(fn, newline='') as f:
        t = f.read()
    if header is not None:
        assert t.startswith(header + '\n'), (t[:200], header)
        t = t[len(header) + 1:]
    return list(csv.reader(io.StringIO(t), delimiter=sep))


@group('grids', quick=500, thorough=8000)
def grids(c):
    d = fresh(c)
    open(os.path.join(d, 'unrelated'), 'w').write('1')
    ds, exp = [], []
    k = c.pick(1, 1, 2, 3)
    for j in range(k):
        nr, nc = c.i(1, 5), c.i(1, 4)
        A = np.array([[rfloat(c) for _ in range(nc)] for _ in range(nr)])
        if c.coin(.2):
            A = np.array([[c.i(-99, 99) for _ in range(nc)] for _ in range(nr)])
        one = nc == 1 and c.coin(.3)
        q = dict(data=A[:, 0] if one else (A.tolist() if c.coin(.2) else A))
        col = None
        if c.coin(.7):
            col = [c.pick('%.3g', 'z %.2f', '%.1f to 2', 'a,b%.0f', 'q"%.0f')  % c.u(0, 9) + '_%d' % i for i in range(nc)]
            q['column_labels'] = list(col)
        row = None
        if c.coin(.7):
            row = [rfloat(c) for _ in range(nr)] if c.coin() else ['r %d' % i for i in range(nr)]
            q['row_labels'] = np.array(row) if c.coin() else list(row)
            if c.coin(.6):
                q['row_labels_label'] = c.pick('Time', 'x, y')
        if c.coin(.5):
            q['header'] = c.pick('one line', 'a: 1\nb: 2\n', '')
        sep = ','
        if c.coin(.3):
            sep = c.pick(',', ';', '\t')
            q['df_kwargs'] = dict(sep=sep)
        if k > 1 or c.coin(.5):
            q['name'] = '_data%d' % j
        ds.append(q)
        exp.append((A, col, row, sep))
    if k > 1 and c.coin(.2):
        ds.append(dict(name='_nothing', data=None))
    arg = ds[0] if len(ds) == 1 and c.coin(.5) else ds
    stem, ext = c.pick('out_007', 'a b', 'x.1'), c.pick('.csv', '.txt', '.dat')
    cd = c.coin()
    sub = os.path.join(d, 'new') if c.coin(.3) else d
    before = copy.deepcopy(ds)
    c.note(stem=stem, ext=ext, create=cd, dicts=[{a: (b if a != 'data' else np.shape(b)) for a, b in q.items()} for q in ds])
    c.call('saves', iop.save_grid_data_to_file, arg, directory=sub, file_stem=stem, create_directory=cd, ext=ext)
    out = os.path.join(sub, stem) if cd else sub
    want = set(os.path.relpath(os.path.join(out, stem + q.get('name', '') + ext), d) for q in ds if q['data'] is not None)
    got = set(k for k in digest(d) if not k.endswith('/')) - {'unrelated'}
    c.true('files', got == want, (got, want))
    for q, (A, col, row, sep) in zip(ds, exp):
        fn = os.path.join(out, stem + q.get('name', '') + ext)
        try:
            T = read_csv(fn, q.get('header'), sep)
        except AssertionError as e:
            c.fail('header', e)
            continue
        nr, nc = A.shape
        head, body = T[0], T[1:]
        lead = ['idex'] + ([q.get('row_labels_label', 'item')] if row is not None else [])
        c.true('labels', head == lead + (list(col) if col is not None else [str(i) for i in range(nc)]), head)
        c.true('rows', len(body) == nr and all(len(r) == len(head) for r in body), body)
        vals = np.array([[float(v) for v in r[len(lead):]] for r in body])
        c.close('values', vals, A.astype(float), rtol=1e-15, elem=True)
        c.true('row numbers', [r[0] for r in body] == [str(i) for i in range(nr)])
        if row is not None:
            rl = [r[1] for r in body]
            c.true('row labels', all(abs(float(a) - b) <= 1e-15 * abs(b) for a, b in zip(rl, row)) if not isinstance(row[0], str) else rl == row, (rl, row))
    for a, b in zip(ds, before):
        c.true('caller keeps its data', set(a) == set(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) if k == 'data' and b[k] is not None else np.all(a[k] == b[k]) if k == 'row_labels' else a[k] == b[k] for k in b), sorted(a))
    # as a table already
    df = pd.DataFrame({'u': [1.5, 2.25], 'v': [3.0, 4.0]})
    c.true('table passes through', iop.make_array_into_dataframe(df) is df)
    shutil.rmtree(d)


GRID = {'vr': dict(por='ppress_z', avp='avg_ppress_z_pairs', set='settlement_z_pairs'),
        'vrw': dict(por='ppress_z', porwell='ppress_z', avp='avg_ppress_z_pairs', set='settlement_z_pairs'),
        'vrc': dict(por='ppress_z', pors='ppress_z', porc='ppress_z', avp='avg_ppress_z_pairs', avps='avg_ppress_z_pairs', avpc='avg_ppress_z_pairs', set='settlement_z_pairs'),
        'unsat': dict(porw='ppress_z', pora='ppress_z', avpw='avg_ppress_z_pairs', avpa='avg_ppress_z_pairs', set='settlement_z_pairs', setw='settlement_z_pairs', seta='settlement_z_pairs')}


def report_files(c, o, base, kinds, ext, z0=0.0, sg=1.0, RL=None):
    """compare every grid file with the arrays of the object"""
    for nm, key in kinds.items():
        fn = base + '_data_' + nm + ext
        if getattr(o, key, None) is None:
            c.true('no file without output', not os.path.exists(fn), fn)
            continue
        if not c.true('file exists', os.path.exists(fn), fn):
            continue
        T = list(csv.reader(open(fn, newline='')))
        i = [k for k, r in enumerate(T) if r and r[0] == 'idex'][0]
        head, body = T[i], T[i + 1:]
        A = np.asarray(getattr(o, nm)).T
        c.close('reported ' + nm, np.array([[float(v) for v in r[2:]] for r in body]), A, rtol=1e-15, elem=True)
        tv = np.asarray(o.tvals)[getattr(o, key + '_tval_indexes')]
        c.close('reported times', np.array([float(r[1]) for r in body]), tv, rtol=1e-15, elem=True)
        H = o.H
        dep = lambda Z: (RL - H * Z) if RL is not None else H * Z
        zs = getattr(o, key)
        lab = ['%.3g' % dep(z) for z in zs] if key == 'ppress_z' else ['%.3g to %.3g' % (dep(a), dep(b)) for a, b in zs]
        c.true('depth labels', head[2:] == lab, (head[2:], lab))
        hd = open(fn).read().split('idex')[0]
        c.true('header names the run', o.title is None or o.title in hd, hd)


def strip(t):
    """parsed text without output requests"""
    return t + '\nsave_data_to_file = False\nsave_figures_to_file = False\n'


@group('model reports', quick=70, thorough=2500, cpu=120)
def reports(c):
    m = c.pick('vr', 'vrw', 'vrc', 'unsat')
    p = specm.case(c, m, c.pick(2, 3))
    d = fresh(c)
    prefix = c.pick(*PREFIX[:12])
    names = populate(c, d, prefix)
    many = c.coin(.1) and m in ('vr', 'vrw')
    if many:
        p['impl'] = 'vectorized'
    t = specm.text(p, c)
    cd = c.pick(True, False, None)
    x = ['save_data_to_file = True', 'directory = %r' % d, 'prefix = %r' % prefix]
    if cd is not None:
        x.append('create_directory = %r' % cd)
    ext, iext = c.pick('.csv', '.csv', '.txt'), c.pick('.py', '.py', '.inp')
    if ext != '.csv':
        x.append('data_ext = %r' % ext)
    if iext != '.py':
        x.append('input_ext = %r' % iext)
    if c.coin():
        x.append('title = %r' % c.pick('a title', "it's", 'back\\slash', 'percent %d {0}', 'two words "quoted"'))
    if c.coin():
        x.append('author = %r' % c.pick("O'Brien", 'me'))
    RL = None
    if c.coin(.4):
        RL = round(c.u(-5, 5), 2)
        x.append('RLzero = %r' % RL)
    if many or c.coin(.2):
        # many times, irrational ones
        p = dict(p)
        x.append('tvals = np.linspace(0.01, %r, %d)**%s' % (p['T'], 1010 if many else c.pick(5, 7), c.pick('2', '1.5', '0.5')))
        x += [k + '_tval_indexes = slice(None, None)' for k in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs')]
    t = t + '\n' + '\n'.join(x) + '\n'
    c.note(model=m, prefix=prefix, names=names)
    c.params['text'] = t
    cls = specm.cls(m)
    nums = numbers(names, prefix)
    before = digest(d)
    st = str(np.arange(3)) + repr(np.arange(3) / 3)
    runs = []
    for k in range(2):
        b4 = digest(d)
        o = c.call('reads', cls, t)
        c.call('runs', o.make_all)
        n = (max(nums) + 1 if nums else 1) + k
        stem = prefix + str(n).zfill(4)
        base = os.path.join(d, stem, stem) if cd is not False else os.path.join(d, stem)
        now = digest(d)
        c.true('earlier files kept', all(now.get(f) == h for f, h in b4.items()), [f for f in b4 if now.get(f) != b4[f]])
        new = set(now) - set(b4)
        c.true('new files only in the new set', new and all(f.startswith(stem) for f in new), (stem, sorted(new)[:4]))
        report_files(c, o, base, GRID[m], ext, RL=RL)
        org, par = base + '_input_original' + iext, base + '_input_parsed' + iext
        if not c.true('input echoed', os.path.exists(org) and os.path.exists(par), (org, sorted(new)[:4])):
            continue
        c.true('original input', open(org).read() == t)
        runs.append((o, open(par).read()))
    c.true('printing of arrays restored', st == str(np.arange(3)) + repr(np.arange(3) / 3))
    if not runs:
        return
    o, t2 = runs[0]
    o2 = c.call('parsed input is valid input', cls, strip(t2))
    c.call('parsed input runs', o2.make_all)
    for nm, key in GRID[m].items():
        if getattr(o, key) is not None:
            c.close('same ' + nm, getattr(o2, nm), getattr(o, nm), rtol=1e-12)
    c.true('same title', o2.title == o.title and o2.author == o.author, (o2.title, o.title))
    shutil.rmtree(d)


MAGIC = {'.png': b'\x89PNG', '.pdf': b'%PDF', '.svg': b'<?xml', '.eps': b'%!PS', '.jpg': b'\xff\xd8'}


def is_figure(c, fn, ext, size=None):
    if not c.true('figure file exists', os.path.isfile(fn), fn):
        return
    b = open(fn, 'rb').read()
    c.true('figure file has the format its name announces', b.startswith(MAGIC[ext]) and len(b) > 300, (fn, b[:8]))


@group('figures', quick=40, thorough=600, cpu=60)
def figures(c):
    """one file per figure, beside the data of the same run, in the format asked for"""
    d = fresh(c)
    prefix = c.pick(*PREFIX[:12])
    names = populate(c, d, prefix)
    nums = numbers(names, prefix)
    n = max(nums) + 1 if nums else 1
    stem = prefix + str(n).zfill(4)
    cd = c.pick(True, False, None)
    ext = c.pick(None, '.png', '.png', '.pdf', '.svg', '.eps')
    x = ['directory = %r' % d, 'prefix = %r' % prefix]
    if cd is not None:
        x.append('create_directory = %r' % cd)
    if ext is not None:
        x.append('figure_ext = %r' % ext)
    ext = ext or '.eps'
    data = c.coin()
    base = os.path.join(d, stem, stem) if cd is not False else os.path.join(d, stem)
    before = digest(d)
    plain = c.coin(.6)
    try:
        if plain:
            save = c.coin(.85)
            x += ['save_figures_to_file = %r' % save, 'save_data_to_file = %r' % data]
            c.note(prefix=prefix, names=names, ext=ext, save=save, data=data)

            class A(InputFileLoaderCheckerSaver):
                def _setup(self):
                    self._attributes = 'a b'.split()
            o = c.call('reads', A, '\n'.join(['a = 2'] + x) + '\n')
            k = c.i(0, 4)
            labs = [c.pick('', '', 'fig_%d' % i, 'pore pressure %d' % i, 'x.%d' % i) for i in range(k)]
            figs = []
            for i, l in enumerate(labs):
                f, ax = plt.subplots(figsize=(2, 1 + i % 2))
                ax.plot([0, i + 1], [i, 2])
                f.set_label(l)
                figs.append(f)
            one = k == 1 and c.coin()
            c.note(labels=labs, single=one)
            o._figures = figs[0] if one else figs if k or c.coin() else None
            order = [o._save_data, o._save_figures] if c.coin() else [o._save_figures, o._save_data]
            for f in order:
                c.call('saves', f)
            want = []
            if save:
                want = [base + '_' + (l or 'Figure_%02d' % i) + ext for i, l in enumerate(labs)]
            extra = [base + '_input_original.py', base + '_input_parsed.py'] if data else []
        else:
            m = c.pick('vr', 'vrw', 'vrc', 'unsat')
            p = specm.case(c, m, 2)
            skip = [k for k in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs') if c.coin(.3)][:2]
            t = '\n'.join(l for l in specm.text(p, c).split('\n') if not any(l.startswith(k) for k in skip))
            x += ['save_figures_to_file = True', 'save_data_to_file = %r' % data]
            t += '\n' + '\n'.join(x) + '\n'
            c.note(model=m, prefix=prefix, names=names, ext=ext, data=data)
            c.params['text'] = t
            o = c.call('reads', specm.cls(m), t)
            c.call('runs', o.make_all)
            grids = [k for k, v in GRID[m].items() if v not in skip]
            want = [base + '_fig_' + k + ext for k in grids + ['loads', 'materials']]
            extra = [base + '_input_original.py', base + '_input_parsed.py'] + [base + '_data_' + k + '.csv' for k in grids] if data else []
        now = digest(d)
        for fn in want:
            is_figure(c, fn, ext)
        new = set(f for f in set(now) - set(before) if not f.endswith('/'))
        ours = set(os.path.relpath(f, d) for f in want + extra)
        c.true('one file per figure and data set and nothing else', new == ours, (sorted(new - ours)[:3], sorted(ours - new)[:3]))
        c.true('earlier files kept', all(now.get(f) == h for f, h in before.items()), [f for f, h in before.items() if now.get(f) != h][:3])
        if want:
            c.true('different figures, different files', len(set(now[os.path.relpath(f, d)] for f in want if os.path.isfile(f))) == len(want), want)
    finally:
        plt.close('all')
    shutil.rmtree(d)


@group('overwrite', quick=60, thorough=800, cpu=40)
def overwrite(c):
    """overwrite=True reuses the last number and nothing else"""
    d = fresh(c)
    names = populate(c, d, 'out')
    nums = numbers(names, 'out')
    ow = c.coin()
    create = c.coin()

    class A(InputFileLoaderCheckerSaver):
        def _setup(self):
            self._attributes = 'a b'.split()
    t = 'a = %r\nsave_data_to_file = True\ndirectory = %r\noverwrite = %r\ncreate_directory = %r\n' % (c.u(0, 1), d, ow, create)
    c.note(names=names, overwrite=ow, create=create)
    before = digest(d)
    o = c.call('reads', A, t)
    A1 = np.array([[c.u(0, 1), c.u(0, 1)]])
    o._grid_data_dicts = dict(name='_g', data=A1)
    n = (max(nums) if ow else max(nums) + 1) if nums else 1
    stem = 'out' + str(n).zfill(4)
    base = os.path.join(d, stem, stem) if create else os.path.join(d, stem)
    if create and os.path.isfile(os.path.join(d, stem)):
        return
    c.call('saves', o._save_data)
    now = digest(d)
    ours = set(os.path.relpath(base, d) + s for s in ('_input_original.py', '_input_parsed.py', '_g.csv'))
    c.true('files', ours <= set(now), sorted(now))
    c.true('nothing else', set(now) - set(before) <= ours | {stem + '/'} and all(now.get(f) == h for f, h in before.items() if f not in ours), sorted(set(now) - set(before)))
    if not ow:
        c.true('nothing replaced', not (ours & set(before)))
    c.true('no saving unless asked', A('a = 3')._save_data() is None and digest(d) == now)
    shutil.rmtree(d)


LOG = []


class Rec(object):
    def __init__(self, f):
        isf = hasattr(f, 'read')
        t = f.read() if isf else open(f).read()
        self.f = f
        LOG.append(('open', isf, os.path.realpath(os.getcwd()), t.split('\n')[0], f.name if isf else f))
        if 'FAIL' in t:
            raise eval(t.split('FAIL')[1].split(';')[0])
        self.t = t

    def act(self, *a, **k):
        LOG.append(('act', a, k, self.t.split('\n')[0]))
        if 'LATE' in self.t:
            raise RuntimeError('late')

    def act2(self):
        LOG.append(('act2', self.t.split('\n')[0]))


@group('batch', quick=250, thorough=4000)
def batch(c):
    d = fresh(c)
    dirs = [d] + [os.path.join(d, s) for s in ('one', 'two dirs')]
    files = []
    for q in dirs[1:]:
        os.mkdir(q)
    k = 0
    for q in dirs:
        for _ in range(c.i(0, 4)):
            fn = os.path.join(q, c.pick('in', 'case', 'x.y', 'a b', 'inp-') + str(k) + c.pick('.py', '.py', '.txt', '.inp', ''))
            t = 'id%d\n' % k + c.pick('', '', '', 'FAIL ValueError("x");', 'FAIL ZeroDivisionError();', 'LATE', 'FAIL SyntaxError("x");')
            open(fn, 'w').write(t)
            files.append((fn, t))
            k += 1
        if c.coin(.15):
            fn = os.path.join(q, c.pick('inputoutput.py', '__init__.py', 'run.py'))
            t = 'id%d\n' % k
            open(fn, 'w').write(t)
            files.append((fn, t))
            k += 1
    # the running script is never its own input when directories are searched
    script = c.pick(*files)[0] if files and c.coin(.3) else None
    c.note(script=script and os.path.relpath(str(script), d), files=[(os.path.relpath(f, d), t) for f, t in files])
    pof = c.coin()
    methods = [('act', (1, 2), dict(z=3)), ('act2', (), {})] if c.coin(.7) else []
    P = GenericInputFileArgParser(Rec, pass_open_file=pof, methods=methods)
    cwd = os.getcwd()
    mode = c.pick('files', 'relative', 'dirs', 'pattern', 'here')
    LOG[:] = []
    lev = logging.getLogger().level
    logging.disable(logging.CRITICAL)
    here = str(c.pick(*dirs))
    os.chdir(here)
    import fnmatch
    argv0 = sys.argv[0]
    try:
        if script:
            script = str(script)
            sys.argv[0] = script if c.coin() else os.path.relpath(script, here)
        if mode in ('files', 'relative'):
            sel = [f for f in files if c.coin(.7)]
            c.rng.shuffle(sel)
            sel = [tuple(map(str, s)) for s in sel]
            if not sel:
                return
            miss = [os.path.join(d, 'missing.py'), os.path.join(d, 'nodir', 'x.py')] if c.coin(.2) else []
            arg = [f if mode == 'files' else os.path.relpath(f, here) for f, _ in sel]
            i = c.i(0, len(arg))
            argv = ['-f'] + arg[:i] + miss + arg[i:]
        else:
            pat = c.pick('*.py', '*.txt', '*', 'in*', '*[02468].py')
            argv = ['-d'] if mode == 'here' else ['-d'] + ([os.path.relpath(q, here) for q in dirs[1:]] if mode == 'dirs' else [dirs[1], dirs[0]])
            use = [here] if mode == 'here' else dirs[1:] if mode == 'dirs' else [dirs[1], dirs[0]]
            if pat == '*.py' and c.coin():
                argv += ['-p']
            else:
                argv += ['-p', pat]
            sel = [(f, t) for f, t in files if os.path.dirname(f) in use and f != script and fnmatch.fnmatchcase(os.path.basename(f), pat)]
            if not sel and not (d in use and pat == '*'):
                c.raises('nothing to do', (IOError, OSError), P.main, argv)
                return
        c.params['argv'] = argv
        c.call('batch runs', P.main, argv)
        c.true('working directory restored', os.path.realpath(os.getcwd()) == os.path.realpath(here), os.getcwd())
        c.true('logging level restored', logging.getLogger().level == lev)
    finally:
        os.chdir(cwd)
        sys.argv[0] = argv0
        logging.disable(logging.NOTSET)
    op = [e for e in LOG if e[0] == 'open']
    c.true('each file exactly once', sorted(e[3] for e in op) == sorted(t.split('\n')[0] for f, t in sel), ([e[3] for e in op], [t for f, t in sel]))
    wh = {t.split('\n')[0]: f for f, t in sel}
    for e in op:
        c.true('in the directory of the file', e[2] == os.path.realpath(os.path.dirname(wh.get(e[3], ''))), e)
        c.true('given as asked', e[1] == pof, e)
    ok = [t.split('\n')[0] for f, t in sel if 'FAIL' not in t]
    if methods:
        c.true('first method', sorted(e[3] for e in LOG if e[0] == 'act') == sorted(ok) and all(e[1] == (1, 2) and e[2] == dict(z=3) for e in LOG if e[0] == 'act'))
        late = {t.split('\n')[0] for f, t in sel if 'LATE' in t}
        c.true('second method', sorted(e[1] for e in LOG if e[0] == 'act2') == sorted(q for q in ok if q not in late))
    else:
        c.true('no methods', not [e for e in LOG if e[0] != 'open'])
    if mode in ('files', 'relative') and not miss:
        c.true('in the order given', [e[3] for e in op] == [t.split('\n')[0] for f, t in sel])
    c.raises('bad arguments', SystemExit, quiet, P.main, c.pick(['-p', '*.py'], ['-d', d], ['-f', 'a', '-d', d, '-p', '*'], ['-d', os.path.join(d, 'nowhere'), '-p', '*']))
    c.true('bad arguments do nothing', len([e for e in LOG if e[0] == 'open']) == len(op))
    shutil.rmtree(d)


def quiet(f, *a):
    e = sys.stderr
    sys.stderr = io.StringIO()
    try:
        return f(*a)
    finally:
        sys.stderr = e


@group('batch of models', quick=20, thorough=300, cpu=60)
def batchmodels(c):
    """real analyses, some failing: outputs land beside each input"""
    d = fresh(c)
    jobs = []
    m = c.pick('vr', 'vrw', 'vrc', 'unsat')
    for k in range(c.i(2, 4)):
        q = os.path.join(d, 'dir%d' % (k % 2))
        os.makedirs(q, exist_ok=True)
        p = specm.case(c, m, 2)
        t = specm.text(p, c)
        bad = c.coin(.35)
        if bad:
            t = c.pick(t + '\nimport os', '\n'.join(l for l in t.split('\n') if not l.startswith('tvals =')), t + '\nH = (')
        t += '\nsave_data_to_file = True\n' + 'prefix = "r%d_"\n' % k
        fn = os.path.join(q, 'in%d.py' % k)
        open(fn, 'w').write(t)
        jobs.append((fn, k, bad, t))
    c.note(model=m, jobs=[(f, b) for f, k, b, t in jobs])
    P = GenericInputFileArgParser(specm.cls(m), methods=[('make_all', [], {})])
    logging.disable(logging.CRITICAL)
    try:
        c.call('batch', P.main, ['-d', os.path.join(d, 'dir0'), os.path.join(d, 'dir1'), '-p'])
    finally:
        logging.disable(logging.NOTSET)
    for fn, k, bad, t in jobs:
        stem = 'r%d_0001' % k
        out = os.path.join(os.path.dirname(fn), stem)
        if bad:
            c.true('failed input leaves no report', not os.path.isdir(out), out)
            continue
        if c.true('report beside the input', os.path.isdir(out), out):
            o = specm.cls(m)(t.replace('save_data_to_file = True', ''))
            o.make_all()
            report_files(c, o, os.path.join(out, stem), GRID[m], '.csv')
    c.true('input files untouched', all(open(f).read() == t for f, k, b, t in jobs))
    shutil.rmtree(d)


@group('small things', quick=200, thorough=2000)
def small(c):
    s = c.pick(c.u(0, 60), c.u(0, 3600), c.logu(1, 1e6))
    c.note(seconds=s)
    r = c.call('hms', iop.hms_string, s)
    h, mi, se = r.split(':')
    c.true('time text', abs(int(h) * 3600 + int(mi) * 60 + float(se) - s) <= .00501 and 0 <= int(mi) < 60 and 0 <= float(se) <= 60 and len(mi) == 2 and len(se) == 5, r)
    cwd = os.getcwd()
    d = fresh(c)
    try:
        with iop.working_directory(d):
            c.true('changed', os.path.realpath(os.getcwd()) == os.path.realpath(d))
            if c.coin():
                raise KeyError
    except KeyError:
        pass
    c.true('restored', os.getcwd() == cwd)
    os.rmdir(d)
    # echo of attributes
    class Q(object):
        pass
    o = Q()
    want = {}
    for i in range(c.i(1, 6)):
        want['v%d' % i] = c.pick(None, c.u(-1, 1), c.i(-5, 5), 'text', "quo'te", 'li\nne', [1, 2.5], np.array([c.u(0, 1) for _ in range(3)]), [np.array([1 / 3., 2.0])], PolyLine([0, 1 / 3.], [c.u(0, 1), 2]),
                                 [PolyLine([0, 1], [1 / 7., 2])], dict(a=[1, np.arange(2)]), slice(1, None), np.linspace(0, 1, 1500), (1, None), True, np.arange(4), np.array([[1, 2.0 / 3]]))
    for k, v in want.items():
        setattr(o, k, v)
    names = list(want) + ['absent']
    nb = c.coin()
    t = c.call('echo', iop.string_of_object_attributes, o, names, none_at_bottom=nb)
    env = dict(np=np, PolyLine=PolyLine)
    try:
        exec(t, env)
    except Exception as e:
        c.fail('echo is valid Python', '%r in %s' % (e, t[:400]))
        return
    from checks.c11 import same
    for k, v in list(want.items()) + [('absent', None)]:
        c.true('echoed value', same(env[k], v), '%s: %r' % (k, v))
    lines = [l for l in t.split('\n') if re.match(r'^(v\d|absent) = ', l)]
    order = [l.split(' ')[0] for l in lines]
    c.true('order', order == (names if not nb else [n for n in names if want.get(n) is not None] + [n for n in names if want.get(n) is None]), order)
    c.true('array printing restored', str(np.arange(2)) == '[0 1]' and repr(np.arange(2)) == 'array([0, 1])')


@group('saved deflections', quick=60, thorough=1000, cpu=20)
def deflections(c):
    """saved beam deflections hold what was calculated, and a later run picks them up unless told to calculate"""
    d = fresh(c)
    n, pl, props, br, kf, k1, mu, tend = beamcase.config(c, 3)
    veh, own = beamcase.vehicles(c, 1, tend)
    t = np.r_[0, np.sort(c.u(0, 1, c.i(1, 5))) * tend, tend]
    x = np.r_[0, np.sort(c.u(0, 1, c.i(0, 5))), 1]
    dim = c.coin()
    stem = c.pick('specbeam_', 'a.b', 'run 1', 'x')
    kw = beamcase.build(c, n, pl, kf, k1, mu, tend, veh, None, t, x, dim)
    c.note(stem=stem, dim=dim, n=n, nx=len(x), nt=len(t))
    here = os.getcwd()
    os.chdir(d)
    try:
        open('other_defl_norm.csv', 'w').write('earlier')
        b4 = digest('.')
        a = c.call('SpecBeam', sb.SpecBeam, use_analytical=True, force_calc=True, file_stem=stem, **kw)
        c.call('runme', a.runme)
        c.true('nothing written before saving', digest('.') == b4, sorted(digest('.')))
        W, real = np.array(a.defl_norm), (np.array(a.defl) if dim else None)
        c.call('saveme', a.saveme)
        c.true('calculation kept', np.array_equal(W, a.defl_norm), 'changed')
        now = digest('.')
        c.true('files', set(now) - set(b4) == set([stem + '_defl_norm.csv'] + [stem + '_defl.csv'] * dim) and now['other_defl_norm.csv'] == b4['other_defl_norm.csv'], sorted(now))
        for fn, A, xs, ts, lab in [(stem + '_defl_norm.csv', W, a.xvals_norm, a.tvals_norm, 'x_norm')] + ([(stem + '_defl.csv', real, a.xvals, a.tvals, 'xvals')] if dim else []):
            T = list(csv.reader(open(fn, newline='')))
            c.true('header', T[0][:2] == ['idex', lab], T[0][:2])
            c.close('times', [float(v) for v in T[0][2:]], ts, rtol=1e-12, elem=True)
            c.close('positions', [float(r[1]) for r in T[1:]], xs, rtol=1e-15, elem=True)
            c.close('deflections', [[float(v) for v in r[2:]] for r in T[1:]], np.atleast_2d(A), rtol=1e-15, elem=True)
        # a second run
        b = sb.SpecBeam(use_analytical=True, force_calc=False, file_stem=stem, **kw)
        calls = []
        b.make_output = lambda f=b.make_output: (calls.append(1), f())
        c.call('runs again', b.runme)
        c.true('saved results are used', not calls, 'calculated')
        c.close('saved results', b.defl_norm, W, rtol=1e-14, elem=True)
        if dim:
            c.close('saved results in real units', b.defl, real, rtol=1e-12, elem=True)
            c.close('positions in real units', b.xvals, a.xvals, rtol=1e-12)
        b = sb.SpecBeam(use_analytical=True, force_calc=False, file_stem=stem, **kw)
        c.true('found', c.call('load_defl', b.load_defl) is True, 'not found')
        c.close('loaded results', b.defl_norm, W, rtol=1e-14, elem=True)
        if dim:
            c.close('loaded results in real units', b.defl, real, rtol=1e-12, elem=True)
        c.true('nothing to find', sb.SpecBeam(use_analytical=True, force_calc=False, file_stem='no' + stem, **kw).load_defl() is False, 'found')
        # another stem or force_calc: calculated
        open(stem + '_defl_norm.csv', 'w').write(open(stem + '_defl_norm.csv').read().replace('.', '7.'))
        b = sb.SpecBeam(use_analytical=True, force_calc=True, file_stem=stem, **kw)
        c.call('calculates', b.runme)
        c.true('asked to calculate', np.array_equal(b.defl_norm, W), 'differs')
        b = sb.SpecBeam(use_analytical=True, force_calc=False, file_stem=stem + 'z', **kw)
        c.call('calculates when nothing was saved', b.runme)
        c.true('nothing saved', np.array_equal(b.defl_norm, W), 'differs')
        if c.coin():
            open(stem + 'q_defl_norm.csv', 'w').write(c.pick('', 'junk'))
            b = sb.SpecBeam(use_analytical=True, force_calc=False, file_stem=stem + 'q', **kw)
            c.call('calculates when the file is no use', b.runme)
            c.true('file of no use', np.array_equal(b.defl_norm, W), 'differs')
    finally:
        os.chdir(here)
    shutil.rmtree(d)
