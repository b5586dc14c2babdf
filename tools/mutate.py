"""Development tool (no check uses it): how many small source changes does a
check notice?  python3 tools/mutate.py C09 geotecha/piecewise/x.py [--n 60]
[--fn name,..] [--seed 0].  Works on scratch copies, never on /repo."""
import ast, sys, os, random, subprocess, argparse, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

SW = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is']}


def mutants(src, fns):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def seg(n):
        return b[pos(n):pos(n, True)].decode()

    def rep(n, new, why):
        out.append((n.lineno, why, (pos(n), pos(n, True), new)))

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            f = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                f = fn + [ch.name]
                if isinstance(ch, ast.FunctionDef) and ch.name.startswith('test'):
                    continue
            if isinstance(ch, ast.If) and isinstance(ch.test, ast.Compare) and isinstance(ch.test.left, ast.Name) and ch.test.left.id == '__name__':
                continue
            if isinstance(ch, ast.Raise):
                continue
            ok = f and (not fns or any(x in f for x in fns))
            if ok:
                if isinstance(ch, ast.BinOp) and type(ch.op) in SW and not (isinstance(ch.op, ast.Add) and (isinstance(ch.left, ast.Constant) and isinstance(ch.left.value, str))):
                    rep(ch, '(%s) %s (%s)' % (seg(ch.left), SW[type(ch.op)], seg(ch.right)), '%s -> %s' % (seg(ch)[:60], SW[type(ch.op)]))
                elif isinstance(ch, ast.Compare) and len(ch.ops) == 1 and type(ch.ops[0]) in CMP:
                    for o in CMP[type(ch.ops[0])]:
                        rep(ch, '(%s) %s (%s)' % (seg(ch.left), o, seg(ch.comparators[0])), '%s -> %s' % (seg(ch)[:60], o))
                elif isinstance(ch, ast.Constant) and isinstance(ch.value, bool):
                    rep(ch, str(not ch.value), '%s -> %s (line)' % (ch.value, not ch.value))
                elif isinstance(ch, ast.Constant) and isinstance(ch.value, (int, float)):
                    rep(ch, repr(ch.value + 1), '%r -> %r' % (ch.value, ch.value + 1))
                elif isinstance(ch, ast.UnaryOp) and isinstance(ch.op, ast.USub) and not isinstance(ch.operand, ast.Constant):
                    rep(ch, '(%s)' % seg(ch.operand), 'drop - in %s' % seg(ch)[:50])
                elif isinstance(ch, ast.BoolOp):
                    rep(ch, (' or ' if isinstance(ch.op, ast.And) else ' and ').join('(%s)' % seg(v) for v in ch.values), 'and/or %s' % seg(ch)[:60])
                elif isinstance(ch, (ast.AugAssign,)):
                    rep(ch, 'pass', 'drop %s' % seg(ch)[:60])
                elif isinstance(ch, ast.If):
                    rep(ch.test, 'not (%s)' % seg(ch.test), 'negate if %s' % seg(ch.test)[:60])
            walk(ch, f)
    walk(tree, [])
    # drop mutants in strings/docstrings implicitly (AST based)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('file'); ap.add_argument('--n', type=int, default=60)
    ap.add_argument('--fn', default=''); ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--j', type=int, default=8); ap.add_argument('--line', type=int)
    ap.add_argument('--args', default='')
    a = ap.parse_args()
    src = open('/repo/' + a.file).read()
    ms = mutants(src, [f for f in a.fn.split(',') if f])
    if a.line:
        ms = [m for m in ms if m[0] == a.line]
    random.Random(a.seed).shuffle(ms)
    tot = len(ms)
    b = src.encode()
    ms = [(l, w, (b[:i] + t.encode() + b[j:]).decode()) for l, w, (i, j, t) in ms[:a.n]]
    root = tempfile.mkdtemp(prefix='mut', dir='/dev/shm')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    import queue
    q = queue.Queue()
    for k in range(a.j):
        d = os.path.join(root, 'r%d' % k)
        os.makedirs(d)
        subprocess.check_call(['cp', '-a', '/repo/geotecha', d + '/geotecha'])
        q.put(d)

    def run(m):
        d = q.get()
        try:
            try:
                compile(m[2], 'x', 'exec')
            except SyntaxError:
                return m, 'syntax', ''
            open(os.path.join(d, a.file), 'w').write(m[2])
            env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '/out', VERIF_NPROC='1', TMPDIR='/dev/shm')
            rc = 0
            for prop in a.prop.split(','):
                try:
                    p = subprocess.run([here + '/check.sh', prop] + a.args.split(), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired:
                    return m, 'timeout', ''
                rc = p.returncode
                if rc:
                    break
            return m, rc, p.stdout.decode(errors='replace')
        finally:
            open(os.path.join(d, a.file), 'w').write(src)
            q.put(d)
    import collections
    res = collections.Counter()
    surv = []
    with ThreadPoolExecutor(a.j) as ex:
        for m, rc, o in ex.map(run, ms):
            res[rc] += 1
            if rc != 1 and rc != 'syntax':
                surv.append((m[0], m[1], rc))
    shutil.rmtree(root)
    print(a.prop, a.file, 'candidates', tot, 'run', len(ms), dict(res))
    for s in sorted(surv, key=lambda t: t[0]):
        print('  survived line %d: %s [%s]' % s)


main()
