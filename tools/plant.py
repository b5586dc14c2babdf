"""Development tool: confirm one planted change and keep it under seeded/<id>/.

  python3 tools/plant.py spec.py      spec.py defines a list BUGS of dicts:
    id, property, file (below geotecha/), old, new, demo (python source),
    needs, breaks       [edits=[(file, old, new), ...] instead of file/old/new]

Works in a scratch copy of /repo; kept only when the change applies, builds,
keeps the stable tests passing and the demo tells the two trees apart."""
import sys, os, subprocess, json, shutil, runpy, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 where the behaviour is right, nonzero where it is not (cwd: the repository, built)
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def stable(tree):
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    out = tree + '.json'
    s = open('/opt/vp/test.sh').read().replace('bash /opt/vp/build_ext.sh\n', '').replace('/repo', tree)
    p = tree + '.sh'
    open(p, 'w').write(s)
    subprocess.run(['bash', p, out], capture_output=True, timeout=900)
    o = json.load(open(out))
    os.remove(out); os.remove(p)
    return sorted(b - set(o['passed']))


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only:
            continue
        tree = tempfile.mkdtemp(prefix='pl_', dir='/tmp') + '/repo'
        try:
            subprocess.run(['cp', '-a', '/repo', tree], check=True)
            sh('git checkout -q -- .', tree)
            d = os.path.join(tree + '_d')
            os.mkdir(d)
            open(d + '/demo.py', 'w').write(b['demo'])
            open(d + '/demo.sh', 'w').write(SH)
            r0 = sh('bash %s/demo.sh' % d, tree, 300)
            if r0.returncode:
                print(b['id'], 'DEMO FAILS CLEAN', r0.stderr[-400:]); continue
            bad = False
            for f, o, n in b.get('edits') or [(b['file'], b['old'], b['new'])]:
                p = os.path.join(tree, 'geotecha', f)
                s = open(p, newline='').read()
                if '\r\n' in s:
                    o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
                if s.count(o) != b.get('count', 1):
                    print(b['id'], 'MATCHES', s.count(o)); bad = True; break
                open(p, 'w', newline='').write(s.replace(o, n))
            if bad:
                continue
            if b.get('build'):
                s = open('/opt/vp/build_ext.sh').read().replace('/repo', tree).replace('/opt/vp/cache/stamps', tree + '_stamps')
                open(tree + '.b', 'w').write(s)
                if sh('bash %s.b' % tree, tree).returncode:
                    print(b['id'], 'BUILD FAILS'); continue
            r1 = sh('bash %s/demo.sh' % d, tree, 300)
            if r1.returncode == 0:
                print(b['id'], 'DEMO PASSES PATCHED'); continue
            miss = stable(tree)
            if miss:
                print(b['id'], 'STABLE TESTS FAIL', len(miss), miss[:2]); continue
            dest = os.path.join(V, 'seeded', b['id'])
            os.makedirs(dest, exist_ok=True)
            open(dest + '/patch.diff', 'w', newline='').write(subprocess.run(['git', 'diff', '--', 'geotecha'], cwd=tree, capture_output=True).stdout.decode('utf-8', 'surrogateescape'))
            shutil.copy(d + '/demo.py', dest); shutil.copy(d + '/demo.sh', dest)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(dest + '/meta.json', 'w'), indent=1)
            c = subprocess.run(['git', 'apply', '--check', dest + '/patch.diff'], cwd='/repo', capture_output=True, text=True)
            # does a check notice?
            env = dict(os.environ, VERIF_REPO=tree, VERIF_OUT=tree + '_o', VERIF_SEED='1')
            k = subprocess.run(['bash', V + '/check.sh', b['property']], env=env, capture_output=True, text=True, cwd=V)
            ev = [l for l in k.stdout.splitlines() if 'VIOLATION' in l]
            print(b['id'], 'KEPT apply=%d' % c.returncode, 'check exit', k.returncode, (ev or ['-'])[0][-120:], '| demo:', r1.stderr.strip().splitlines()[-1:][0][:120] if r1.stderr.strip() else '', flush=True)
        finally:
            shutil.rmtree(os.path.dirname(tree), ignore_errors=True)


main()
