"""Write DESIGN.md: the hand-written parts below, what the check modules say
about themselves, the fixes/findings and the planted changes.  Run by hand."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = open(os.path.join(V, 'harness', 'design_intro.md')).read()
NOTES = {}
for blk in open(os.path.join(V, 'harness', 'design_notes.md')).read().split('\n## ')[1:]:
    k, _, t = blk.partition('\n')
    NOTES[k.strip()] = t.strip()


def module(pid):
    t = ast.parse(open(os.path.join(V, 'harness', 'checks', pid.lower() + '.py')).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    d['groups'] = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for k in n.decorator_list:
                if isinstance(k, ast.Call) and getattr(k.func, 'id', '') == 'group':
                    kw = {a.arg: getattr(a.value, 'value', '?') for a in k.keywords}
                    d['groups'].append((k.args[0].value, kw.get('quick', '?'), kw.get('thorough', '?')))
    return d


out = [INTRO.rstrip(), '', '# Per property', '']
kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    m = module(i)
    out += ['## %s %s' % (i, p['title']), '']
    if m.get('RULE'):
        out += ['*Workload and observation.* ' + m['RULE'], '']
    out += [NOTES.get(i, ''), '']
    if m['groups']:
        out += ['*Case groups (cases quick/thorough).* ' + ', '.join('%s (%s/%s)' % g for g in m['groups']) + '.', '']
    if m.get('ASSUMPTIONS'):
        out += ['*Domain.* ' + ' '.join(a.rstrip('.') + '.' for a in m['ASSUMPTIONS']), '']
    fx = [e for e in kf if e['property'] == i]
    n = sum(e['status'] == 'fixed' for e in fx)
    s = []
    if n:
        s.append('%d defect%s found and repaired in /repo (listed in known_findings.json)' % (n, 's' * (n > 1)))
    kn = [e['what'] for e in fx if e['status'] == 'known']
    if len(kn) > 5:
        s.append('%d known findings, recorded not repaired (listed in known_findings.json), of the kind: %s' % (len(kn), kn[0]))
    else:
        s += ['known finding, recorded not repaired: ' + w for w in kn]
    if s:
        out += ['*Found on the way.* ' + '; '.join(s) + '.', '']
out += ['# Planted changes', '',
        'Each was written from the property text and the code, confirmed in a scratch copy (builds, stable tests pass, demo tells the trees apart) with `tools/plant.py`, and is kept under seeded/. '
        '"caught" is the result of the quick check of the same property (VERIF_SEED=1) on a tree with the change.', '', '| change | property | needs | result |', '|---|---|---|---|']
res = json.load(open(os.path.join(V, 'harness', 'seeded_results.json')))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    k = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (k, m['property'], m['needs'], res.get(k, '?')))
out += ['', '# Repairs made in /repo', '']
for e in kf:
    if e['status'] == 'fixed':
        out.append('- %s `%s` %s' % (e['property'], e['commit'], e['what']))
out.append('')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(out), 'blocks')
