"""Rewrite the 'fixed' entries of known_findings.json from the fix: commits in
the repository and the property each concerns (PROP, by commit subject start).
Run by hand; checks never call it."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, 'harness', 'fixprops.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
kf = json.load(open(os.path.join(V, 'known_findings.json')))
keep = [e for e in kf['findings'] if e.get('status') == 'known']
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    ps = [p for k, p in PROP.items() if s[5:].startswith(k)]
    if not ps:
        print('no property for', l)
        continue
    for p in ps[0].split('/'):
        fixed.append(dict(status='fixed', property=p, commit=h, what=s[5:], entry='fixed: property=%s %s %s' % (p, h, s[5:])))
json.dump(dict(findings=keep + fixed), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed', len(keep), 'known')
