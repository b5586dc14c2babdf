"""Write MANIFEST.json from the checks that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=t.get('technique', 'runtime monitoring: online monitors with an independent oracle over randomized hostile workloads'),
                           level='exploration',
                           level_note=t.get('note', 'Held on the executions generated from the seed; nothing is claimed for inputs the workload does not draw.')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in the repository are needed: monitors wrap public functions and compare recorded executions with independent oracles.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not built')
