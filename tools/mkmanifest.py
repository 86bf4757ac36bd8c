"""Regenerates /verif/MANIFEST.json from the checks present in mc/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        n = NOTES.get(i, {})
        checks.append(dict(property=i,
                           quick_cmd='python3 run.py %s --tier quick' % i,
                           thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=n.get('technique', 'bounded exhaustive explicit-state exploration of the real code against a reference model'),
                           level='model_checking',
                           level_note=n.get('note', 'Every execution within the stated alphabets and depth is run on the real code and compared with an independent reference; nothing is claimed outside the bounds.')))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the random source, allocation and cluster seams are installed from outside by mc/boot.py.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
