"""Assembles DESIGN.md: hand-written texts below, bounds and assumptions from the check modules, tables from seeded/ and known_findings.json."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
K = json.load(open(os.path.join(V, 'known_findings.json')))

INTRO = open(os.path.join(V, 'tools', 'design_intro.md')).read()
END = open(os.path.join(V, 'tools', 'design_end.md')).read()
TXT = {}
cur = None
for l in open(os.path.join(V, 'tools', 'design_props.md')):
    if l.startswith('## C'):
        cur = l.split()[1]; TXT[cur] = []
    elif cur: TXT[cur].append(l.rstrip())


def consts(pid):
    p = os.path.join(V, 'mc', 'checks', pid.lower() + '.py')
    d = {}
    if os.path.exists(p):
        for n in ast.parse(open(p).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
                d[n.targets[0].id] = ast.literal_eval(n.value)
            elif isinstance(n, ast.AugAssign) and getattr(n.target, 'id', '') == 'BOUNDS':
                d['BOUNDS'] += ast.literal_eval(n.value)
    return d


out = [INTRO]
out.append('# Properties\n')
for d in P:
    pid = d['id']
    c = consts(pid)
    out.append('## %s %s\n' % (pid, d['title']))
    out.append('\n'.join(TXT.get(pid, ['(text missing)'])).strip() + '\n')
    if c:
        out.append('*Bounds.* ' + c['BOUNDS'] + '\n')
        out.append('*Assumptions.* ' + '; '.join(c['ASSUMPTIONS']) + '.\n')
    fx = [k for k in K if k['property'] == pid and k['status'] == 'fixed']
    kn = [k for k in K if k['property'] == pid and k['status'] == 'known']
    if fx: out.append('*Defects found and repaired (%d).* ' % len(fx) + '; '.join('%s (%s)' % (k['what'].split(' ', 3)[3], k['commit']) for k in fx) + '.\n')
    for k in kn: out.append('*Known finding %s.* %s\n' % (k['id'], k['what']))
out.append('# Planted bugs\n\nEach is a patch in `seeded/<id>/`, confirmed to pass the existing tests and to fail its own demonstration.  '
           '"Caught" means that the quick check of its property exits 1 with it applied; "also" names other checks seen to report it.\n')
out.append('| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|')
res = {}
rp = os.path.join(V, 'tools', 'caught.json')
if os.path.exists(rp): res = json.load(open(rp))
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    b = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    out.append('| %s | %s | %s | %s | %s |' % (b, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), res.get(b, 'not recorded')))
out.append('\n' + END)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)))
