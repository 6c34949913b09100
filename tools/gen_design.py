"""Assembles DESIGN.md from tools/DESIGN.in.md, the check modules' docstrings, known_findings.json and seeded/ (helper)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    f = V + '/rt/checks/%s.py' % p['id'].lower()
    out.append('### %s %s\n' % (p['id'], p['title']))
    if not os.path.exists(f):
        out.append('Check not built yet.\n')
        continue
    t = ast.parse(open(f).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'ASSUMPTIONS', 'DESIGN', 'REQUIRED'):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append('*Monitor and oracle.* %s\n' % ast.get_docstring(t).split(':', 1)[1].strip().split('\n')[0])
    if 'DESIGN' in g:
        out.append('%s\n' % g['DESIGN'].strip())
    out.append('*Workload.* %s.\n' % g.get('RULE', '').rstrip('.'))
    if g.get('REQUIRED'):
        out.append('*Must be observed (else inconclusive).* %s.\n' % ', '.join('%s ≥ %d' % kv for kv in g['REQUIRED'].items()))
    if g.get('ASSUMPTIONS'):
        out.append('*Assumptions.* ' + '; '.join(g['ASSUMPTIONS']) + '.\n')
sec = '## Properties\n\n' + '\n'.join(out)
fnd = json.load(open(V + '/known_findings.json'))['findings']
fs = '\n'.join('* **%s** (%s) %s' % (f['property'], f['status'], f['what']) for f in fnd)
res = {}
if os.path.exists(V + '/tools/seed_results.txt'):
    for l in open(V + '/tools/seed_results.txt'):
        w = l.split(None, 1)
        res[w[0]] = w[1].strip()
sd = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    sd.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], res.get(s, '')))
ss = '| id | property | breaks | needs | check result |\n|---|---|---|---|---|\n' + '\n'.join(sd)
t = open(V + '/tools/DESIGN.in.md').read().replace('@@SECTIONS@@', sec).replace('@@FINDINGS@@', fs).replace('@@SEEDS@@', ss)
open(V + '/DESIGN.md', 'w').write(t)
