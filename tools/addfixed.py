"""addfixed.py FILE: append lines 'commit<TAB>property<TAB>what was fixed' to known_findings.json"""
import json, os, sys, re
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(f))
for l in open(sys.argv[1]):
    c, p, m = l.rstrip('\n').split('\t')
    what = 'fixed: property=%s %s %s' % (p, c, m)
    if any(e['what'] == what for e in d['findings']):
        continue
    d['findings'].append({'key': 'fixed-' + re.sub('[^a-z0-9]+', '-', m.lower())[:40].strip('-'), 'property': p, 'status': 'fixed', 'what': what})
with open(f, 'w') as o:
    o.write('{\n "findings": [\n' + ',\n'.join('  ' + json.dumps(e) for e in d['findings']) + '\n ]\n}\n')
