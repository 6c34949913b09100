"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = {
 'C01': 'runtime monitoring: ASan+UBSan instrumented kernels under hostile sampling workloads',
}
NOTE = ('Held on the executions explored (counts in the evidence file); random workloads seeded by VERIF_SEED; '
        'trusts the reference model in rt/checks and that compiling kernels at -O0/-O1 instead of -O3 keeps their meaning')
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'rt', 'checks', i.lower() + '.py')
    if os.path.exists(f):
        doc = open(f).read().split('"""')[1].strip().replace('\n', ' ')
        tech = TECH.get(i, 'runtime monitoring: ' + doc.split(':', 1)[1].strip())
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'technique': tech, 'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: monitors attach from /verif (kernels, recovery kernels, callbacks, output files, sanitizer builds of the generated C).'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
