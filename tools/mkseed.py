"""usage: mkseed.py SPEC.py -- SPEC defines SEEDS: list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo) ; writes /verif/seeded/<id>/ (helper, not a check)."""
import json, os, runpy, subprocess, sys, tempfile, shutil
spec = runpy.run_path(sys.argv[1])
for s in spec['SEEDS']:
    w = tempfile.mkdtemp(prefix='mks')
    subprocess.run(['git', '-C', os.environ.get('RT_REPO', '/repo'), 'worktree', 'prune'])
    subprocess.check_call('git -C ${RT_REPO:-/repo} archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (w, w), shell=True)
    for f, old, new in s['edits']:
        t = open(os.path.join(w, f)).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(os.path.join(w, f), 'w').write(t.replace(old, new))
    d = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    shutil.rmtree(w)
    o = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', s['id'])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, 'patch.diff'), 'w').write(d)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    open(os.path.join(o, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(o, 'demo.sh'), 'w').write('''#!/bin/bash
# runs demo.py against the parcels of the current directory, in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$R" TMPDIR="$W" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
cd "$W" && /opt/venv/bin/python "$D/demo.py"
''')
    print(s['id'])
