"""C24: randomised runs are executed alone and distributed with mpirun over 2-4 processes; the output file of the distributed run, the particles of each process
and the final states are compared with those of the single process: every trajectory exactly once, with the same values."""
import json
import os
import subprocess
import sys

import numpy as np

from ..gen import choice, workdir
from rt.core import rng_for

RULE = ('a scenario is a batch of runs for one number of processes (2-4), each with random particle numbers, positions (also coinciding ones), partition (automatic or '
        'explicit), release times or repeated releases, deletions, directions, output options and several execute calls; non-trivial = distinct combination of options')
REQUIRED = {'runs': 20, 'processes2': 4, 'processes3': 4, 'jit': 6, 'scipy': 6, 'explicit': 5, 'automatic': 5, 'repeated': 5, 'delayed': 5, 'deletions': 5, 'backward': 3,
            'several_executes': 5, 'once': 5, 'ondelete': 4, 'trajectories': 100, 'observations': 500, 'nonempty_ranks': 30}
ASSUMPTIONS = ['Open MPI on one machine; the numbers of particles are at least those of processes']
SCENARIO_TIMEOUT = 400
JOBS = 5
PROG = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'mpi_prog.py')
PER = 4


def scenarios(tier, seed):
    n = 14 if tier == 'quick' else 300
    return [{'seed': seed, 'k': k} for k in range(n)]


def config(rng, size):
    n = int(choice(rng, [size, size + 1, size + 3, 12]))
    c = dict(jit=bool(rng.random() < .5), u=float(choice(rng, [0., 1e-3])), v=0., once=bool(rng.random() < .4), p0=bool(rng.random() < .3),
             parray=bool(rng.random() < .5), depth=None, ondelete=bool(rng.random() < .3), limit=None, repeatdt=None, partitions=None, wall=99.)
    c['lon'] = [float(v) for v in np.round(rng.uniform(-5, 5, n), 2)]
    c['lat'] = [float(v) for v in np.round(rng.uniform(-5, 5, n), 2)]
    if rng.random() < .15:  # all at one place
        c['lon'], c['lat'] = [c['lon'][0]] * n, [c['lat'][0]] * n
    if rng.random() < .4:
        c['depth'] = [float(v) for v in rng.integers(0, 9, n)]
    if rng.random() < .5:
        part = [int(v) for v in rng.integers(0, size, n)]
        if rng.random() < .7:
            part[:size] = range(size)
            rng.shuffle(part)
        c['partitions'] = part
    back = rng.random() < .25
    c['dt'] = float(choice(rng, [50., 100.])) * (-1 if back else 1)
    c['outputdt'] = float(choice(rng, [100., 200., 300.]))
    q = rng.random()
    start = 6000. if back else 0.
    if q < .35:
        c['repeatdt'] = float(choice(rng, [200., 300.]))
        c['time'] = start if c['p0'] or back or rng.random() < .5 else None
    elif q < .75:
        c['time'] = [start + float(v) * 100 * (-1 if back else 1) for v in rng.integers(0, 8, n)]
    else:
        c['time'] = start
    if rng.random() < .5:
        c['limit'] = [float(v) for v in choice(rng, [[150., 350., 1e9], [150., 250.]])[rng.integers(0, 2, n)[:, None]].ravel()] if False else \
            [float(choice(rng, [150., 350., 550., 1e9])) for _ in range(n)]
    if rng.random() < .3:
        c['wall'] = float(choice(rng, [3., 5.]))
    c['runs'] = []
    for _ in range(int(choice(rng, [1, 1, 2, 3]))):
        c['runs'].append({'runtime': float(choice(rng, [300., 600., 900.]))})
    if len(c['runs']) == 1 and rng.random() < .3:
        c['runs'] = [{'endtime': start + (-1 if back else 1) * 900.}]
    return c


def launch(prefix, cfg, out, first, timeout):
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS='1', OMPI_MCA_rmaps_base_oversubscribe='1',
               OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_orte_tmpdir_base=out, OMPI_MCA_plm_rsh_agent='')
    env.pop('OMPI_MCA_plm_rsh_agent')
    p = subprocess.Popen(prefix + [sys.executable, PROG, cfg, out, str(first)], cwd=out, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        text, _ = p.communicate(timeout=timeout)
        return p.returncode, text
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 15)
        try:
            text, _ = p.communicate(timeout=5)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            text, _ = p.communicate()
        return None, text


def table(path):
    import netCDF4
    res = {}
    with netCDF4.Dataset(path) as d:
        d.set_auto_mask(False)
        ids = d.variables['trajectory'][:]
        for r in range(ids.shape[0]):
            good = ids[r] >= 0
            if not good.any():
                continue
            key = int(ids[r][good][0])
            rows = {v: d.variables[v][r][good] if d.variables[v].ndim == 2 else d.variables[v][r] for v in d.variables}
            if key in res:
                return None, key
            res[key] = rows
    return res, None


def run(scn, rec):
    rng = rng_for(scn['seed'], 'C24', scn['k'])
    size = [2, 3, 2, 4][scn['k'] % 4]
    cfgs = [config(rng, size) for _ in range(PER)]
    with workdir() as d:
        cfg = os.path.join(d, 'cfg.json')
        with open(cfg, 'w') as f:
            json.dump(cfgs, f)
        start = 0
        while start < PER:
            code, text = launch([], cfg, d, start, 40)
            last = max([start - 1] + [i for i in range(PER) if os.path.exists('done_%d_1' % i)])
            if code == 0:
                break
            if code is None and last + 1 > start:
                start = last + 1
                continue
            rec.violation('serial', 'a run in one process ends with %r' % code, output=text[-1500:], config=cfgs[last + 1])
            return
        start = 0
        while start < PER:
            code, text = launch(['mpirun', '-np', str(size)], cfg, d, start, 75)
            if code == 0:
                break
            done = [i for i in range(start, PER) if os.path.exists('done_%d_%d' % (i, size))]
            bad = (max(done) if done else start - 1) + 1
            if bad >= PER:
                break
            if code is None and bad > start:   # the time ran out during a run after others: it gets all of the time
                start = bad
                continue
            rec.violation('stops', 'the run distributed over %d processes %s' % (size, 'does not end' if code is None else 'ends with %r' % code),
                          output=text[-1500:], config=cfgs[bad])
            return
        for i, c in enumerate(cfgs):
            if not compare(rec, c, i, size):
                return


def compare(rec, c, i, size):
    rec.event('runs')
    rec.event('processes%d' % size)
    back = c['dt'] < 0
    for name, yes in (('jit', c['jit']), ('scipy', not c['jit']), ('explicit', c['partitions'] is not None), ('automatic', c['partitions'] is None),
                      ('repeated', c['repeatdt']), ('delayed', isinstance(c['time'], list)), ('backward', back), ('several_executes', len(c['runs']) > 1),
                      ('once', c['once']), ('ondelete', c['ondelete'])):
        if yes:
            rec.event(name)
    det = dict(config=c, processes=size)
    with open('rank_%d_1_0.json' % i) as f:
        alone = json.load(f)
    ranks = []
    for r in range(size):
        with open('rank_%d_%d_%d.json' % (i, size, r)) as f:
            ranks.append(json.load(f))
    if len(alone['last']) < len(alone['mine']) or c['limit']:
        rec.event('deletions')
    rec.event('nonempty_ranks', sum(bool(r['mine']) for r in ranks))
    if sorted(sum([r['mine'] for r in ranks], [])) != sorted(alone['mine']):
        rec.violation('distribution', 'particles of the processes: %s' % [r['mine'] for r in ranks], **det)
        return False
    if c['partitions'] is not None:
        for r in range(size):
            want = [j for j, q in enumerate(c['partitions']) if q == r]
            if sorted(ranks[r]['mine']) != want:
                rec.violation('partition', 'process %d has particles %s instead of %s' % (r, ranks[r]['mine'], want), **det)
                return False
    a, b = sorted(alone['last']), sorted(sum([r['last'] for r in ranks], []))
    if a != b:
        diff = [p for p in zip(a, b) if p[0] != p[1]][:3]
        rec.violation('final', '%d particles at the end instead of %d, first differences %s' % (len(b), len(a), diff), **det)
        return False
    one, dup = table('out_%d_1.nc' % i)
    many, dup2 = table('out_%d_%d.nc' % (i, size))
    if one is None or many is None:
        rec.violation('twice', 'trajectory %r is in the file twice' % (dup if one is None else dup2), **det)
        return False
    if set(one) != set(many):
        rec.violation('trajectories', 'trajectories %s are missing, %s are too many' % (sorted(set(one) - set(many)), sorted(set(many) - set(one))), **det)
        return False
    rec.event('trajectories', len(one))
    for key in one:
        if set(one[key]) != set(many[key]):
            rec.violation('variables', 'variables %s instead of %s' % (sorted(many[key]), sorted(one[key])), **det)
            return False
        rec.event('observations', int(one[key]['time'].size))
        for v in one[key]:
            if not np.array_equal(one[key][v], many[key][v], equal_nan=one[key][v].dtype.kind == 'f'):
                rec.violation('values', '%s of trajectory %d is %s instead of %s' % (v, key, many[key][v], one[key][v]), **det)
                return False
    rec.state(size, c['jit'], c['partitions'] is not None, bool(c['repeatdt']), isinstance(c['time'], list), back, len(c['runs']), c['once'], c['ondelete'])
    return True
