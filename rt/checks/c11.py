"""C11: the netCDF output of random runs is read back and compared record by record with a model of what each particle was at each output."""
import os

import numpy as np

from rt.core import rng_for
from rt.gen import choice, workdir
from rt.outmodel import Sim

RULE = ('runs with random release times, deletions, repeated release, output intervals aligned or not with dt, several execute calls on one file, '
        'write-once/hidden variables and write-on-delete; non-trivial = distinct (mode, direction, alignment, features, number of records class)')
REQUIRED = {'records': 5000, 'trajectories': 800, 'deletion_records': 150, 'once_values': 300, 'ondelete_files': 20, 'outputs': 1500, 'multi_execute': 150}
ASSUMPTIONS = ['times, dt and intervals are exactly representable', 'values are chosen exactly representable in the file\'s storage type',
               'a particle added by hand at an instant that has already been written is first recorded at the next output time']


def scenarios(tier, seed):
    n = 600 if tier == 'quick' else 9000
    return [{'seed': seed, 'k': k} for k in range(n)]


def run(scn, rec):
    import parcels as P
    rng = rng_for('C11', scn['seed'], scn['k'])
    mode = choice(rng, ['jit', 'scipy'])
    with workdir():
        name = choice(rng, ['out', 'out.nc', 'd/run1.nc', 'once/res', 'a_once_b.nc', os.path.join(os.getcwd(), 'abs')])
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        sim = Sim(P, rng, mode, name=name)
        sim.make()
        pf = sim.file()
        sim.run(pf)
        ctx = sim.describe()
        if not sim.records:
            pf.close() if sim.ondelete is False else None
            pf.convert_at_end = False
            rec.event('empty_runs')
            return
        tmp = pf.tempwritedir_base
        how = choice(rng, ['close', 'export', 'del'])
        if how == 'close':
            pf.close()
            if os.path.exists(tmp):
                rec.violation('tempfiles', 'temporary output left behind after close', dir=tmp, **ctx)
        elif how == 'export':
            pf.export()
            pf.convert_at_end = False
        else:
            del pf
        path = name if name.endswith('.nc') else name + '.nc'
        if not os.path.exists(path):
            rec.violation('no-file', 'output file was not created', how=how, **ctx)
            return
        prob, det = sim.check_file(path)
        if prob:
            rec.violation('output-' + prob, 'output file differs from the run (%s)' % prob, details=det, **ctx)
            return
        ndel = len(sim.records) - sum(1 for s in sim.alive if s['id'] in sim.records)
        rec.event('records', det)
        rec.event('trajectories', len(sim.records))
        rec.event('deletion_records', ndel)
        rec.event('outputs', sim.outputs)
        if sim.once:
            rec.event('once_values', len(sim.onces))
        if sim.ondelete:
            rec.event('ondelete_files')
        if len(sim.lens) > 1:
            rec.event('multi_execute')
        rec.state(mode, sim.sign, sim.aligned, sim.rep is not None, sim.once, sim.ondelete, sim.hide, len(sim.lens), ndel > 0, min(det // 5, 6), sim.addlater)
        rec.setsample(records=det, trajectories=len(sim.records), first={str(k): [r['time'] for r in v] for k, v in list(sim.records.items())[:3]}, **ctx)
        np.random.seed(0)
