"""Runs the configurations of a JSON file, alone or under mpirun: python mpi_prog.py CONFIG OUTDIR FIRST"""
import importlib.util
import json
import os
import signal
import sys

import numpy as np
import parcels as P
from mpi4py import MPI

signal.alarm(100)   # processes do not outlive an mpirun that was ended
KERNEL = '''
def Move%(i)d(particle, fieldset, time):
    (u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]
    particle.lon += u * particle.dt
    particle.lat += v * particle.dt
    particle.age += fabs_(particle.dt)
    particle.acc += 0.5 * fieldset.P[time, particle.depth, particle.lat, particle.lon]
    if particle.age > particle.limit:
        particle.delete()
    if particle.lon > %(wall)r:
        particle.delete()
'''


def gone(particle, fieldset, time):
    particle.delete()


def kernel(i, wall, tmp):
    path = os.path.join(tmp, 'kern_%d_%d.py' % (i, os.getpid()))
    with open(path, 'w') as f:
        f.write('import math\n' + (KERNEL % dict(i=i, wall=wall)).replace('fabs_', 'math.fabs'))
    spec = importlib.util.spec_from_file_location('kern_%d' % i, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return getattr(mod, 'Move%d' % i)


def main(cfgfile, out, first):
    comm = MPI.COMM_WORLD
    rank, size = comm.Get_rank(), comm.Get_size()
    with open(cfgfile) as f:
        cfgs = json.load(f)
    for i, c in enumerate(cfgs):
        if i < first:
            continue
        x, y = np.linspace(-10, 10, 5), np.linspace(-8, 8, 4)
        X, Y = np.meshgrid(x, y)
        t = np.array([-2e3, 0., 4e3, 8e3])
        mult = np.array([.5, 1., .8, 1.2])[:, None, None]
        fs = P.FieldSet.from_data({'U': ((c['u'] - 3e-4 * Y) * mult).astype(np.float32), 'V': ((c['v'] + 3e-4 * X) * mult).astype(np.float32),
                                   'P': ((X + 2 * Y) * mult).astype(np.float32)}, {'lon': x, 'lat': y, 'time': t}, mesh='flat')
        base = P.JITParticle if c['jit'] else P.ScipyParticle
        cls = type('MpiParticle', (base,), {'age': P.Variable('age', dtype=np.float64, initial=0.), 'acc': P.Variable('acc', dtype=np.float32, initial=0.),
                                            'limit': P.Variable('limit', dtype=np.float32, initial=1e9, to_write='once' if c['once'] else True),
                                            'tag': P.Variable('tag', dtype=np.int32, initial=-1), 'p0': P.Variable('p0', initial=fs.P if c['p0'] else 1.)})
        kw = {}
        if c['partitions'] is not None and size > 1:
            kw['partitions'] = np.array(c['partitions']) if c['parray'] else c['partitions']
        if c['repeatdt']:
            kw['repeatdt'] = c['repeatdt']
        if c['limit'] is not None:
            kw['limit'] = c['limit']
        pset = P.ParticleSet(fs, pclass=cls, lon=c['lon'], lat=c['lat'], depth=c['depth'], time=c['time'], tag=list(range(len(c['lon']))), **kw)
        mine = [int(p.tag) for p in pset]
        pf = pset.ParticleFile(os.path.join(out, 'out_%d_%d.nc' % (i, size)), outputdt=c['outputdt'], convert_at_end=True)
        if c['ondelete']:
            pf = pset.ParticleFile(os.path.join(out, 'out_%d_%d.nc' % (i, size)), outputdt=c['outputdt'], write_ondelete=True)
        kern = kernel(i, c['wall'], out)
        for run in c['runs']:
            if comm.allreduce(len(pset)) == 0:
                break
            pset.execute(kern, dt=c['dt'], output_file=pf, recovery={P.ErrorCode.ErrorOutOfBounds: gone}, **run)
        last = [[int(p.id), int(p.tag), float(p.lon), float(p.lat), float(p.age), float(p.time)] for p in pset]
        pf.close()
        comm.Barrier()
        with open(os.path.join(out, 'rank_%d_%d_%d.json' % (i, size, rank)), 'w') as f:
            json.dump({'mine': mine, 'last': last}, f)
        comm.Barrier()
        if rank == 0:
            open(os.path.join(out, 'done_%d_%d' % (i, size)), 'w').close()


main(sys.argv[1], sys.argv[2], int(sys.argv[3]))
