"""C12: every crash point of the output writer is snapshotted (file system tree after each open/partial write/close) and converted afterwards; restarted sets are compared with the stored and with the uninterrupted run."""
import builtins
import os
import shutil

import numpy as np

from rt.core import rng_for
from rt.gen import choice, workdir
from rt.outmodel import Sim, Grow, STEPVARS, step

RULE = ('crash: random runs whose temporary output tree is copied at crash points inside the writer (file opened/half written/closed, before and '
        'after renames) and after write calls, converted, and compared with the records of completed writes; '
        'restart: sets recreated from output at last/first/given time, ids kept or not, continued; non-trivial = distinct (part, features, crash point kind, progress)')
REQUIRED = {'crash_snapshots': 1200, 'snapshots_inside_write': 500, 'snapshots_after_write': 400, 'restarts': 100, 'restored_particles': 200,
            'continued_particles': 150, 'fresh_ids': 100, 'kernel_error_runs': 15}
ASSUMPTIONS = ['a crash keeps all bytes handed to the operating system before it (process kill, not power loss)',
               'before the first record is completely written nothing has to be recoverable',
               'adaptive time steps are not part of the stored state', 'a particle deleted exactly at the restart time is restored too (the file does not store deletion)']
_open, _replace, _rename = builtins.open, os.replace, os.rename


def scenarios(tier, seed):
    n = 160 if tier == 'quick' else 2500
    return ([{'part': 'crash', 'seed': seed, 'k': k} for k in range(n)] + [{'part': 'restart', 'seed': seed, 'k': k} for k in range(n)]
            + [{'part': 'advect', 'seed': seed, 'k': k} for k in range(n // 8)] + [{'part': 'kerror', 'seed': seed, 'k': k} for k in range(n // 4)])


def run(scn, rec):
    rng = rng_for('C12', scn['part'], scn['seed'], scn['k'])
    with workdir() as d:
        globals()[scn['part']](rng, rec, d)


class Proxy(object):
    """File object that lets the monitor look at the disk in the middle of a write."""

    def __init__(self, f, snap):
        self._f, self._snap = f, snap
        f.flush()
        snap('opened')

    def write(self, b):
        b = bytes(b)
        h = len(b) // 2
        self._f.write(b[:h])
        self._f.flush()
        self._snap('half-written')
        self._f.write(b[h:])
        self._f.flush()
        return len(b)

    def close(self):
        if not self._f.closed:
            self._f.flush()
            self._snap('written')
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)


def crash(rng, rec, d):
    import parcels as P
    from parcels.scripts import convert_npydir_to_netcdf as conv
    mode = choice(rng, ['jit', 'scipy'])
    name = choice(rng, ['out', 'out.nc', 'sub/res.nc', 'x_once'])
    os.makedirs('run/sub')
    os.chdir('run')
    sim = Sim(P, rng, mode, name=name)
    sim.make()
    kw = {}
    if rng.random() < .4:
        kw['tempwritedir'] = choice(rng, ['tmpout', 'sub/keep'])
    pf = sim.file(convert_at_end=False, **kw)
    pf.add_metadata('who', 'monitor')
    base = pf.tempwritedir_base
    absbase = os.path.abspath(base)
    snaps = []   # (dir, key, inclusive or None for inside)
    cur = [None]
    budget = [16]
    p_in = choice(rng, [.03, .08, .25])

    def snap(kind, force=False):
        key = cur[0]
        if key is None or budget[0] <= 0:
            return
        if rng.random() > (.45 if force else p_in):
            return
        budget[0] -= 1
        sd = os.path.join(d, 'snap%d' % len(snaps))
        shutil.copytree(absbase, os.path.join(sd, base))
        os.makedirs(os.path.join(sd, 'sub'), exist_ok=True)
        snaps.append((sd, key, kind))

    def myopen(file, mode='r', *a, **k):
        f = _open(file, mode, *a, **k)
        if isinstance(file, (str, os.PathLike)) and ('w' in mode or 'a' in mode) and 'b' in mode and os.path.abspath(str(file)).startswith(absbase):
            return Proxy(f, snap)
        return f

    def mk(fn):
        def w(a, b, *x, **k):
            snap('before-rename')
            r = fn(a, b, *x, **k)
            snap('after-rename')
            return r
        return w
    cls = type(pf)
    orig = cls.write
    calls = [0]

    def write(self, pset, time, deleted_only=False):
        calls[0] += 1
        t = time.total_seconds() if hasattr(time, 'total_seconds') else float(time)
        cur[0] = (sim.call, sim.sign * t, 0 if deleted_only is not False else 1)
        r = orig(self, pset, time, deleted_only=deleted_only)
        snap('after', force=True)
        cur[0] = None
        return r
    cls.write = write
    builtins.open, os.replace, os.rename = myopen, mk(_replace), mk(_rename)
    try:
        sim.run(pf)
    finally:
        cls.write = orig
        builtins.open, os.replace, os.rename = _open, _replace, _rename
    ctx = sim.describe()
    full = name if name.endswith('.nc') else name + '.nc'
    for sd, key, kind in snaps:
        os.chdir(sd)
        rec.event('crash_snapshots')
        before, after = sim.prefix(key, False), sim.prefix(key, True)
        allowed = [after] if kind == 'after' else [before, after]
        rec.event('snapshots_after_write' if kind == 'after' else 'snapshots_inside_write')
        try:
            conv.convert_npydir_to_netcdf(base)
        except Exception as e:
            if not allowed[0]:
                rec.event('nothing_recoverable_yet')
                continue
            rec.violation('lost-output', 'output written before an interruption (%s) could not be converted: %s: %s' % (kind, type(e).__name__, e),
                          at=key, point=kind, files=sorted(os.listdir(os.path.join(sd, base, '0'))), completed={str(k): len(v) for k, v in before.items()}, **ctx)
            return
        if not allowed[0]:
            continue
        probs = [sim.check_file(full, records=a) for a in allowed if a]
        if all(p[0] for p in probs):
            rec.violation('interrupted-output-differs', 'output converted after an interruption (%s) differs from what had been written: %s' % (kind, probs[0][0]),
                          at=key, point=kind, details=probs[0][1], **ctx)
            return
        rec.state('crash', kind, mode, sim.once, sim.ondelete, sim.rep is not None, min(len(before), 5), key[2])
    os.chdir(d)
    rec.setsample(part='crash', snapshots=[(k[1], k[2]) for k in snaps][:6], write_calls=calls[0], **ctx)


def kerror(rng, rec, d):
    """A run that ends with an exception; its output is then closed."""
    import parcels as P
    from parcels.tools.statuscodes import KernelError
    mode = choice(rng, ['jit', 'scipy'])
    sim = Sim(P, rng, mode, name='out', repeat=False)
    sim.lens, sim.life[:] = [12], 10**6
    sim.ondelete = False
    sim.make()
    m = int(rng.integers(1, 12))
    for p in sim.pset:
        p.life = 10**6
    sim.fs.add_constant('failat', float(sim.starts[0] + sim.dt * m))
    sim.fs.add_constant('half', abs(sim.dt) / 4)
    pf = sim.file(convert_at_end=False)
    cur = min(sim.sign * s['time'] for s in sim.alive) * sim.sign
    try:
        sim.pset.execute(sim.pset.Kernel(Grow) + sim.pset.Kernel(FailAt), endtime=cur + 12 * sim.dt, dt=sim.dt, output_file=pf)
    except Exception as e:
        if isinstance(e, KernelError) or 'error' in type(e).__name__.lower():
            rec.event('kernel_error_runs')
        sim.execute_model(cur + 12 * sim.dt, None)
        tfail = sim.fs.failat
        # everything up to the last output before the failing step must be there
        keys = [k for k, ids in sim.batches if sim.sign * (tfail - k[1] * sim.sign) >= -1e-9]
        recs = sim.prefix(max(keys), True) if keys else {}
        if not recs:
            return
        pf.close()
        prob, det = sim.check_file('out.nc', records=recs)
        if prob:
            rec.violation('error-output-differs', 'output closed after a kernel error differs from what was written before it: %s' % prob, details=det,
                          failat=tfail, **sim.describe())
        rec.state('kerror', mode, sim.sign, len(recs), m)
        return
    rec.event('kernel_error_not_reached')


def FailAt(particle, fieldset, time):
    if particle.time > fieldset.failat - fieldset.half and particle.time < fieldset.failat + fieldset.half:
        return ErrorCode.Error  # noqa


from parcels.tools.statuscodes import ErrorCode  # noqa: E402


def restart(rng, rec, d):
    import parcels as P
    mode = choice(rng, ['jit', 'scipy'])
    sim = Sim(P, rng, mode, name='out', ondelete=False)
    sim.hide = None
    fs = None
    dated = rng.random() < .4
    if dated:
        t = np.datetime64('2001-02-03T04:05:06') + np.arange(3) * np.timedelta64(1, 'D')
        z = np.zeros((3, 4, 4), np.float32)
        ax = np.linspace(-1e5, 1e5, 4, dtype=np.float32)
        fs = P.FieldSet.from_data({'U': z, 'V': z}, {'lon': ax, 'lat': ax, 'time': t}, mesh='flat', allow_time_extrapolation=True)
    sim.make(fs)
    pf = sim.file()
    sim.run(pf)
    pf.close()
    if not sim.records:
        return
    times = sorted({r['time'] for v in sim.records.values() for r in v})
    kind = choice(rng, ['none', 'min', 'value', 'value', 'last'])
    if kind == 'none':
        arg, T = None, max(times)
    elif kind == 'min':
        arg, T = np.nanmin, min(times)
    else:
        T = choice(rng, times) if kind == 'value' else (max(times) if sim.sign > 0 else min(times))
        arg = t[0] + np.timedelta64(int(round(T * 1000)), 'ms') if dated else T
    expect = {i: r for i, v in sim.records.items() for r in v if r['time'] == T}
    keepids = rng.random() < .7
    newproc = rng.random() < .5
    pc2 = sim.pclass()
    if newproc:
        pc2.setLastID(0)
    lastid = int(pc2.lastID)
    p2 = P.ParticleSet.from_particlefile(sim.fs, pclass=pc2, filename='out.nc', restart=keepids, restarttime=arg, lonlatdepth_dtype=sim.dtype)
    ctx = dict(kind=kind, T=T, restart=keepids, newproc=newproc, dated=dated, **sim.describe())
    got = {int(p.id): {v: float(getattr(p, v)) for v in STEPVARS} for p in p2}
    want = {i: {v: float(r[v]) for v in STEPVARS} for i, r in expect.items()}
    rec.event('restarts')
    rec.event('restored_particles', len(want))
    if len(got) != len(p2):
        rec.violation('restart-duplicate-ids', 'a restarted set has duplicate identifiers', ids=[int(p.id) for p in p2], **ctx)
        return
    if keepids:
        if got != want:
            rec.violation('restart-state', 'a set created from an output file differs from the stored state', got=got, expected=want, **ctx)
            return
        if sim.once:
            for p in p2:
                if (float(p.o1), float(p.o2)) != tuple(float(x) for x in sim.onces[int(p.id)]):
                    rec.violation('restart-once', 'a write-once variable is not restored', id=int(p.id), got=(float(p.o1), float(p.o2)),
                                  expected=sim.onces[int(p.id)], **ctx)
                    return
    else:
        if sorted(map(repr, got.values())) != sorted(map(repr, want.values())):
            rec.violation('restart-state', 'a set created from an output file (new ids) differs from the stored state', got=got, expected=want, **ctx)
            return
        if min(got) < lastid:
            rec.violation('restart-reused-ids', 'new ids asked for but old ones used', got=sorted(got), lastID=lastid, **ctx)
            return
    # continue: same trajectories, with fresh ids for new particles
    model = {i: dict(g, o1=0, o2=0, hid=0) for i, g in got.items()}
    taken = set(sim.records) if keepids else set(got)
    if not newproc:
        taken |= set(sim.records)
    new = P.ParticleSet(sim.fs, pclass=pc2, lon=[1., 2.], lat=[0., 0.], time=[T, T], lonlatdepth_dtype=sim.dtype)
    nid = [int(p.id) for p in new]
    if set(nid) & (taken | set(got)):
        rec.violation('restart-fresh-ids', 'particles created after a restart got identifiers already used', new=nid, used=sorted(taken), **ctx)
        return
    rec.event('fresh_ids', len(nid))
    if rng.random() < .5:
        p2.add(new)
    n = int(rng.integers(1, 8))
    kwargs = {}
    if rng.random() < .4:
        kwargs['output_file'] = p2.ParticleFile('out2', outputdt=abs(sim.dt) * int(rng.integers(1, 4)))
    p2.execute(Grow, endtime=T + n * sim.dt, dt=sim.dt, **kwargs)
    fin = {int(p.id): {v: float(getattr(p, v)) for v in STEPVARS} for p in p2}
    for i, s in model.items():
        for _ in range(n):
            step(s, sim.dt)
        if fin.get(i) != {v: float(s[v]) for v in STEPVARS}:
            rec.violation('restart-continuation', 'continuing from an output file differs from the uninterrupted run', id=i, got=fin.get(i), expected=s, **ctx)
            return
    rec.event('continued_particles', len(model))
    rec.state('restart', mode, kind, keepids, newproc, dated, sim.sign, sim.once, min(len(want), 4), sim.rep is not None)
    if kwargs:
        kwargs['output_file'].close()
    rec.setsample(part='restart', restored=len(want), **ctx)


def advect(rng, rec, d):
    """Uninterrupted run against a run restarted from its output, in a space and time varying flow."""
    import parcels as P
    mode = choice(rng, ['jit', 'scipy'])
    sg = choice(rng, [1, 1, -1])
    nt, ny, nx = 6, 5, 6
    lon, lat = np.linspace(0, 10, nx), np.linspace(0, 8, ny)
    t = np.arange(nt) * 10.
    fs = P.FieldSet.from_data({'U': rng.normal(0, .05, (nt, ny, nx)).astype(np.float32), 'V': rng.normal(0, .05, (nt, ny, nx)).astype(np.float32)},
                              {'lon': lon, 'lat': lat, 'time': t}, mesh='flat')
    pc = P.JITParticle if mode == 'jit' else P.ScipyParticle
    n = 6
    dtype = choice(rng, [np.float32, np.float64])
    start = 0. if sg > 0 else 50.
    ps = P.ParticleSet(fs, pclass=pc, lon=rng.uniform(3, 7, n), lat=rng.uniform(3, 6, n), time=[start] * n, lonlatdepth_dtype=dtype)
    pf = ps.ParticleFile('o', outputdt=2.)
    cut = start + sg * 2 * int(rng.integers(1, 12))
    K = choice(rng, [P.AdvectionRK4, P.AdvectionEE])
    ps.execute(K, endtime=cut, dt=sg * 1., output_file=pf)
    pf.close()
    b = P.ParticleSet.from_particlefile(fs, pclass=pc, filename='o.nc', restarttime=None if sg > 0 else np.nanmin, lonlatdepth_dtype=dtype)
    end = start + sg * 40
    ps.execute(K, endtime=end, dt=sg * 1.)
    b.execute(K, endtime=end, dt=sg * 1.)
    A = {int(p.id): (float(p.lon), float(p.lat), float(p.time)) for p in ps}
    B = {int(p.id): (float(p.lon), float(p.lat), float(p.time)) for p in b}
    rec.event('advected_restarts')
    rec.event('continued_particles', n)
    if set(A) != set(B) or any(not np.allclose(A[i], B[i], rtol=0, atol=1e-5) for i in A):
        rec.violation('restart-advection', 'a restarted advection differs from the uninterrupted one', A=A, B=B, mode=mode, sign=sg, cut=cut)
    rec.state('advect', mode, sg, cut, K.__name__)
