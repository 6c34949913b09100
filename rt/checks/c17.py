"""C17: the same schedule of executions, additions and removals is run with all particles together and with the particles split over
smaller sets in other orders; final state, fate and logged errors of every particle must be identical."""
import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, workdir

RULE = ('a scenario is a field set (rectilinear or curvilinear, A- or C-grid, in memory or from file in chunks), a sum of kernels (advection '
        'schemes, sampling, conditional deletion, changing time steps, moving out of the domain with recovery) and a schedule; non-trivial = '
        'distinct scenario and split with at least one compared particle')
REQUIRED = {'particles_compared': 400, 'deleted': 20, 'errors': 40, 'changed_dt': 30, 'late_releases': 30, 'added_later': 40, 'removed_by_hand': 4,
            'chunked': 4, 'curvilinear': 15, 'rk45': 4, 'solo_runs': 60, 'jit': 30, 'scipy': 20}
ASSUMPTIONS = ['particles are compared bit by bit within one mode', 'positions are random, so that no particle is within rounding of a cell edge '
               'where two cells are equally right']


def scenarios(tier, seed):
    n = 110 if tier == 'quick' else 3000
    return [{'seed': seed, 'k': k} for k in range(n)]


def make_fields(P, rng, mode, rec):
    curvi, cgrid, deep = bool(rng.random() < .4), bool(rng.random() < .35), bool(rng.random() < .5)
    mesh = choice(rng, ['flat', 'spherical'])
    nx, ny, nz, nt = int(rng.integers(6, 12)), int(rng.integers(6, 12)), 4, 3
    tim = np.array([0., 32., 64.])
    if curvi:
        X, Y = np.meshgrid(np.arange(nx), np.arange(ny))
        a = rng.uniform(-.4, .4)
        lon, lat = (np.cos(a) * X - np.sin(a) * Y + .1 * np.sin(Y)), (np.sin(a) * X + np.cos(a) * Y + .1 * np.cos(X))
        rec.event('curvilinear')
    else:
        lon, lat = np.cumsum(rng.uniform(.6, 1.4, nx)), np.cumsum(rng.uniform(.6, 1.4, ny))
    dep = np.array([0., 1., 3., 6.])
    shape = (nt, nz, ny, nx) if deep else (nt, ny, nx)
    fac = 1852 * 60. if mesh == 'spherical' else 1.
    data = {'U': .04 * fac * rng.normal(size=shape) + .03 * fac, 'V': .04 * fac * rng.normal(size=shape), 'P': rng.uniform(0, 1, shape)}
    if deep:
        data['W'] = .01 * rng.normal(size=shape)
    data = {k: v.astype(np.float32) for k, v in data.items()}
    lon, lat, dep = lon.astype(np.float32), lat.astype(np.float32), dep.astype(np.float32)
    chunked = not curvi and bool(rng.random() < .35)
    if chunked:
        import xarray as xr
        names = ['time', 'depth', 'lat', 'lon'] if deep else ['time', 'lat', 'lon']
        co = {'time': tim, 'depth': dep, 'lat': lat, 'lon': lon}
        xr.Dataset({k: (names, v) for k, v in data.items()}, coords={k: co[k] for k in names}).to_netcdf('f.nc')
        c = int(choice(rng, [2, 3, 5]))
        chunks = choice(rng, [False, {'time': ('time', 1), 'lat': ('lat', c), 'lon': ('lon', c)}, {'time': ('time', 1), 'lat': ('lat', 3), 'lon': ('lon', 4), 'depth': ('depth', 2)}])
        if chunks and not deep:
            chunks = {k: v for k, v in chunks.items() if k != 'depth'}
        fs = P.FieldSet.from_netcdf({k: 'f.nc' for k in data}, {k: k for k in data}, {k: k for k in names}, mesh=mesh, chunksize=chunks,
                                    allow_time_extrapolation=True)
        rec.event('chunked')
    else:
        dims = {'time': tim, 'lat': lat, 'lon': lon}
        if deep:
            dims['depth'] = dep
        fs = P.FieldSet.from_data(data, dims, mesh=mesh, allow_time_extrapolation=True)
        if rng.random() < .5:   # a field on another grid
            q = rng.uniform(0, 1, (5, 4)).astype(np.float32)
            fs.add_field(P.Field('Q', q, lon=np.linspace(lon.min() + .5, lon.max() - .5, 4, dtype=np.float32),
                                 lat=np.linspace(lat.min() - 1, lat.max() + 1, 5, dtype=np.float32), mesh=mesh))
    if cgrid and not chunked:
        for n in ('U', 'V', 'W'):
            if hasattr(fs, n):
                getattr(fs, n).interp_method = 'cgrid_velocity'
        fs.P.interp_method = 'cgrid_tracer'
    else:
        fs.P.interp_method = choice(rng, ['linear', 'nearest', 'linear_invdist_land_tracer'])
    return fs, lon, lat, deep, chunked, cgrid and not chunked


def make_kernel(rng, deep, hasq, fixed, smooth, rec):
    out, src = [], []
    adv = choice(rng, ['EE', 'RK4', 'RK4_3D' if deep else 'RK4'] + (['RK45', 'RK45'] if smooth and not fixed else []))
    if adv == 'RK45':
        rec.event('rk45')
    body = ['particle.n += 1', 'particle.s += time * 0.25 + particle.dt']
    if rng.random() < .8:
        body += ['particle.p = fieldset.P[time, particle.depth, particle.lat, particle.lon]']
    else:
        body += ['particle.p = fieldset.P[particle]']
    if hasq and rng.random() < .6:
        body += ['particle.q += fieldset.Q[time, 0., particle.lat, particle.lon]']
    if rng.random() < .5:
        body += ['if particle.p > %r:' % choice(rng, [.93, .8, .97]), '    ' + choice(rng, ['particle.delete()', 'return OperationCode.Delete'])]
    if rng.random() < .4 and not fixed and adv != 'RK45':
        body += ['if particle.p < %r and math.fabs(particle.dt) > 0.6:' % choice(rng, [.3, .6]), '    particle.update_next_dt(particle.dt * 0.5)',
                 'if particle.p > 0.7 and math.fabs(particle.dt) < 8:', '    particle.update_next_dt(particle.dt * 2)']
        rec.event('changed_dt')
    if rng.random() < .4 and not fixed and adv != 'RK45':
        body += ['if particle.p < 0.5 and math.fabs(particle.dt) > %r:' % choice(rng, [1.5, 3.]), '    particle.dt = particle.dt * 0.5',
                 '    return OperationCode.Repeat']
        rec.event('changed_dt')
    if rng.random() < .4:
        body += ['particle.lon += %r * particle.p * particle.sgn' % choice(rng, [.05, .3])]
    if rng.random() < .3:
        body += ['if particle.n > %d and particle.p < 0.3:' % rng.integers(2, 6), '    particle.lat += 100.']
    kern = mkkernel('def Custom(particle, fieldset, time):\n' + ''.join('    %s\n' % l for l in body), 'Custom')
    return adv, kern, body, bool(rng.random() < .5)


def run(scn, rec):
    import parcels as P
    rng = rng_for('C17', scn['seed'], scn['k'])
    with workdir():
        _run(P, rec, rng)


def _run(P, rec, rng):
    mode = choice(rng, ['jit', 'jit', 'scipy'])
    fs, lon, lat, deep, chunked, cgrid = make_fields(P, rng, mode, rec)
    rec.event(mode)
    sgn = choice(rng, [1., 1., -1.])
    dt = sgn * choice(rng, [1., 2., 4.])
    dtype = choice(rng, [np.float32, np.float64])
    t00 = 0. if sgn > 0 else 64.
    stages = int(rng.integers(1, 4))
    ends = [t00 + sgn * 8. * (k + 1) * choice(rng, [1, 2]) for k in range(stages)]
    ends = sorted(ends) if sgn > 0 else sorted(ends)[::-1]
    ends = [e for i, e in enumerate(ends) if i == 0 or e != ends[i - 1]]
    kernels = [make_kernel(rng, deep, hasattr(fs, 'Q'), chunked, not cgrid, rec) for _ in range(int(rng.integers(1, 3)))]
    plan, parts, begin = [], [], t00
    for k, e in enumerate(ends):
        new = []
        for _ in range(int(rng.integers(3, 9)) if k == 0 else int(rng.integers(0, 4))):
            j, i = rng.uniform(.15, .85, 2)
            if lon.ndim == 2:
                jj, ii = int(j * (lat.shape[0] - 1)), int(i * (lat.shape[1] - 1))
                x, y = lon[jj:jj + 2, ii:ii + 2].mean() + rng.uniform(-.2, .2), lat[jj:jj + 2, ii:ii + 2].mean() + rng.uniform(-.2, .2)
            else:
                x, y = lon[0] + i * (lon[-1] - lon[0]), lat[0] + j * (lat[-1] - lat[0])
            late = bool(rng.random() < .3)
            if late:
                rec.event('late_releases')
            t = begin + (dt * int(rng.integers(0, max(1, int(abs(e - begin) / abs(dt))))) if late else 0.)
            new.append(len(parts))
            parts.append(dict(lon=float(x), lat=float(y), depth=float(rng.uniform(.5, 5.)) if deep else 0., time=float(t)))
            if k:
                rec.event('added_later')
        rem = [int(rng.integers(len(parts)))] if k and rng.random() < .3 else []
        if rem:
            rec.event('removed_by_hand')
        plan.append(dict(new=new, remove=rem, end=e, kernel=int(rng.integers(len(kernels)))))
        begin = e
    recover = choice(rng, ['delete', 'move', 'move', 'mixed'])
    cx, cy = float(lon.mean()) + .013, float(lat.mean()) + .017
    details = dict(mode=mode, plan=plan, parts=parts, dt=dt, kernels=[(a, b, f) for a, _, b, f in kernels], recover=recover, deep=deep, chunked=chunked,
                   cgrid=cgrid, lon=lon.tolist(), lat=lat.tolist(), dtype=dtype.__name__)
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle

    def world(tags):
        """the schedule with only these particles, in this order: (state of each tag, errors of each tag)"""
        pc = type('MonP', (base,), {n: P.Variable(n, dtype=d, initial=0) for n, d in
                                    [('p', np.float32), ('q', np.float64), ('n', np.int32), ('s', np.float64), ('sgn', np.float32), ('tag', np.int32)]})
        log = {t: [] for t in tags}

        def Recover(particle, fieldset, time):
            log[int(particle.tag)].append((float(particle.lon), float(particle.lat), float(time), float(particle.n)))
            if len(log[int(particle.tag)]) > 3 or recover == 'delete' or (recover == 'mixed' and particle.p < .5):
                particle.delete()
            else:
                particle.lon = cx + .05 * float(particle.p)
                particle.lat = cy - .05 * float(particle.p)
                particle.depth = 2. if deep else 0.

        def make(ts):
            kw = dict(depth=[parts[t]['depth'] for t in ts]) if deep else {}
            return P.ParticleSet(fs, pclass=pc, lon=[parts[t]['lon'] for t in ts], lat=[parts[t]['lat'] for t in ts],
                                 time=[parts[t]['time'] for t in ts], tag=ts, sgn=[1. if t % 2 else -1. for t in ts], lonlatdepth_dtype=dtype, **kw)
        ps, built = None, {}
        for st in plan:
            new = [t for t in tags if t in st['new']]
            if new:
                if ps is None:
                    ps = make(new)
                else:
                    ps.add(make(new))
            if ps is None or len(ps) == 0:
                continue
            idx = [i for i, p in enumerate(ps) if int(p.tag) in st['remove']] if st['remove'] else []
            if idx:
                ps.remove_indices(idx)
                if len(ps) == 0:
                    continue
            if populate and len(tags) == len(parts):
                ps.populate_indices()  # only the first guess of the cell
                rec.event('populate_indices')
            if st['kernel'] not in built:
                adv, kern, _, first = kernels[st['kernel']]
                a, b = ps.Kernel(getattr(P, 'Advection' + adv)), ps.Kernel(kern)
                built[st['kernel']] = a + b if first else b + a
            ps.execute(built[st['kernel']], endtime=st['end'], dt=dt, verbose_progress=False,
                       recovery={P.ErrorCode.ErrorOutOfBounds: Recover, P.ErrorCode.ErrorThroughSurface: Recover})
        state = {}
        for p in (ps if ps is not None else []):
            state[int(p.tag)] = {v: float(getattr(p, v)) for v in ('lon', 'lat', 'depth', 'time', 'dt', 'p', 'q', 'n', 's')}
        return state, log

    populate = lon.ndim == 2 and rng.random() < .5
    order = [int(t) for t in rng.permutation(len(parts))]
    state, log = world(order)
    for t in order:
        rec.event('deleted', int(t not in state))
        rec.event('errors', len(log[t]))
    perm = [int(t) for t in rng.permutation(len(parts))]
    groups = []
    if mode == 'scipy' or rng.random() < .3:
        groups = [[t] for t in perm[:6]] + ([perm[6:]] if perm[6:] else [])
    else:
        cut = sorted(int(c) for c in rng.integers(0, len(perm) + 1, 2))
        groups = [perm[:1], perm[1:cut[0] + 1], perm[cut[0] + 1:]]
    for g in groups:
        if not g:
            continue
        if len(g) == 1:
            rec.event('solo_runs')
        st, lg = world(g)
        for t in g:
            rec.event('particles_compared')
            a, b = state.get(t), st.get(t)
            if (a is None) != (b is None):
                rec.violation('other fate', 'particle %d: %s together with the others, %s in the set %r' % (
                    t, 'gone' if a is None else 'there', 'gone' if b is None else 'there', g), **details)
                return
            if a is not None and repr(a) != repr(b):
                rec.violation('other trajectory', 'particle %d: %r with the others, %r in the set %r' % (t, a, b, g), **details)
                return
            if repr(log[t]) != repr(lg[t]):
                rec.violation('other errors', 'particle %d: errors %r with the others, %r in the set %r' % (t, log[t][:4], lg[t][:4], g), **details)
                return
        rec.state(mode, repr(details), tuple(g))
