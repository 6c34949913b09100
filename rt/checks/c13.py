"""C13: the same run with data in memory, loaded snapshot by snapshot, or loaded in spatial chunks must give the same results.

A data set (A-, B- or C-grid, several levels, one or two time axes, dates or seconds) is given to Parcels as in-memory
arrays (the reference) and through netCDF files split over any number of files with different loading settings
(deferred or not, chunk dictionaries of any size, automatic chunks, xarray data sets with or without dask).  The same
program - segments forward and backward, two kernels sampling different fields in turn, delayed particles, particles
deleted on errors, times beyond the data with extrapolation or over many periods - is run on each, and the particles,
their positions, samples and the kind of failure are compared after each segment.
"""
import contextlib

import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, pclass, workdir

RULE = 'After each segment every variant must have the same particles, positions, samples and outcome as the in-memory run.'
REQUIRED = {'compared': 150, 'variant:deferred': 25, 'variant:chunks': 50, 'variant:auto': 2, 'variant:eager': 2, 'variant:xarray': 5,
            'periodic': 4, 'backward': 15, 'files>1': 12, 'mode:jit': 18, 'mode:scipy': 5, 'chunk:loaded': 100, 'chunk:unloaded': 20,
            'window:moved': 100}
ASSUMPTIONS = ['Snapshot times are multiples of the time step from the start but for rounding (steps are cut at snapshot times with deferred loading).',
               'Runs stay within the data in time unless extrapolation or a period is set.']
SCENARIO_TIMEOUT = 100


def scenarios(tier, seed):
    n = 40 if tier == 'quick' else 800
    out = []
    for k in range(n):
        out.append({'seed': [seed, k], 'mode': 'scipy' if k % 4 == 3 else 'jit', 'stag': ['A', 'A', 'C', 'B'][(k // 4) % 4],
                    'timemode': ['inside', 'periodic', 'extrap', 'inside'][(k // 3) % 4]})
    return out


H = 600.   # the time step; set in each scenario


def make(rng, scn):
    s = dict(stag=scn['stag'], timemode=scn['timemode'])
    # a deferred grid needs more than two snapshots
    s['nt'] = int(choice(rng, [2, 3, 4, 5, 7]))
    s['nz'] = int(choice(rng, [1, 1, 2, 3, 5]))
    s['ny'], s['nx'] = int(choice(rng, [3, 4, 6, 11, 20])), int(choice(rng, [3, 4, 7, 12, 25]))
    if scn['mode'] == 'scipy':
        s['nt'] = min(s['nt'], 4)
    s['curv'] = bool(s['stag'] != 'B' and rng.random() < .3)
    global H
    s['dates'] = bool(rng.random() < .5)
    # times that are not exact multiples in floating point
    s['H'] = H = 600. if s['dates'] else float(choice(rng, [600., 100.1, 600. / 7., .7, 321.3]))
    s['t'] = (np.concatenate(([0], np.cumsum(rng.integers(1, 5, s['nt'] - 1)))) * H).tolist()
    s['t0'] = float(choice(rng, [0., 0., 3600., 86400.]))
    s['t2'] = None
    if rng.random() < .4 and s['nt'] > 2:
        # the tracers have a time axis of their own over the same range
        inner = [a for a in np.arange(H, s['t'][-1] - .5 * H, H) if rng.random() < .4]
        s['t2'] = [0.] + inner + [s['t'][-1]]
    s['period'] = None
    if s['timemode'] == 'periodic':
        s['period'] = s['t'][-1] + H * int(choice(rng, [0, 0, 1, 3]))
    s['scale'] = bool(rng.random() < .3)
    s['halo'] = bool(s['stag'] == 'A' and not s['curv'] and s['nx'] > 6 and rng.random() < .25)
    s['dataseed'] = int(rng.integers(1 << 30))
    return s


def arrays(s):
    rng = np.random.default_rng(s['dataseed'])
    nz, ny, nx = s['nz'], s['ny'], s['nx']
    lon, lat = np.arange(nx, dtype=np.float32), np.arange(ny, dtype=np.float32) * np.float32(1.25)
    if s['curv']:
        X, Y = np.meshgrid(lon, lat)
        lon = (X + .1 * np.sin(Y)).astype(np.float32)
        lat = (Y + .1 * np.cos(X) + .2 * X).astype(np.float32)
    dep = (np.arange(nz) * 10.).astype(np.float32)
    names = ['U', 'V'] + (['W'] if nz > 1 else []) + ['P', 'R']
    D = {}
    for n in names:
        t = s['t2'] if n in 'PR' and s['t2'] else s['t']
        amp = {'U': 3e-4, 'V': 3e-4, 'W': 2e-3}.get(n, 4.)
        v = rng.uniform(-amp, amp, (len(t), nz, ny, nx))
        if s['period'] and s['period'] == t[-1]:
            v[-1] = v[0]
        D[n] = v.astype(np.float32)
    return lon, lat, dep, D


def methods(s):
    if s['stag'] == 'A':
        return {}
    if s['stag'] == 'C':
        return dict(U='cgrid_velocity', V='cgrid_velocity', W='cgrid_velocity', P='cgrid_tracer', R='cgrid_tracer')
    return dict(U='bgrid_velocity', V='bgrid_velocity', W='bgrid_w_velocity', P='bgrid_tracer', R='bgrid_tracer')


EPOCH = np.datetime64('2003-01-30T00:00:00', 's')


def stamps(s, t):
    return EPOCH + (np.array(t) + s['t0']).astype('int64').astype('timedelta64[s]')


def extrap(s):
    return {'inside': False, 'extrap': True, 'periodic': None}[s['timemode']]


def finish(s, fs):
    if s['scale']:
        fs.P.set_scaling_factor(1.5)
    if s['halo']:
        fs.add_constant('halo_west', 0.)
        fs.add_periodic_halo(zonal=True, halosize=3)
    return fs


def in_memory(P, s):
    from parcels.tools.converters import TimeConverter
    lon, lat, dep, D = arrays(s)
    m = methods(s)
    flds = {}
    for n, d in D.items():
        t = np.array(s['t2'] if n in 'PR' and s['t2'] else s['t'])
        origin = TimeConverter(stamps(s, t)[0].astype('datetime64[ns]')) if s['dates'] else TimeConverter(s['t0'])
        flds[n] = P.Field(n, d if s['nz'] > 1 else d[:, 0], lon=lon.copy(), lat=lat.copy(), depth=dep.copy() if s['nz'] > 1 else None,
                          time=t.copy(), time_origin=origin, mesh='flat', allow_time_extrapolation=extrap(s),
                          time_periodic=s['period'] or False, interp_method=m.get(n, 'linear'), gridindexingtype='nemo')
    return finish(s, P.FieldSet(flds['U'], flds['V'], fields={n: f for n, f in flds.items() if n not in 'UV'}))


def dataset(s, names, t, sl):
    import xarray as xr
    lon, lat, dep, D = arrays(s)
    if s['dates']:
        tc = ('t', stamps(s, t)[sl].astype('datetime64[ns]'))
    else:
        tc = ('t', (np.array(t) + s['t0'])[sl])
    co = {'time': tc, 'lon': (('y', 'x') if s['curv'] else 'x', lon), 'lat': (('y', 'x') if s['curv'] else 'y', lat)}
    if s['nz'] > 1:
        co['dep'] = ('z', dep)
    ds = xr.Dataset(coords={k: v for k, v in co.items() if k != 'time'})
    ds['time'] = tc
    for n in names:
        if s['nz'] > 1:
            ds[n] = (('t', 'z', 'y', 'x'), D[n][sl])
        else:
            ds[n] = (('t', 'y', 'x'), D[n][sl, 0])
    return ds


def write(s, rng):
    """Files per group of variables: {variable: [files]}."""
    _, _, _, D = arrays(s)
    vel, tr = [n for n in D if n in 'UVW'], ['P', 'R']
    if s['t2'] is None and rng.random() < .6:
        groups = [(vel + tr, s['t'])]
    elif rng.random() < .5 or s['stag'] == 'C':
        groups = [(vel, s['t']), (tr, s['t2'] or s['t'])]
    else:
        groups = [([n], s['t']) for n in vel] + [([n], s['t2'] or s['t']) for n in tr]
    files = {}
    more = False
    for g, (names, t) in enumerate(groups):
        cuts = sorted(set([0, len(t)] + [int(c) for c in rng.integers(1, len(t), int(rng.integers(0, 4)))])) if rng.random() < .7 else [0, len(t)]
        if rng.random() < .25:
            cuts = list(range(len(t) + 1))
        fl = []
        for a, b in zip(cuts[:-1], cuts[1:]):
            f = 'g%d_%02d.nc' % (g, a)
            ds = dataset(s, names, t, slice(a, b))
            ds.to_netcdf(f, encoding={'time': {'units': 'seconds since 2000-01-01'}} if s['dates'] else None)
            fl.append(f)
        more |= len(fl) > 1
        for n in names:
            files[n] = fl
    return files, more


def from_files(P, s, files, v):
    import dask
    dims = {'lon': 'lon', 'lat': 'lat', 'time': 'time'}
    if s['nz'] > 1:
        dims['depth'] = 'dep'
    m = methods(s)
    kw = dict(mesh='flat', allow_time_extrapolation=extrap(s), time_periodic=s['period'] or False)
    if m:
        kw['interp_method'] = m
        kw['gridindexingtype'] = 'nemo'
    if v['kind'] == 'xarray':
        import xarray as xr
        flds = {}
        for n in files:
            t = s['t2'] if n in 'PR' and s['t2'] else s['t']
            ds = dataset(s, [n], t, slice(None)).set_coords('time').swap_dims({'t': 'time'})
            if v.get('chunk') and n not in v.get('whole', ''):
                ch = dict(v['chunk'], **(v.get('other', {}) if n in 'PV' else {}))
                ds = ds.chunk({k: c for k, c in ch.items() if k in ds.dims})
            f = P.FieldSet.from_xarray_dataset(ds, {n: n}, dims, mesh='flat', allow_time_extrapolation=extrap(s),
                                               time_periodic=s['period'] or False)
            flds[n] = getattr(f, n)
            flds[n].interp_method = m.get(n, 'linear')
            flds[n].gridindexingtype = 'nemo'
        return finish(s, P.FieldSet(flds['U'], flds['V'], fields={n: f for n, f in flds.items() if n not in 'UV'})), contextlib.nullcontext()
    kw['deferred_load'] = v['deferred']
    kw['chunksize'] = v['chunksize']
    cm = contextlib.nullcontext()
    if v['chunksize'] == 'auto':
        cm = dask.config.set({'array.chunk-size': v['cap']})
        kw['chunksize'] = 'auto'
    with cm:
        fs = P.FieldSet.from_netcdf({n: list(f) for n, f in files.items()}, {n: n for n in files}, dims, **kw)
        finish(s, fs)
    return fs, (dask.config.set({'array.chunk-size': v['cap']}) if v['chunksize'] == 'auto' else contextlib.nullcontext())


def variants(s, rng, mode):
    def chunks():
        c = {}
        if rng.random() < .5:
            c['time'] = ('t', int(choice(rng, [1, 1, 2])))
        if s['nz'] > 1 and rng.random() < .7:
            c['depth'] = ('z', int(choice(rng, [1, 2, 3])))
        small = [1] if s['nx'] * s['ny'] < 60 else []
        c['lat'] = ('y', int(choice(rng, small + [2, 3, 4, 5, 8, 50])))
        # chunks of size 1 are ignored (and rejected if there are no others)
        c['lon'] = ('x', int(choice(rng, ([] if c['lat'][1] == 1 else small) + [2, 3, 4, 5, 8, 50])))
        return c
    vs = [dict(kind='deferred', deferred=True, chunksize=choice(rng, [None, False])),
          dict(kind='chunks', deferred=True, chunksize=chunks())]
    if mode == 'jit':
        vs.append(dict(kind='chunks', deferred=True, chunksize=chunks()))
        vs.append(dict(kind='chunks', deferred=False, chunksize=chunks()))
    o = choice(rng, ['auto', 'eager', 'xarray', 'xarray'])
    if o == 'auto':
        vs.append(dict(kind='auto', deferred=bool(rng.random() < .7), chunksize='auto', cap=choice(rng, ['256B', '1KiB', '4KiB', '128MiB'] if s['nx'] * s['ny'] * s['nz'] < 300 else ['1KiB', '16KiB', '128MiB'])))
    elif o == 'eager':
        vs.append(dict(kind='eager', deferred=False, chunksize=None))
    else:
        vs.append(dict(kind='xarray', chunk={} if rng.random() < .3 else {'y': int(rng.integers(1, 6)), 'x': int(rng.integers(1, 6)), 'z': int(rng.integers(1, 4))}))
        if vs[-1]['chunk'] and rng.random() < .5:
            # variables chunked differently, or not at all
            vs[-1]['whole'] = choice(rng, ['', 'P', 'UV', 'W'])
            vs[-1]['other'] = choice(rng, [{}, {'y': int(rng.integers(1, 6)), 'x': int(rng.integers(1, 6))}])
    return vs


def program(s, rng, mode):
    """Start times, positions, and segments (kernel, steps, sign, step fraction)."""
    n = 8 if mode == 'jit' else 4
    last = s['t'][-1]
    steps = int(round(last / H))
    # rounding beyond the first or last snapshot is an error
    edge = 0 if H == 600. or steps < 3 else 1
    if s['timemode'] == 'inside':
        start = int(rng.integers(edge, steps + 1 - edge))
    elif s['timemode'] == 'periodic':
        start = int(rng.integers(-2 * steps, 3 * steps))
    else:
        start = int(rng.integers(-3, steps + 4))
    segs = []
    pos = start
    lo, hi = (edge, steps - edge) if s['timemode'] == 'inside' else (-10 ** 6, 10 ** 6)
    for k in range(int(rng.integers(2, 5))):
        sg = int(choice(rng, [-1, 1]))
        if pos <= lo:
            sg = 1
        elif pos >= hi:
            sg = -1
        room = (hi - pos) if sg > 0 else (pos - lo)
        m = int(min(room, rng.integers(1, max(2, (10 if mode == 'jit' else 5)))))
        if m < 1:
            continue
        fr = float(choice(rng, [1., 1., .5]))
        segs.append((int(rng.integers(2)), m, sg, fr))
        pos += sg * m
    late = [0] * n
    if segs and segs[0][1] > 1 and rng.random() < .5:
        late = [int(rng.integers(0, segs[0][1])) if rng.random() < .4 else 0 for _ in range(n)]
    ny, nx = s['ny'], s['nx']
    e = .3
    x = rng.uniform(e, nx - 1 - e, n)
    y = rng.uniform(e, (ny - 1) * 1.25 - e, n) + (.2 * x if s['curv'] else 0.)
    if s['stag'] == 'C':
        x, y = np.clip(x, 1.05, None), np.clip(y, 1.3 + (.2 * x if s['curv'] else 0.), None)
    z = rng.uniform(.5, 10. * (s['nz'] - 1) - .5, n) if s['nz'] > 1 else np.zeros(n)
    out = rng.random(n) < .1
    x = np.where(out, -5., x)
    return dict(n=n, start=start, late=late, segs=segs, x=x.tolist(), y=y.tolist(), z=z.tolist(),
                adv=choice(rng, ['AdvectionRK4', 'AdvectionEE', 'AdvectionRK4_3D' if s['nz'] > 1 else 'AdvectionRK4']))


LOC = 'particle.depth, particle.lat, particle.lon'
SRC = '''def SampleP(particle, fieldset, time):
    particle.a = fieldset.P[time, %s]
    particle.b = fieldset.P[time + .5 * particle.dt, %s]
    particle.c += fieldset.P[time + particle.dt, %s]
    particle.n += 1


def SampleR(particle, fieldset, time):
    particle.a = fieldset.R[time + particle.dt, %s]
    particle.c += fieldset.R[time, %s]
    particle.n += 1
''' % ((LOC,) * 5)


def go(P, s, fs, prog, mode, rec, watch):
    """Run the program; list of snapshots of the particle set, one per segment."""
    o = fs.time_origin.time_origin
    base = float((np.datetime64(o) - (EPOCH + np.timedelta64(int(s['t0']), 's'))) / np.timedelta64(1, 's')) if s['dates'] else float(o) - s['t0']
    pc = pclass(P, mode, a=(np.float32, 0.), b=(np.float32, 0.), c=(np.float32, 0.), n=(np.int32, 0), num=(np.int32, 0))
    sg0 = prog['segs'][0][2]
    t = np.array([prog['start'] + sg0 * k for k in prog['late']]) * H - base
    ps = P.ParticleSet(fs, pclass=pc, lon=prog['x'], lat=prog['y'], depth=prog['z'], time=t, num=np.arange(prog['n']))
    kp, kr = mkkernel(SRC, 'SampleP'), mkkernel(SRC, 'SampleR')
    K = [ps.Kernel(getattr(P, prog['adv'])) + ps.Kernel(k) for k in (kp, kr)]

    def gone(particle, fieldset, time):
        particle.delete()
    EC = P.ErrorCode
    recov = {EC.ErrorOutOfBounds: gone, EC.ErrorThroughSurface: gone}
    outs = []
    for k, m, sg, fr in prog['segs']:
        try:
            ps.execute(K[k], runtime=m * H, dt=sg * H * fr, recovery=recov, verbose_progress=False)
            st = 'ok'
        except Exception as e:
            st = type(e).__name__
            if 'Time' not in st and 'time' not in str(e):
                raise
        if watch:
            windows(fs, rec)
        outs.append((st, {int(p.num): (float(p.time) + base, float(p.lon), float(p.lat), float(p.depth), float(p.a), float(p.b), float(p.c), int(p.n)) for p in ps}))
        if st != 'ok':
            break
    return outs


def windows(fs, rec):
    for g in fs.gridset.grids:
        if g.defer_load:
            rec.event('window:moved')
        lc = np.array(g.load_chunk)
        if lc.size > 1:
            rec.event('chunk:loaded', int((lc >= 2).sum()))
            rec.event('chunk:unloaded', int((lc == 0).sum()))


def run(scn, rec):
    import parcels as P
    rng = rng_for('c13', *scn['seed'])
    s = make(rng, scn)
    prog = program(s, rng, scn['mode'])
    while not prog['segs']:
        prog = program(s, rng, scn['mode'])
    rec.event('mode:' + scn['mode'])
    rec.event('stag:' + scn['stag'])
    if s['period']:
        rec.event('periodic')
    if any(sg < 0 for _, _, sg, _ in prog['segs']):
        rec.event('backward')
    with workdir():
        files, more = write(s, rng)
        if more:
            rec.event('files>1')
        ref = go(P, s, in_memory(P, s), prog, scn['mode'], rec, False)
        for st, d in ref:
            rec.event('reference:' + st)
        for v in variants(s, rng, scn['mode'])[:scn.get('nvariants')]:
            rec.event('variant:' + v['kind'])
            rec.state(s['stag'], s['nt'], s['nz'], s['ny'], s['nx'], s['timemode'], len(set(map(tuple, files.values()))), str(v))
            fs, cm = from_files(P, s, files, v)
            with cm:
                got = go(P, s, fs, prog, scn['mode'], rec, True)
            compare(rec, s, prog, v, files, ref, got, scn)


def compare(rec, s, prog, v, files, ref, got, scn):
    d = dict(variant=v, files=files, spec={k: s[k] for k in s}, program=prog, mode=scn['mode'])
    for k in range(max(len(ref), len(got))):
        rec.event('compared')
        a = ref[k] if k < len(ref) else None
        b = got[k] if k < len(got) else None
        if a is None or b is None or a[0] != b[0]:
            rec.violation('outcome', 'segment %d ends with %s in memory but %s with %s' % (k, a and a[0], b and b[0], v), **d)
            return
        if a[0] != 'ok':
            return
        if set(a[1]) != set(b[1]):
            rec.violation('particles', 'segment %d: particles %s in memory but %s with %s' % (k, sorted(a[1]), sorted(b[1]), v), **d)
            return
        rec.event('particles', len(a[1]))
        for i in a[1]:
            p, q = np.array(a[1][i]), np.array(b[1][i])
            tol = 2e-5 * np.maximum(1., np.abs(p))
            if not (np.abs(p - q) <= tol).all():
                rec.violation('values', 'segment %d particle %d: (time, lon, lat, depth, a, b, c, n) %s in memory but %s with %s' % (k, i, a[1][i], b[1][i], v),
                              segment=k, **d)
                return
    rec.setsample(variant=v, program=prog, particles=len(ref[-1][1]))
