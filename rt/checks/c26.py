"""C26: output files of ocean models with random staggering, layout and options are written and read with the constructor for the model, and everything that is sampled
is compared with the documented position of each variable in its cell, in the units and direction of Parcels; depths given by another field, computations on newly
loaded data and replaced snapshots are compared with fields for which the value is known exactly."""
import numpy as np

from ..gen import choice, mkkernel, workdir
from rt.core import rng_for

RULE = ('a scenario is a data set of one model (NEMO, MITgcm, generic C-grid, POP, MOM5, generic B-grid), or a terrain-following data set whose depths are another '
        'field, or a field set whose snapshots are replaced, with random sizes, levels, files, indices and loading, sampled in one mode at random places and steps; '
        'non-trivial = distinct (constructor, levels, coordinates, loading, mode)')
REQUIRED = {'jit': 40, 'scipy': 20, 'nemo': 10, 'mitgcm': 10, 'c_grid_dataset': 10, 'pop': 10, 'mom5': 10, 'b_grid_dataset': 10, 'levels': 40, 'one_level': 10, 'with_W': 25,
            'curvilinear': 20, 'deferred': 25, 'loaded': 15, 'chunked': 10, 'indices': 7, 'coordinate_file': 15, 'many_files': 15, 'tracer_linear': 5, 'backward': 20,
            'samples': 4000, 'depth_field': 15, 'depth_field_deferred': 8, 'depth_field_chunked': 2, 'computed': 10, 'advance_forward': 4, 'advance_backward': 2,
            'cm': 2, 'two_depth_fields': 4, 'advance_refused': 2, 'last_level': 60}
ASSUMPTIONS = ['cells are rectangular and the mesh is flat, so that the value in a cell follows from the documentation of the constructor; points keep away from cell edges']
SCENARIO_TIMEOUT = 100
DESIGN = """Nothing in the test-suite knows the values of all positions in a cell: files are written with values that are a known function of the position at which the
model has the variable (faces for U, V, W on C grids, corners for U, V on B grids, centres for tracers), so that the reference value at a particle follows from the
documentation of the constructor alone, whatever the indices, the files, the chunks and the direction of time. Shared grids, depths that change in time (terrain
following, also with several depth fields), last levels (mom5, pop) and replaced snapshots (advancetime in both directions) are parts of their own."""
MODELS = ['nemo', 'mitgcm', 'c_grid_dataset', 'pop', 'mom5', 'b_grid_dataset']


def scenarios(tier, seed):
    n = 220 if tier == 'quick' else 6000
    return [{'seed': seed, 'k': k} for k in range(n)]


def run(scn, rec):
    import parcels as P
    rng = rng_for('C26', scn['seed'], scn['k'])
    mode = choice(rng, ['jit', 'jit', 'scipy'])
    rec.event(mode)
    with workdir():
        k = scn['k'] % 9
        if k < 6:
            model(P, rec, rng, mode, MODELS[k])
        elif k == 6:
            depth_field(P, rec, rng, mode)
        elif k == 7:
            advance(P, rec, rng, mode) if rng.random() < .8 else computed(P, rec, rng, mode)
        else:
            depth_field(P, rec, rng, mode) if rng.random() < .4 else computed(P, rec, rng, mode)


def axis(rng, n, lo, step):
    return lo + np.concatenate([[0.], np.cumsum(step * rng.uniform(.7, 1.4, n - 1))])


def inside(rng, a, n, last=False):
    """cell numbers and positions away from the edges of the cells"""
    i = rng.integers(0, len(a) - 1, n)
    if last:
        i[0] = len(a) - 2
    r = rng.uniform(.06, .94, n)
    return i, r, a[i] + r * (a[i + 1] - a[i])


def times_of(rng, tim, n):
    i = rng.integers(0, len(tim) - 1, n)
    return tim[i] + rng.uniform(.02, .98, n) * (tim[i + 1] - tim[i])


def drive(P, rec, rng, fs, mode, names, pts, tim, det, check, pre=''):
    """steps through time and compares what is sampled in every step"""
    kern = mkkernel('def Sample(particle, fieldset, time):\n    particle.ts = time\n' + pre
                    + ''.join('    particle.%s = %s\n' % (v, e) for v, e in names.items()), 'Sample')
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    ns = {v: P.Variable(v, dtype=np.float64, initial=-9.) for v in list(names) + ['ts']}
    ns['tag'] = P.Variable('tag', dtype=np.int32, initial=0)
    pc = type('ModelP', (base,), ns)
    back = bool(rng.random() < .3) and len(tim) > 1
    rec.event('backward', back)
    sgn = -1 if back else 1
    if len(tim) == 1:
        t0, dt, steps = 0., 60., 2
    else:
        span = float(tim[-1] - tim[0])
        steps = int(rng.integers(2, 6))
        dt = span / steps * float(rng.uniform(.7, .98))
        t0 = float(tim[-1] if back else tim[0]) + sgn * float(choice(rng, [0., span * .01]))
    ps = P.ParticleSet(fs, pclass=pc, lon=pts[0], lat=pts[1], depth=pts[2], time=t0, tag=np.arange(len(pts[0])), lonlatdepth_dtype=np.float64)
    ker = ps.Kernel(kern)
    for _ in range(steps):
        ps.execute(ker, runtime=dt, dt=sgn * dt, verbose_progress=False)
        for p in ps:
            for v, (want, tol) in check(int(p.tag), float(p.ts)).items():
                rec.event('samples')
                got = float(getattr(p, v))
                if not abs(got - want) <= tol:
                    rec.violation('value:' + v, '%s: %s at %r, time %r is %r instead of %r' % (
                        det['what'], names[v], tuple(float(q[int(p.tag)]) for q in pts), float(p.ts), got, want), **dict(det, mode=mode))
                    return False
    return True


def weights(tim, t):
    if len(tim) == 1:
        return [(1., 0)]
    i = min(max(int(np.searchsorted(tim, t, side='right')) - 1, 0), len(tim) - 2)
    w = (t - tim[i]) / (tim[i + 1] - tim[i])
    return [(1 - w, i), (w, i + 1)]


def write(rng, rec, var, coords, tim, split, cfile):
    """files: name -> (list of data files), and the file with coordinates"""
    import xarray as xr
    out = []
    parts = [slice(n, n + 1) for n in range(len(tim))] if split else [slice(0, len(tim))]
    for i, sl in enumerate(parts):
        ds = xr.Dataset({n: (d, a[sl]) for n, (d, a) in var.items()}, coords={'t': ('t', tim[sl])})
        if not cfile:
            ds = ds.assign({n: (d, a) for n, (d, a) in coords.items()})
        f = 'data_%02d.nc' % i
        ds.to_netcdf(f)
        out.append(f)
    if cfile:
        xr.Dataset({n: (d, a) for n, (d, a) in coords.items()}).to_netcdf('coordinates.nc')
    return out


def model(P, rec, rng, mode, what):
    rec.event(what)
    stag = 'C' if what in ('nemo', 'mitgcm', 'c_grid_dataset') else 'B'
    indexing = {'c_grid_dataset': choice(rng, ['nemo', 'mitgcm']), 'b_grid_dataset': choice(rng, ['nemo', 'mom5', 'pop'])}.get(what, what)
    nx, ny, nt = int(rng.integers(3, 8)), int(rng.integers(3, 8)), int(rng.integers(2, 5))
    nz = int(rng.integers(3, 6)) if rng.random() < .8 else 1
    rec.event('levels' if nz > 1 else 'one_level')
    has_w = nz > 1 and rng.random() < .8
    rec.event('with_W', has_w)
    lon, lat = axis(rng, nx, float(rng.uniform(-50, 50)), 10.), axis(rng, ny, float(rng.uniform(-50, 50)), 10.)
    lon, lat = lon.astype(np.float32).astype(float), lat.astype(np.float32).astype(float)
    dep = axis(rng, nz, float(choice(rng, [0., 5.])), 10.).astype(np.float32).astype(float)
    if indexing == 'mitgcm' and rng.random() < .5:
        dep = -dep
    tim = axis(rng, nt, 0., 100.)
    names = ['U', 'V'] + (['W'] if has_w else []) + ['T']
    # POP files have one level more of depths than of data
    zd = nz - 1 if indexing == 'pop' and nz > 1 else nz
    data = {n: rng.uniform(-2., 2., (nt, zd, ny, nx)).astype(np.float32).astype(float) for n in names}
    curv = bool(rng.random() < .5)
    rec.event('curvilinear', curv)
    deferred = bool(rng.random() < .65)
    rec.event('deferred' if deferred else 'loaded')
    split = bool(rng.random() < .6) or (not deferred and nt > 1)
    rec.event('many_files', split)
    cfile = bool(rng.random() < .5)
    rec.event('coordinate_file', cfile)
    zdim = 'zt' if zd != nz else 'z'
    var = {'v' + n: (['t', zdim, 'y', 'x'] if nz > 1 else ['t', 'y', 'x'], data[n].astype(np.float32) if nz > 1 else data[n][:, 0].astype(np.float32)) for n in names}
    coords = {'clon': (['y', 'x'], np.tile(lon, (ny, 1)).astype(np.float32)), 'clat': (['y', 'x'], np.tile(lat[:, None], (1, nx)).astype(np.float32))} if curv else {
        'clon': (['x'], lon.astype(np.float32)), 'clat': (['y'], lat.astype(np.float32))}
    if nz > 1:
        coords['cdep'] = (['z'], dep.astype(np.float32))
    files = write(rng, rec, var, coords, tim, split, cfile)
    dims = {'lon': 'clon', 'lat': 'clat', 'time': 't'}
    if nz > 1:
        dims['depth'] = 'cdep'
    one = files if len(files) > 1 or rng.random() < .5 else files[0]
    if cfile:
        one = dict({'lon': 'coordinates.nc', 'lat': 'coordinates.nc', 'data': one}, **({'depth': 'coordinates.nc'} if nz > 1 else {}))
    filenames = {n: one for n in names} if cfile or rng.random() < .5 else one
    per = bool(rng.random() < .5)
    dimensions = {n: dict(dims) for n in names} if per else dims
    kw = {}
    i0 = j0 = k0 = 0
    if rng.random() < .3 and nx > 4 and ny > 4:
        rec.event('indices')
        i0, i1 = int(rng.integers(0, 2)), int(rng.integers(nx - 1, nx + 1))
        j0, j1 = int(rng.integers(0, 2)), int(rng.integers(ny - 1, ny + 1))
        ind = {'lon': range(i0, i1), 'lat': range(j0, j1)}
        if nz > 3 and zd == nz and rng.random() < .5:
            k0, k1 = int(rng.integers(0, 2)), int(rng.integers(nz - 1, nz + 1))
            ind['depth'] = range(k0, k1)
            dep, data = dep[k0:k1], {n: d[:, k0:k1] for n, d in data.items()}
            nz = zd = len(dep)
        kw['indices'] = {n: dict(ind) for n in names} if rng.random() < .3 else ind
        lon, lat, data = lon[i0:i1], lat[j0:j1], {n: d[:, :, j0:j1, i0:i1] for n, d in data.items()}
    if rng.random() < .35 and deferred:
        rec.event('chunked')
        kw['chunksize'] = 'auto' if zd != nz or rng.random() < .3 else dict(
            {'lon': ('x', int(rng.integers(2, 5))), 'lat': ('y', int(rng.integers(2, 5))), 'time': ('t', 1)}, **({'depth': ('z', int(rng.integers(1, 4)))} if nz > 1 else {}))
    elif rng.random() < .3:
        kw['chunksize'] = False
    tracer = '%sgrid_tracer' % stag.lower()
    if rng.random() < .2 and zd == nz:
        tracer = kw['tracer_interp_method'] = 'linear'
        rec.event('tracer_linear')
    scale = {'U': 1., 'V': 1., 'W': 1., 'T': 1.}
    if what == 'nemo' or what == 'mom5':
        scale['W'] = -1.
    if what == 'pop':
        unit = choice(rng, ['m', 'cm', None])
        rec.event('cm', unit == 'cm')
        if unit:
            kw['depth_units'] = unit
        scale['U'] = scale['V'] = .01
        scale['W'] = -1. if unit == 'cm' else -.01
    if what in ('c_grid_dataset', 'b_grid_dataset') and (indexing != 'nemo' or rng.random() < .5):
        kw['gridindexingtype'] = indexing
    make = getattr(P.FieldSet, 'from_' + what)
    fs = make(filenames, {n: 'v' + n for n in names}, dimensions, mesh='flat', deferred_load=deferred, **kw)
    det = dict(what='from_' + what, indexing=indexing, deferred=deferred, curvilinear=curv, shape=[nt, nz, ny, nx], options={q: repr(v) for q, v in kw.items()}, split=split,
               coordinate_file=cfile, names=names)
    rec.state(what, indexing, nz > 1, has_w, curv, deferred, split, 'chunksize' in kw, mode)
    n = 8
    ci, xs, x = inside(rng, lon, n, True)
    cj, et, y = inside(rng, lat, n, True)
    if nz > 1:
        ck, ze, z = inside(rng, dep, n, True)
        rec.event('last_level', int((ck == nz - 2).sum()))
    else:
        ck, ze, z = np.zeros(n, int), np.zeros(n), np.zeros(n)
    mit = indexing == 'mitgcm'

    def corners(d, i, j, a, e):
        return (1 - a) * (1 - e) * d[j, i] + a * (1 - e) * d[j, i + 1] + a * e * d[j + 1, i + 1] + (1 - a) * e * d[j + 1, i]

    def value(f, d, q):
        i, j, k, a, e, s = ci[q], cj[q], ck[q], xs[q], et[q], ze[q]
        centre = (j, i) if mit else (j + 1, i + 1)
        lev = k + 1 if indexing == 'mom5' and nz > 1 else k
        if f == 'T':
            if tracer == 'linear':
                return corners(d[k], i, j, a, e) * (1 - s) + corners(d[min(k + 1, zd - 1)], i, j, a, e) * s
            return d[(lev,) + centre]
        if f == 'W':
            lower = 0. if indexing == 'pop' and k == nz - 2 else d[(k + 1,) + centre]
            return (1 - s) * d[(k,) + centre] + s * lower
        if stag == 'B':
            return corners(d[lev], i, j, a, e)
        if f == 'U':
            return (1 - a) * d[k, centre[0], i] + a * d[k, centre[0], i + 1]
        return (1 - e) * d[k, j, centre[1]] + e * d[k, j + 1, centre[1]]

    def check(q, t):
        out = {}
        for f in names:
            v = sum(w * value(f, data[f][m], q) for w, m in weights(tim, t)) * scale[f]
            out['s' + f] = v, 6e-4 * abs(scale[f])   # (positions in a cell are in single precision)
        return out
    comp = 'UVW' if has_w else 'UV'
    kernel_names = {'s' + f: 'v' + f for f in comp}
    expr = {'s' + f: 'fieldset.%s[time, particle.depth, particle.lat, particle.lon]' % f for f in names}
    if stag == 'C' or rng.random() < .5:   # as a vector
        for f in comp:
            expr['s' + f] = '(' + ', '.join(kernel_names['s' + c] for c in comp) + ') ' + f
    vector = any(v.startswith('(') for v in expr.values())
    run_expr = {v: ('w' + v[1:] if e.startswith('(') else e) for v, e in expr.items()}
    if vector:
        pre = '    (%s) = fieldset.%s[time, particle.depth, particle.lat, particle.lon]\n' % (', '.join('w' + c for c in comp), comp)
    else:
        pre = ''
    drive(P, rec, rng, fs, mode, run_expr, (x, y, z), tim, det, check, pre)
    rec.setsample(**det)


def depth_field(P, rec, rng, mode):
    """terrain-following levels that move: depth = level * thickness(t, y, x); the field is linear in x, y, depth and time, which interpolation reproduces exactly"""
    rec.event('depth_field')
    nx, ny, nz, nt = int(rng.integers(3, 7)), int(rng.integers(3, 7)), int(rng.integers(2, 6)), int(rng.integers(2, 5))
    lon, lat, tim = axis(rng, nx, 0., 10.).astype(np.float32).astype(float), axis(rng, ny, 0., 10.).astype(np.float32).astype(float), axis(rng, nt, 0., 100.)
    curv = bool(rng.random() < .4)
    sig = np.linspace(0., 1., nz) ** float(choice(rng, [1., 1.5])) + (.1 if rng.random() < .3 else 0.)
    H = rng.uniform(50., 100., (nt, 1, ny, nx)).astype(np.float32).astype(float)
    dep = (sig[None, :, None, None] * H).astype(np.float32)
    names = ['U', 'V', 'P']
    co = {n: rng.uniform(-1, 1, 5) for n in names}

    def f(n, t, z, y, x):
        c = co[n]
        return c[0] + c[1] * x / 30. + c[2] * y / 30. + c[3] * z / 50. + c[4] * t / 200.
    two = bool(rng.random() < .5)   # levels of its own for one field
    rec.event('two_depth_fields', two)
    dep2 = (sig[None, :, None, None] * rng.uniform(50., 100., H.shape)).astype(np.float32) if two else dep
    data = {n: f(n, tim[:, None, None, None], (dep2 if n == 'P' else dep).astype(float), lat[None, None, :, None], lon[None, None, None, :]).astype(np.float32) for n in names}
    var = {'v' + n: (['t', 's', 'y', 'x'], d) for n, d in data.items()}
    var['vD'] = (['t', 's', 'y', 'x'], dep)
    if two:
        var['vD2'] = (['t', 's', 'y', 'x'], dep2)
    coords = {'clon': (['y', 'x'], np.tile(lon, (ny, 1)).astype(np.float32)), 'clat': (['y', 'x'], np.tile(lat[:, None], (1, nx)).astype(np.float32))} if curv else {
        'clon': (['x'], lon.astype(np.float32)), 'clat': (['y'], lat.astype(np.float32))}
    deferred = bool(rng.random() < .7)
    rec.event('depth_field_deferred', deferred)
    split = bool(rng.random() < .5) or not deferred
    files = write(rng, rec, var, coords, tim, split, False)
    dims = {'lon': 'clon', 'lat': 'clat', 'depth': 'not_yet_set', 'time': 't'}
    kw = {}
    if deferred and rng.random() < .4:
        rec.event('depth_field_chunked')
        kw['chunksize'] = {'lon': ('x', int(rng.integers(2, 5))), 'lat': ('y', int(rng.integers(2, 5))), 'depth': ('s', int(rng.integers(1, 4))), 'time': ('t', 1)} \
            if rng.random() < .6 else 'auto'
    allv = names + ['D'] + (['D2'] if two else [])
    order = [str(v) for v in rng.permutation(allv)]
    fs = P.FieldSet.from_netcdf({n: files for n in order}, {n: 'v' + n for n in order}, {n: dict(dims) for n in order}, mesh='flat', deferred_load=deferred, **kw)
    for n in names:
        getattr(fs, n).set_depth_from_field(fs.D2 if two and n == 'P' else fs.D)
    det = dict(what='depth from a field', deferred=deferred, curvilinear=curv, shape=[nt, nz, ny, nx], options={q: repr(v) for q, v in kw.items()}, split=split, order=order, two=two)
    rec.state('depth field', deferred, curv, split, repr(kw.get('chunksize'))[:5], mode)
    n = 6
    ci, xs, x = inside(rng, lon, n)
    cj, et, y = inside(rng, lat, n)
    low, high = max(dep[:, 0].max(), dep2[:, 0].max()), min(dep[:, -1].min(), dep2[:, -1].min())
    z = rng.uniform(low + .02 * (high - low), high - .02 * (high - low), n)
    drive(P, rec, rng, fs, mode, {'s' + q: 'fieldset.%s[time, particle.depth, particle.lat, particle.lon]' % q for q in names}, (x, y, z), tim, det,
          lambda q, t: {'s' + m: (f(m, t, z[q], y[q], x[q]), 2e-3) for m in names})
    rec.setsample(**det)


def computed(P, rec, rng, mode):
    """a function of the user computes one field from the others whenever data are loaded"""
    rec.event('computed')
    nx, ny, nz, nt = int(rng.integers(3, 7)), int(rng.integers(3, 7)), int(rng.integers(1, 4)), int(rng.integers(3, 6))
    lon, lat, tim, dep = axis(rng, nx, 0., 10.), axis(rng, ny, 0., 10.), axis(rng, nt, 0., 100.), axis(rng, nz, 0., 10.)
    lon, lat, dep = (a.astype(np.float32).astype(float) for a in (lon, lat, dep))
    co = {n: rng.uniform(-1, 1, 5) for n in 'UVP'}

    def f(n, t, z, y, x):
        c = co[n]
        return c[0] + c[1] * x / 30. + c[2] * y / 30. + c[3] * z / 20. + c[4] * t / 200.
    data = {n: f(n, tim[:, None, None, None], dep[None, :, None, None], lat[None, None, :, None], lon[None, None, None, :]).astype(np.float32) for n in 'UVP'}
    var = {'v' + n: (['t', 'z', 'y', 'x'], d) for n, d in data.items()}
    files = write(rng, rec, var, {'clon': (['x'], lon.astype(np.float32)), 'clat': (['y'], lat.astype(np.float32)), 'cdep': (['z'], dep.astype(np.float32))}, tim,
                  bool(rng.random() < .5), False)
    dims = {'lon': 'clon', 'lat': 'clat', 'time': 't', 'depth': 'cdep'}
    fs = P.FieldSet.from_netcdf(files, {n: 'v' + n for n in 'UVP'}, dims, mesh='flat', deferred_load=True, chunksize=False)
    calls = []

    def compute(fieldset):
        calls.append(1)
        fieldset.P.data[:] = 2 * fieldset.U.data - fieldset.V.data
    fs.compute_on_defer = compute
    n = 6
    ci, xs, x = inside(rng, lon, n)
    cj, et, y = inside(rng, lat, n)
    z = inside(rng, dep, n)[2] if nz > 1 else np.full(n, dep[0])
    det = dict(what='computed field', shape=[nt, nz, ny, nx])
    rec.state('computed', nz > 1, mode)
    drive(P, rec, rng, fs, mode, {'s' + q: 'fieldset.%s[time, particle.depth, particle.lat, particle.lon]' % q for q in 'UVP'}, (x, y, z), tim, det,
          lambda q, t: dict({'s' + m: (f(m, t, z[q], y[q], x[q]), 1e-3) for m in 'UV'}, sP=(2 * f('U', t, z[q], y[q], x[q]) - f('V', t, z[q], y[q], x[q]), 3e-3)))
    rec.setsample(**det)


def advance(P, rec, rng, mode):
    """snapshots are replaced one after the other"""
    back = bool(rng.random() < .4)
    rec.event('advance_backward' if back else 'advance_forward')
    nx, ny, nt, more = int(rng.integers(2, 6)), int(rng.integers(2, 6)), int(rng.integers(2, 4)), int(rng.integers(1, 4))
    lon, lat = axis(rng, nx, 0., 10.).astype(np.float32).astype(float), axis(rng, ny, 0., 10.).astype(np.float32).astype(float)
    tim = axis(rng, nt + more, 0., 100.)
    names = ['U', 'V', 'P']
    data = {n: rng.uniform(-2, 2, (nt + more, ny, nx)).astype(np.float32) for n in names}

    def make(sl):
        return P.FieldSet.from_data({n: data[n][sl] for n in names}, {'lon': lon.astype(np.float32), 'lat': lat.astype(np.float32), 'time': tim[sl]}, mesh='flat')
    have = slice(more, nt + more) if back else slice(0, nt)
    fs = make(have)
    det = dict(what='advancetime', backward=back, shape=[nt, ny, nx], more=more)
    rec.state('advance', back, nt, mode)
    for m in range(more + 1):
        if m:
            new = slice(have.start - 1, have.start) if back else slice(have.stop, have.stop + 1)
            if rng.random() < .5:   # a time that the fields have already, or lie between, is refused
                rec.event('advance_refused')
                twice = make(slice(have.start, have.start + 1) if rng.random() < .5 else slice(have.stop - 1, have.stop))
                try:
                    fs.advancetime(twice)
                    rec.violation('advance-overlap', 'a snapshot at a time in the field is added', **det)
                    return
                except RuntimeError:
                    pass
            fs.advancetime(make(new))
            have = slice(have.start - 1, have.stop - 1) if back else slice(have.start + 1, have.stop + 1)
        tt = tim[have]
        n = 6
        ci, xs, x = inside(rng, lon, n)
        cj, et, y = inside(rng, lat, n)

        def value(name, q, t):
            out = 0.
            for w, s in weights(tt, t):
                d = data[name][have][s]
                i, j, a, e = ci[q], cj[q], xs[q], et[q]
                out += w * ((1 - a) * (1 - e) * d[j, i] + a * (1 - e) * d[j, i + 1] + a * e * d[j + 1, i + 1] + (1 - a) * e * d[j + 1, i])
            return out
        if not drive(P, rec, rng, fs, mode, {'s' + q: 'fieldset.%s[time, particle.depth, particle.lat, particle.lon]' % q for q in names}, (x, y, np.zeros(n)), tt,
                     dict(det, replaced=m), lambda q, t: {'s' + v: (value(v, q, t), 1e-3) for v in names}):
            return
    rec.setsample(**det)
