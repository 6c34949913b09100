"""C18: raw interpolated values with and without the unit conversion (field sets built in every way, explicit field types and converters, summed, nested
and vector fields, interpreted and compiled samples, direct calls) are compared with independently computed factors; inverse conversions and cell sizes
are checked on random values and latitudes."""
import math

import numpy as np

from ..gen import choice, mkkernel, quiet_fieldset, workdir  # noqa: F401
from rt.core import rng_for

RULE = ('a scenario is a field set on a flat or spherical mesh (latitudes up to the poles) with 3-6 fields of chosen names, field types and converters, built by one '
        'of the constructors, sampled in one mode in several forms; non-trivial = distinct (mesh, type, form, mode, constructor) with a compared sample')
REQUIRED = {'samples_U': 60, 'samples_V': 60, 'samples_Kh_zonal': 30, 'samples_Kh_meridional': 30, 'samples_other': 100, 'samples_custom': 20,
            'flat': 15, 'spherical': 30, 'jit': 15, 'scipy': 10, 'form_item': 60, 'form_particle': 20, 'form_raw': 60, 'form_vector': 20, 'form_summed': 15,
            'form_nested': 15, 'form_direct': 60, 'near_pole': 10, 'explicit_type': 40, 'inverse': 500, 'cells': 100, 'build_netcdf': 10,
            'build_xarray': 8, 'build_field': 15,
            'mixed_samples': 60, 'mixed_grids': 10, 'mixed_uv': 8, 'mixed_uvw': 5, 'mixed_summed': 8, 'mixed_nested': 4}
ASSUMPTIONS = ['fields are linear in longitude and latitude, so that the raw value is known to single precision']
D = 1852 * 60.


def scenarios(tier, seed):
    n = 160 if tier == 'quick' else 4000
    return [{'seed': seed, 'k': k} for k in range(n)]


def factor(kind, lat, mesh, xyz=None):
    if mesh == 'flat' and kind != 'custom':
        return 1.
    c = math.cos(math.radians(lat))
    if kind == 'U':
        return 1. / (D * c)
    if kind == 'V':
        return 1. / D
    if kind == 'Kh_zonal':
        return 1. / (D * c) ** 2
    if kind == 'Kh_meridional':
        return 1. / D ** 2
    if kind == 'custom':
        return 2. + 0.25 * xyz[0] + 0.5 * xyz[1] - .125 * xyz[2]
    return 1.


def inverse(P, rec, rng):
    import parcels.tools.converters as C
    env = {'cos': math.cos, 'pow': pow, 'M_PI': math.pi}
    kinds = {'U': C.GeographicPolar, 'V': C.Geographic, 'Kh_zonal': C.GeographicPolarSquare, 'Kh_meridional': C.GeographicSquare, None: C.UnitConverter}
    for kind, cls in kinds.items():
        c = cls()
        for _ in range(8):
            v, y = float(rng.normal() * 10. ** rng.integers(-6, 7)), float(choice(rng, [0., 89.9, -89.9, 60., rng.uniform(-89.9, 89.9)]))
            x, z = float(rng.uniform(-180, 360)), float(rng.uniform(0, 5000))
            f = factor(kind, y, 'spherical')
            got = dict(to_target=c.to_target(v, x, y, z), to_source=c.to_source(v, x, y, z), back=c.to_source(c.to_target(v, x, y, z), x, y, z),
                       ccode_to_target=v * eval(c.ccode_to_target('(%r)' % x, '(%r)' % y, '(%r)' % z), env),
                       ccode_to_source=v * eval(c.ccode_to_source('(%r)' % x, '(%r)' % y, '(%r)' % z), env))
            want = dict(to_target=v * f, to_source=v / f, back=v, ccode_to_target=v * f, ccode_to_source=v / f)
            for k in want:
                rec.event('inverse')
                if abs(got[k] - want[k]) > 1e-12 * abs(want[k]):
                    rec.violation('converter', '%s.%s of %r at latitude %r is %r instead of %r' % (cls.__name__, k, v, y, got[k], want[k]))
                    return


def cells(P, rec, rng):
    mesh = choice(rng, ['flat', 'spherical'])
    nx, ny = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    lon, lat = np.cumsum(rng.uniform(.5, 2, nx)).astype(np.float32), (np.cumsum(rng.uniform(.5, 2, ny)) + float(choice(rng, [0., -70., 60.]))).astype(np.float32)
    f = P.Field('P', np.zeros((ny, nx), dtype=np.float32), lon=lon, lat=lat, mesh=mesh)
    area = np.array(f.cell_areas())
    def grad(a):
        a = a.astype(np.float64)
        return np.gradient(a)
    for j in range(ny):
        for i in range(nx):
            rec.event('cells')
            dx, dy = grad(lon)[i], grad(lat)[j]
            if mesh == 'spherical':
                dx, dy = dx * D * math.cos(math.radians(float(lat[j]))), dy * D
            got = (float(f.grid.cell_edge_sizes['x'][j, i]), float(f.grid.cell_edge_sizes['y'][j, i]), float(area[j, i]))
            if any(abs(a - b) > 2e-5 * abs(b) for a, b in zip(got, (dx, dy, dx * dy))):
                rec.violation('cell size', '%s mesh: cell (%d, %d) has sizes and area %r instead of %r' % (mesh, j, i, got, (dx, dy, dx * dy)),
                              lon=lon.tolist(), lat=lat.tolist())
                return


def custom_converter(P):
    from parcels.tools.converters import UnitConverter

    class Tilted(UnitConverter):
        def to_target(self, value, x, y, z):
            return value * (2. + 0.25 * x + 0.5 * y - .125 * z)

        def ccode_to_target(self, x, y, z):
            return '(2. + 0.25 * %s + 0.5 * %s - .125 * %s)' % (x, y, z)
    return Tilted()


def run(scn, rec):
    import parcels as P
    rng = rng_for('C18', scn['seed'], scn['k'])
    inverse(P, rec, rng)
    cells(P, rec, rng)
    with workdir():
        if scn['k'] % 4 == 3:
            mixed(P, rec, rng)
        else:
            _run(P, rec, rng)


def mixed(P, rec, rng):
    """Summed and nested velocities of fields on different kinds of grids: the value is the sum of (is one of) the velocities of the parts, which is checked
    against the factors for the parts themselves (uniform velocities on small cells)."""
    mode = choice(rng, ['jit', 'jit', 'scipy'])
    rec.event(mode)
    lat0, lon0 = float(rng.uniform(-70, 65)), float(choice(rng, [0., 100., -170., 177.]))
    three = bool(rng.random() < .4)
    rec.event('mixed_uvw' if three else 'mixed_uv')
    parts, spec = [], []
    nested = bool(rng.random() < .4)
    far = nested and bool(rng.random() < .5)   # the first part does not cover the positions
    for i in range(int(rng.integers(2, 4))):
        kind = choice(rng, ['a', 'c', 'c'] if i else ['a', 'a', 'c'])
        mesh = choice(rng, ['spherical', 'spherical', 'spherical', 'flat'])
        curvi = bool(rng.random() < .4)
        n = int(rng.integers(4, 7))
        h = 1.5 / (n - 1) * float(rng.uniform(1., 1.2))
        x, y = lon0 - .25 + h * np.arange(n), lat0 - .25 + h * np.arange(n) + (5. if far and not i else 0.)
        u, v, w = [float(q) for q in rng.uniform(.2, 2., 3) * rng.choice([-1., 1.], 3)]
        dep = np.array([0., 10., 20.], dtype=np.float32) if three else None
        if curvi:
            gx, gy = np.meshgrid(x, y)
            grid = P.CurvilinearZGrid(gx.astype(np.float32), gy.astype(np.float32), depth=dep, mesh=mesh)
        else:
            grid = P.RectilinearZGrid(x.astype(np.float32), y.astype(np.float32), depth=dep, mesh=mesh)
        im = 'cgrid_velocity' if kind == 'c' else 'linear'
        shape = (3, n, n) if three else (n, n)
        f = {k: P.Field(k, np.full(shape, q, dtype=np.float32), grid=grid, interp_method=im) for k, q in (('U', u), ('V', v), ('W', w)) if k != 'W' or three}
        parts.append(P.FieldSet(f['U'], f['V'], {'W': f['W']} if three else None))
        spec.append(dict(kind=kind, mesh=mesh, curvi=curvi, u=u, v=v, w=w, n=n))
    kinds = ''.join(q['kind'] for q in spec)
    rec.event('mixed_nested' if nested else 'mixed_summed')
    if len(set(kinds)) > 1:
        rec.event('mixed_grids')
    cmb = P.field.NestedField if nested else P.field.SummedField
    comp = 'UVW' if three else 'UV'
    comb = {k: cmb(k, [getattr(p, k) for p in parts]) for k in comp}
    fs = P.FieldSet(comb['U'], comb['V'], {'W': comb['W']} if three else None)
    npart = 4
    px, py = lon0 + rng.uniform(0., 1., npart), lat0 + rng.uniform(0., 1., npart)
    pz = rng.uniform(1., 19., npart) if three else np.zeros(npart)
    expected = np.zeros((npart, len(comp)))
    for j, (p, q) in enumerate(zip(parts, spec)):
        if nested and j != (1 if far else 0):
            continue
        for i in range(npart):
            y = float(py[i])
            sph = q['mesh'] == 'spherical'
            one = np.array([q['u'] * (factor('U', y, 'spherical') if sph else 1.), q['v'] * (factor('V', y, 'spherical') if sph else 1.), q['w']][:len(comp)])
            expected[i] += one
    pc = type('MonP', (P.JITParticle if mode == 'jit' else P.ScipyParticle,), {'s' + k: P.Variable('s' + k, dtype=np.float64, initial=-1.) for k in comp})
    body = '    (%s) = fieldset.%s[time, particle.depth, particle.lat, particle.lon]\n' % (', '.join('v' + k for k in comp), comp)
    kern = mkkernel('def Sample(particle, fieldset, time):\n' + body + ''.join('    particle.s%s = v%s\n' % (k, k) for k in comp), 'Sample')
    ps = P.ParticleSet(fs, pclass=pc, lon=px, lat=py, depth=pz, lonlatdepth_dtype=np.float64)
    ps.execute(kern, runtime=0, dt=0, verbose_progress=False)
    det = dict(mode=mode, parts=spec, nested=nested, first_elsewhere=far, lon=px.tolist(), lat=py.tolist(), depth=pz.tolist())
    scale = np.zeros(len(comp))
    for q in spec:
        sph = q['mesh'] == 'spherical'
        scale += [abs(q['u']) * (factor('U', 70., 'spherical') if sph else 1.), abs(q['v']) * (factor('V', 0., 'spherical') if sph else 1.), abs(q['w'])][:len(comp)]
    for i, p in enumerate(ps):
        got = np.array([float(getattr(p, 's' + k)) for k in comp])
        rec.event('mixed_samples')
        rec.state('mixed', kinds, three, nested, far, mode, tuple(q['mesh'] for q in spec))
        # within a C-grid cell the size of the velocity follows the change of the width of the cell over its height
        tol = .08 * np.abs(expected[i]) + .02 * scale + 1e-12
        if not (np.abs(got - expected[i]) <= tol).all():
            rec.violation('wrong combined velocity', '%s mode: the %s velocity of parts %r at (%r, %r) is %r instead of %r' % (
                mode, 'nested' if nested else 'summed', [(q['kind'], q['mesh']) for q in spec], px[i], py[i], got.tolist(), expected[i].tolist()), **det)
            return
    rec.setsample(**det)


NAMES = ['U', 'V', 'W', 'Kh_zonal', 'Kh_meridional', 'P', 'temp', 'X1', 'X2', 'X3', 'u', 'Ustokes', 'V2']


def _run(P, rec, rng):
    mode = choice(rng, ['jit', 'jit', 'scipy'])
    mesh = choice(rng, ['flat', 'spherical', 'spherical'])
    rec.event(mode)
    rec.event(mesh)
    lat0 = float(choice(rng, [0., 0., 40., -60., 84., -89.9, 85.])) if mesh == 'spherical' else float(rng.uniform(-100, 100))
    lon0 = float(choice(rng, [0., 100., -170.]))
    nx, ny, nz, nt = [int(v) for v in rng.integers(2, 6, 4)]
    lon, lat = lon0 + np.linspace(0., 4., nx), lat0 + np.linspace(0., 4.9, ny)
    dep, tim = np.linspace(0., 10., nz), np.linspace(0., 100., nt)
    if abs(lat0) > 80:
        rec.event('near_pole')
    build = choice(rng, ['data', 'field', 'netcdf', 'xarray', 'netcdf'])
    rec.event('build_' + build)
    names = ['U', 'V'] + (['W'] if rng.random() < .5 else []) + sorted({str(n) for n in rng.choice(NAMES[3:], size=int(rng.integers(2, 6)))})
    types = {}
    for n in names:   # the explicit types
        if build != 'data' and (rng.random() < .5 if n not in 'UVW' else rng.random() < .1):
            types[n] = choice(rng, ['U', 'V', 'Kh_zonal', 'Kh_meridional', 'P', 'W'])
            rec.event('explicit_type')
    coef = {n: [float(v) for v in rng.uniform(.5, 2., 3)] for n in names}

    def data(n, x, y):
        a, b, c = coef[n]
        return a + b * (x - lon0) + c * (y - lat0)
    arr = {n: np.broadcast_to(data(n, lon[None, None, None, :], lat[None, None, :, None]), (nt, nz, ny, nx)).astype(np.float32).copy() for n in names}
    kind = {n: types.get(n, n) for n in names}
    custom = [n for n in names if rng.random() < .15]
    dims = {'time': tim, 'depth': dep, 'lat': lat.astype(np.float32), 'lon': lon.astype(np.float32)}
    if build == 'data':
        fs = P.FieldSet.from_data(arr, dims, mesh=mesh, allow_time_extrapolation=True)
    elif build == 'field':
        grid = P.RectilinearZGrid(dims['lon'], dims['lat'], depth=dep.astype(np.float32), time=tim, mesh=mesh)
        fields = {n: (P.Field(n, arr[n], grid=grid, fieldtype=types.get(n), allow_time_extrapolation=True) if rng.random() < .5 else
                      P.Field(n, arr[n], mesh=mesh, fieldtype=types.get(n), allow_time_extrapolation=True, **dims)) for n in names}
        fs = P.FieldSet(fields['U'], fields['V'], {n: f for n, f in fields.items() if n not in 'UV'})
    else:
        import xarray as xr
        ds = xr.Dataset({'v_' + n: (['t', 'z', 'y', 'x'], arr[n]) for n in names}, coords={'t': tim, 'z': dep, 'y': dims['lat'], 'x': dims['lon']})
        variables, dd = {n: 'v_' + n for n in names}, {'time': 't', 'depth': 'z', 'lat': 'y', 'lon': 'x'}
        if rng.random() < .5:   # another order of the fields
            variables = {n: variables[n] for n in [str(v) for v in rng.permutation(names)]}
        kw = dict(fieldtype=dict(types)) if types else {}
        if build == 'xarray':
            fs = P.FieldSet.from_xarray_dataset(ds, variables, dd, mesh=mesh, allow_time_extrapolation=True, **kw)
        else:
            ds.to_netcdf('f.nc')
            fs = P.FieldSet.from_netcdf('f.nc', variables, dd, mesh=mesh, allow_time_extrapolation=True,
                                        deferred_load=bool(rng.random() < .5), **kw)
    if rng.random() < .5:
        v = float(rng.uniform(1, 3))
        n = choice(rng, ['Kh_zonal', 'Kh_meridional', 'K0'])
        if n not in names:
            fs.add_constant_field(n, v, mesh=mesh)
            coef[n], kind[n] = [v, 0., 0.], n
            names.append(n)
    if rng.random() < .4:   # a field on a mesh of its own, under another name
        m = choice(rng, ['flat', 'spherical'])
        f = P.Field('Other', fieldtype='U', data=np.full((2, 2), 3., dtype=np.float32), lon=np.array([lon0 - 2, lon0 + 6], dtype=np.float32),
                    lat=np.array([lat0 - 2, lat0 + 7], dtype=np.float32), mesh=m)
        fs.add_field(f)
        names.append('Other')
        coef['Other'], kind['Other'] = [3., 0., 0.], 'U' if m == 'spherical' else 'none'
    forced = {'Other'}
    for n in custom:
        getattr(fs, n).units = custom_converter(P)
        kind[n] = 'custom'

    def want(n, x, y, z, raw=False):
        v = data(n, x, y)
        if raw:
            return v
        k = kind[n]
        if n in forced:
            return v * factor(k, y, 'spherical')
        return v * factor(k, y, mesh, (x, y, z))
    # combinations
    combos = {}
    others = [n for n in names if n not in ('U', 'V', 'W')]
    if len(others) >= 2:
        a, b = [str(v) for v in rng.permutation(others)[:2]]
        fs.add_field(P.field.SummedField('SumF', [getattr(fs, a), getattr(fs, b)]))
        combos['SumF'] = (a, b)
        c, d = [str(v) for v in rng.permutation(others)[:2]]
        small = P.Field(d, np.full((2, 2), 7., dtype=np.float32), lon=np.array([lon0, lon0 + 1e-3], dtype=np.float32),
                        lat=np.array([lat0, lat0 + 1e-3], dtype=np.float32), mesh='spherical' if d in 'UV' else mesh)
        fs.add_field(P.field.NestedField('NestF', [small, getattr(fs, c)]))
        combos['NestF'] = (c,)
    else:
        c = others[0]
    vec = 'UVW' if 'W' in names else 'UV'
    out = {}    # variable -> (expression, fields, raw)
    body = []
    for i, n in enumerate(names):
        form = choice(rng, ['item', 'item', 'particle', 'raw', 'raw', 'lat'])
        rec.event('form_' + ('item' if form == 'lat' else form))
        e = {'item': 'fieldset.%s[time, particle.depth, particle.lat, particle.lon]', 'particle': 'fieldset.%s[particle]',
             'raw': 'fieldset.%s.eval(time, particle.depth, particle.lat, particle.lon, applyConversion=False)',
             'lat': 'fieldset.%s[time, particle.depth, particle.lat - 0.01 + 0.005, particle.lon - .01]'}[form] % n
        out['s%d' % i] = (e, [n], form == 'raw', form == 'lat')
        body.append('particle.s%d = %s' % (i, e))
    body.append('(%s) = fieldset.%s[time, particle.depth, particle.lat, particle.lon]' % (', '.join('w%d' % i for i in range(len(vec))), vec))
    for i, n in enumerate(vec):
        body.append('particle.v%d = w%d' % (i, i))
        out['v%d' % i] = ('component %s of %s' % (n, vec), [n], False, False)
    rec.event('form_vector')
    for i, (k, parts) in enumerate(combos.items()):
        body.append('particle.c%d = fieldset.%s[time, particle.depth, particle.lat, particle.lon]' % (i, k))
        out['c%d' % i] = (k, list(parts), False, False)
        rec.event('form_summed' if k == 'SumF' else 'form_nested')
    kern = mkkernel('def Sample(particle, fieldset, time):\n' + ''.join('    %s\n' % b for b in body), 'Sample')
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    pc = type('MonP', (base,), {n: P.Variable(n, dtype=np.float64, initial=-1.) for n in out})
    npart = 4
    x = lon0 + rng.uniform(.1, 3.9, npart)
    y = lat0 + rng.uniform(.1, 4.8, npart)
    z = rng.uniform(.1, 9.9, npart)
    t = [float(choice(rng, [0., 50., rng.uniform(0, 99)])) for _ in range(npart)]
    ps = P.ParticleSet(fs, pclass=pc, lon=x, lat=y, depth=z, time=t, lonlatdepth_dtype=np.float64)
    ps.execute(kern, runtime=0, dt=0, verbose_progress=False) if rng.random() < .3 else ps.execute(kern, runtime=100, dt=200., verbose_progress=False)
    detail = dict(mode=mode, mesh=mesh, build=build, names=names, types=types, custom=custom, combos=combos, lon=lon.tolist(), lat=lat.tolist(),
                  coef=coef, body=body)
    xl = {}
    for i, p in enumerate(ps):
        px, py, pz = float(p.lon), float(p.lat), float(p.depth)
        for k, (e, flds, raw, shift) in out.items():
            qx, qy = (px - .01, py - .01 + .005) if shift else (px, py)
            w = sum(want(n, qx, qy, pz, raw) for n in flds)
            g = float(getattr(p, k))
            for n in flds:
                tag = kind[n] if kind[n] in ('U', 'V', 'Kh_zonal', 'Kh_meridional', 'custom') else 'other'
                rec.event('samples_' + tag)
                rec.state(mesh, tag, k[0], raw, mode, build, n in types)
            # positions in the cell are rounded to single precision relative to the coordinate
            scale = sum(abs(want(n, qx, qy, pz, raw) / max(abs(data(n, qx, qy)), 1e-30)) * (abs(data(n, qx, qy)) + 10.) for n in flds)
            tol = 1e-5 * scale + (3e-7 / abs(math.cos(math.radians(qy))) * abs(w) if mesh == 'spherical' else 0.)
            if not abs(g - w) <= tol * 2:
                rec.violation('wrong sample', '%s mode, %s mesh: %s at %r gives %r instead of %r (types %r)' % (
                    mode, mesh, e, (qx, qy, pz), g, w, [kind[n] for n in flds]), **detail)
                return
    # direct calls
    for n in names:
        f = getattr(fs, n)
        i = int(rng.integers(npart))
        a = (t[i], float(z[i]), float(y[i]), float(x[i]))
        for got, w, e in ((f.eval(*a), want(n, a[3], a[2], a[1]), 'eval'), (f[a], want(n, a[3], a[2], a[1]), 'item'),
                          (f.eval(*a, applyConversion=False), want(n, a[3], a[2], a[1], True), 'raw'),
                          (f.units.to_source(f.eval(*a), a[3], a[2], a[1]) if kind[n] != 'custom' else want(n, a[3], a[2], a[1], True),
                           want(n, a[3], a[2], a[1], True), 'to_source')):
            rec.event('form_direct')
            if not abs(float(got) - w) <= 2e-5 * (abs(w) * (1 + 10. / data(n, a[3], a[2]))):
                rec.violation('wrong direct value', '%s mesh: %s of field %s (type %s) at %r gives %r instead of %r' % (
                    mesh, e, n, kind[n], a, float(got), w), **detail)
                return
    a = (t[0], float(z[0]), float(y[0]), float(x[0]))
    for n, got in zip(vec, getattr(fs, vec)[a]):
        w = want(n, a[3], a[2], a[1])
        if not abs(float(got) - w) <= 2e-5 * (abs(w) * (1 + 10. / data(n, a[3], a[2]))):
            rec.violation('wrong direct value', '%s mesh: component %s of %s (type %s) at %r gives %r instead of %r' % (
                mesh, n, vec, kind[n], a, float(got), w), **detail)
            return
    rec.setsample(mode=mode, mesh=mesh, build=build, types=types, custom=custom)
