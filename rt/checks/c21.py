"""C21: the same numbers are supplied through every constructor, orientation, file layout, index subset and type; every field is sampled in compiled and interpreted
kernels and compared with a multilinear interpolation of the numbers by the monitor, with per-field options (scaling, limits, method, time axis, periodicity,
dimensions) applied by the monitor to the one field they were given for."""
import datetime
import os

import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, workdir

RULE = ('a scenario is a set of three to five fields on one to three grids of random shape (rectilinear or curvilinear, with or without time and depth), one way to supply them '
        '(arrays, Field objects, datasets, files, written and read back) and per-field options; non-trivial = distinct (constructor, orientation, dimensions, '
        'options) with compared values')
REQUIRED = {'values': 6000, 'build_data': 15, 'build_field': 15, 'build_xarray': 10, 'build_netcdf': 30, 'rewritten': 10, 'transposed': 8, 'flipped': 10, 'indices': 8,
            'deferred': 10, 'chunked': 4, 'many_files': 10, 'own_files': 5, 'coord_files': 3, 'scaled': 15, 'limited': 10, 'nearest': 10, 'static': 10, 'extrapolated': 5,
            'refused': 10, 'periodic': 5, 'shared_array': 5, 'curvilinear': 10, 'own_grid': 20, 'own_time': 8, 'length1': 10, 'nan': 10}
ASSUMPTIONS = ['values are compared at points inside cells, away from the nodes']

METRES = 1852. * 60.


def scenarios(tier, seed):
    n = 150 if tier == 'quick' else 4000
    return [{'seed': seed, 'k': k} for k in range(n)]


class GridSpec(object):
    def __init__(self, rng, mesh, tdim, zdim, curv, far):
        self.mesh, self.curv = mesh, curv
        self.ny, self.nx = int(choice(rng, [4, 5, 6, 7])), int(choice(rng, [4, 5, 6, 7]))
        dx = 1. if mesh == 'spherical' else 1000.
        x0, y0 = (choice(rng, [-20., 0., 100.]), choice(rng, [-40., -3., 30.])) if mesh == 'spherical' else (choice(rng, [0., -3000., far]), choice(rng, [0., far]))
        if far and mesh == 'flat' and abs(x0) > 1e5:
            dx = 64.
        self.dx = dx
        sx, sy = (choice(rng, [.5, 1., 1.5, 2.], ) for _ in range(2))
        ex = rng.choice([1., 1., 1.5], self.nx - 1) if rng.random() < .5 else np.ones(self.nx - 1)
        ey = rng.choice([1., 1., 1.5], self.ny - 1) if rng.random() < .5 else np.ones(self.ny - 1)
        lon = x0 + dx * sx * np.append(0, np.cumsum(ex))
        lat = y0 + dx * sy * np.append(0, np.cumsum(ey))
        if curv:
            LON, LAT = np.meshgrid(lon, lat)
            a = dx * .1
            j, i = np.mgrid[:self.ny, :self.nx]
            LON = LON + a * (j % 3) * sx
            LAT = LAT + a * ((i * 2) % 5) / 2. * sy
            lon, lat = LON, LAT
        self.lon, self.lat = np.float32(lon), np.float32(lat)
        self.depth = (np.append(0., np.cumsum(rng.choice([1., 2., 4.], zdim - 1))) + choice(rng, [0., 0., 10.])).astype('f4') if zdim else None
        self.time = np.append(0, np.cumsum(rng.choice([64., 128., 96.], tdim - 1))) if tdim else None

    def shift(self, rng):
        """another grid of the same shape, half a cell away"""
        import copy
        g = copy.copy(self)
        d = np.float32(.5 * self.dx)
        g.lon, g.lat = (self.lon + d, self.lat) if rng.random() < .5 else (self.lon, self.lat + d)
        return g

    @property
    def shape(self):
        return (len(self.time) if self.time is not None else 1, len(self.depth) if self.depth is not None else 1, self.ny, self.nx)


def make(rng):
    mesh = choice(rng, ['flat', 'spherical'])
    how = choice(rng, ['data', 'data', 'field', 'field', 'xarray', 'fxarray', 'netcdf', 'netcdf', 'netcdf', 'netcdf'])
    tdim = int(choice(rng, [0, 1, 3, 4, 5])) if how != 'xarray' else int(choice(rng, [0, 1, 3, 4]))
    zdim = int(choice(rng, [0, 1, 3, 4]))
    far = choice(rng, [2. ** 21, 2. ** 23]) if rng.random() < .3 else 0.
    g = GridSpec(rng, mesh, tdim, zdim, rng.random() < .3, far)
    grids = {'U': g, 'V': g, 'P': g}
    if rng.random() < .6:
        own = choice(rng, ['grid', 'shift', 'time', 'static', 'nodepth'])
        if own == 'grid':
            q = GridSpec(rng, mesh, tdim, zdim, rng.random() < .3, far)
            q.lon = q.lon + (g.lon.min() - q.lon.min())
            q.lat = q.lat + (g.lat.min() - q.lat.min())
            q.time = g.time
        else:
            q = g.shift(rng) if own == 'shift' else g.shift(rng) if rng.random() < .3 else g
            import copy
            q = copy.copy(q)
            if own == 'time' and tdim > 1:
                q.time = g.time * choice(rng, [1., .5, 1.25]) + (choice(rng, [0., 0., 32.]) if how in ('data', 'field') else 0.)
            if own == 'static':
                q.time = None
            if own == 'nodepth':
                q.depth = None
        grids['Q'] = q
    else:
        own = ''
    names = list(grids)
    data = {}
    for n in names:
        d = np.float32(rng.integers(-64, 65, grids[n].shape)) / 8
        data[n] = d
    return {'mesh': mesh, 'how': how, 'grids': grids, 'own': own, 'data': data, 'opts': {n: {} for n in names}, 'far': far}


def blend(c, a):
    """multilinear blend of the last axes of corners c by fractions a"""
    for f in a[::-1]:
        c = c[..., 0] * (1 - f) + c[..., 1] * f
    return c


def reference(s, name, rng):
    """a query: position, time and the expected value"""
    g, d, o = s['grids'][name], s['expected'][name], s['opts'][name]
    nt, nz, ny, nx = d.shape
    j, i = int(rng.integers(ny - 1)), int(rng.integers(nx - 1))
    eta, xi = (float(rng.choice([.25, .375, .625, .75])) for _ in range(2))
    lon = g.lon if g.curv else np.broadcast_to(g.lon[None, :], (ny, nx))
    lat = g.lat if g.curv else np.broadcast_to(g.lat[:, None], (ny, nx))
    x = float(blend(np.float64(lon[j:j + 2, i:i + 2]), (eta, xi)))
    y = float(blend(np.float64(lat[j:j + 2, i:i + 2]), (eta, xi)))
    if nz > 1:
        k, ze = int(rng.integers(nz - 1)), float(rng.choice([.25, .375, .625, .75]))
        z = float(np.float64(g.depth[k]) * (1 - ze) + np.float64(g.depth[k + 1]) * ze)
    else:
        k, ze = 0, 0.
        z = float(g.depth[0]) if g.depth is not None else 0.
    near = o.get('interp') == 'nearest'
    if near:
        eta, xi, ze = round(eta), round(xi), round(ze)

    def at(n):
        c = np.float64(d[n, k:k + 2] if nz > 1 else np.stack([d[n, 0], d[n, 0]]))[:, j:j + 2, i:i + 2]
        return float(blend(c, (ze, eta, xi)))
    return x, y, z, at


def value(s, name, at, t):
    """the value at time t, or None if the field must refuse"""
    g, o = s['grids'][name], s['opts'][name]
    tt = g.time if g.time is not None else np.zeros(1)
    if o.get('extrapolate'):
        t = min(max(t, tt[0]), tt[-1])
    elif o.get('period'):
        p = o['period']
        t = tt[0] + (t - tt[0]) % p
        if t > tt[-1]:
            f = (t - tt[-1]) / (tt[0] + p - tt[-1])
            return at(len(tt) - 1) * (1 - f) + at(0) * f
    elif t < tt[0] or t > tt[-1]:
        return None
    if len(tt) == 1:
        return at(0)
    n = min(int(np.searchsorted(tt, t, side='right')) - 1, len(tt) - 2)
    f = (t - tt[n]) / (tt[n + 1] - tt[n])
    return at(n) * (1 - f) + at(n + 1) * f


def convert(s, name, y):
    if s['mesh'] == 'spherical' and name == 'U':
        return 1 / (METRES * np.cos(np.radians(y)))
    if s['mesh'] == 'spherical' and name == 'V':
        return 1 / METRES
    return 1.


# ---------------------------------------------------------------------------------------- supply

def cast(rng, a, kind):
    if kind == 'list':
        return a.tolist()
    if kind == 'int':
        return np.round(a).astype(np.int64)
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'strided':
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    return a.astype(kind)


def squeezed(rng, g, d):
    """the data with the dimensions the user may leave out"""
    nt, nz = d.shape[:2]
    if nt == 1 and nz == 1:
        return choice(rng, [d, d[0], d[0, 0]])
    if nt == 1:
        return choice(rng, [d, d[0]])
    if nz == 1:
        return choice(rng, [d, d[:, 0]])
    return d


def array_form(rec, rng, s, g, d, allow_transpose=True, transpose=None):
    """(lon, lat, depth, time, data, transpose) as given to an array constructor"""
    lon, lat, depth, time = g.lon, g.lat, g.depth, g.time
    if not g.curv and rng.random() < .4:
        lat, d = lat[::-1], d[:, :, ::-1]
        rec.event('flipped')
    d = squeezed(rng, g, d)
    if d.ndim < 4:
        rec.event('length1')
    if transpose:
        d = d.T
        rec.event('transposed')
    d = cast(rng, np.ascontiguousarray(d), choice(rng, ['f4', 'f4', 'f8', '>f4', 'f2', 'fortran', 'strided', 'list']))
    ct = choice(rng, ['f4', 'f8', 'f8', '>f8'])
    lon, lat = lon.astype(ct), lat.astype(ct)
    depth = depth.astype(ct) if depth is not None else None
    return lon, lat, depth, time, d


def field_kwargs(o):
    kw = {}
    if 'interp' in o:
        kw['interp_method'] = o['interp']
    if 'vmin' in o:
        kw['vmin'] = o['vmin']
    if 'vmax' in o:
        kw['vmax'] = o['vmax']
    if 'period' in o:
        kw['time_periodic'] = o['period']
    return kw


def options(rec, rng, s):
    """choose options per field (those which the constructor can give to one field) and for all fields"""
    how = s['how']
    per_field = how in ('field', 'fxarray')
    names = list(s['grids'])
    common = {}
    if rng.random() < .3:
        common['vmin'] = float(choice(rng, [-2., 0., -8.]))
    if rng.random() < .3:
        common['vmax'] = float(choice(rng, [2., 4., 8.]))
    if how in ('data', 'netcdf', 'xarray') and rng.random() < .2 and all(g.time is not None and len(g.time) > 1 for g in s['grids'].values()):
        m = max(g.time[-1] - g.time[0] for g in s['grids'].values())
        common['period'] = float(m + choice(rng, [0., 32., 64.]))
        if any(g.time[-1] - g.time[0] == common['period'] for g in s['grids'].values()) and how == 'netcdf':
            common['period'] += 32.
    for n in names:
        o = s['opts'][n]
        o.update(common)
        g = s['grids'][n]
        if per_field:
            for k in ('vmin', 'vmax'):
                if rng.random() < .4:
                    o.pop(k, None)
            if g.time is not None and len(g.time) > 1 and rng.random() < .3:
                o['period'] = float(g.time[-1] - g.time[0] + choice(rng, [0., 32.]))
        if rng.random() < .3 and (per_field or how == 'netcdf'):
            o['interp'] = 'nearest'
            rec.event('nearest')
        if rng.random() < .3:
            o['scale'] = float(choice(rng, [2., -.5, .25]))
            rec.event('scaled')
        if 'vmin' in o or 'vmax' in o:
            rec.event('limited')
        if 'period' in o:
            rec.event('periodic')
    if how == 'fxarray':
        for n in names:     # not supported together: a written scaling, see rewritten
            pass
    s['common'] = common


def finish(s):
    """the expected numbers per field, and the extrapolation that follows from the dimensions given"""
    s['expected'] = {}
    for n, d in s['data'].items():
        o, g = s['opts'][n], s['grids'][n]
        d = np.float64(d)
        d = np.where(np.isnan(d), 0., d)
        if 'vmin' in o:
            d = np.where(d < o['vmin'], 0., d)
        if 'vmax' in o:
            d = np.where(d > o['vmax'], 0., d)
        s['expected'][n] = d * o.get('scale', 1.)


def extrapolate(s, given):
    """fields extrapolate in time unless they have a time dimension (or, made directly, more than one time)"""
    for n, g in s['grids'].items():
        o = s['opts'][n]
        if 'period' in o:
            o['extrapolate'] = False
        elif given == 'dims':
            o['extrapolate'] = g.time is None
        else:
            o['extrapolate'] = g.time is None or len(g.time) == 1


def apply_scale(s, fs):
    for n, o in s['opts'].items():
        if 'scale' in o:
            getattr(fs, n).set_scaling_factor(o['scale'])


def shared_arrays(rec, rng, s):
    """two fields get the very same array object"""
    if rng.random() < .4 and s['grids']['P'] is s['grids']['V']:
        s['data']['P'] = s['data']['V']
        s['same'] = ('P', 'V')
        rec.event('shared_array')


def put_nan(rec, rng, s):
    for n, d in s['data'].items():
        if rng.random() < .25 and not s.get('same'):
            s['data'][n] = d = d.copy()
            d[rng.random(d.shape) < .1] = np.nan
            rec.event('nan')


def dims_of(s, lon, lat, depth, time):
    d = {'lon': lon, 'lat': lat}
    if depth is not None:
        d['depth'] = depth
    if time is not None:
        d['time'] = time
    return d


def build_data(P, rec, rng, s):
    tr = bool(rng.random() < .4)
    data, dims = {}, {}
    same_dims = all(g is s['grids']['U'] for g in s['grids'].values()) and rng.random() < .5
    date0 = np.datetime64('2000-02-28T00:00:00') if rng.random() < .3 and all(g.time is not None and g.time[0] == 0 for g in s['grids'].values()) else None
    given = {}
    order = list(s['grids'])
    rng.shuffle(order)
    flip = bool(rng.random() < .4) and not any(g.curv for g in s['grids'].values())
    for n in order:
        g = s['grids'][n]
        d = s['data'][n]
        if same_dims:
            lon, lat, depth, time = g.lon, g.lat[::-1] if flip else g.lat, g.depth, g.time
            d = d[:, :, ::-1] if flip else d
            rec.event('flipped', flip)
            if s.get('same') and n in s['same'] and 'shared' in given:
                d = given['shared']
            else:
                d = squeezed(rng, g, d)
                d = np.ascontiguousarray(d.T if tr else d)
                rec.event('transposed', tr)
                if s.get('same') and n in s['same']:
                    given['shared'] = d
        else:
            lon, lat, depth, time, d = array_form(rec, rng, s, g, d, transpose=tr)
        if time is not None and date0 is not None:
            time = date0 + time.astype('m8[s]')
        elif time is not None and rng.random() < .3:
            time = time.tolist()
        data[n] = d
        dims[n] = dims_of(s, lon, lat, depth, time)
    kw = field_kwargs(s['common'])
    extrapolate(s, 'dims')
    fs = P.FieldSet.from_data(data, dims['U'] if same_dims else dims, transpose=tr, mesh=s['mesh'], **kw)
    return fs


def build_field(P, rec, rng, s):
    fields = {}
    gobj = {}
    order = list(s['grids'])
    rng.shuffle(order)
    from parcels.grid import Grid
    share = bool(rng.random() < .5)
    for n in order:
        g, o = s['grids'][n], s['opts'][n]
        kw = field_kwargs(o)
        tr = bool(rng.random() < .3)
        if share and rng.random() < .8:
            if id(g) not in gobj:
                gobj[id(g)] = Grid.create_grid(g.lon, g.lat, g.depth if g.depth is not None else np.zeros(1, np.float32), g.time if g.time is not None else np.zeros(1), mesh=s['mesh'], time_origin=P.tools.converters.TimeConverter(0))
            d = squeezed(rng, g, s['data'][n])
            if s.get('same') and n in s['same']:
                d = s['data'][n]
            elif tr:
                d = d.T
                kw['transpose'] = True
                rec.event('transposed')
            fields[n] = P.Field(n, d, grid=gobj[id(g)], **kw)
            rec.event('shared_grid')
        else:
            lon, lat, depth, time, d = array_form(rec, rng, s, g, s['data'][n], transpose=tr)
            fields[n] = P.Field(n, d, lon=lon, lat=lat, depth=depth, time=time, mesh=s['mesh'], transpose=tr, **kw)
    extrapolate(s, 'size')
    return assemble(P, rng, fields)


def assemble(P, rng, fields):
    rest = {n: f for n, f in fields.items() if n not in ('U', 'V')}
    if rng.random() < .5:
        return P.FieldSet(fields['U'], fields['V'], fields=rest)
    fs = P.FieldSet(fields['U'], fields['V'])
    for n, f in rest.items():
        fs.add_field(f) if rng.random() < .7 else fs.add_field(f, n)
    return fs


def dataset(rng, s, names, pad=None, flip=False, origin=None, dtype='f4', tag=''):
    """one in-memory dataset with the fields of names, which share a grid; pad = (left, right) per axis, filled with other numbers"""
    import xarray as xr
    g = s['grids'][names[0]]
    pad = pad or {}
    (l0, l1), (b0, b1), (z0, z1) = pad.get('lon', (0, 0)), pad.get('lat', (0, 0)), pad.get('depth', (0, 0))

    def ext(a, l, r, axis=-1):
        a = np.asarray(a, dtype=float)
        step = (np.take(a, [1], axis) - np.take(a, [0], axis)) if a.shape[axis] > 1 else np.ones(1)
        lo = [np.take(a, [0], axis) - step * (i + 1) for i in range(l)][::-1]
        hi = [np.take(a, [-1], axis) + step * (i + 1) for i in range(r)]
        return np.concatenate(lo + [a] + hi, axis)
    if g.curv:
        lon, lat = ext(ext(g.lon, l0, l1), b0, b1, 0), ext(ext(g.lat, l0, l1), b0, b1, 0)
    else:
        lon, lat = ext(g.lon, l0, l1), ext(g.lat, b0, b1)
    coords, vs = {}, {}
    if flip:
        lat = lat[::-1]
    h = ['y' + tag, 'x' + tag]
    coords['lon' + tag] = (h if g.curv else ['x' + tag], lon)
    coords['lat' + tag] = (h if g.curv else ['y' + tag], lat)
    lead = []
    if g.time is not None:
        tv = origin + g.time.astype('m8[s]').astype('m8[ns]') if origin is not None else g.time
        coords['time' + tag] = (['time' + tag], tv)
        lead.append('time' + tag)
    if g.depth is not None:
        coords['depth' + tag] = (['depth' + tag], ext(g.depth, z0, z1).astype('f4'))
        lead.append('depth' + tag)
    for n in names:
        d = s['data'][n]
        full = np.float32(rng.integers(100, 900, (d.shape[0], d.shape[1] + z0 + z1, d.shape[2] + b0 + b1, d.shape[3] + l0 + l1)))
        full[:, z0:z0 + d.shape[1], b0:b0 + d.shape[2], l0:l0 + d.shape[3]] = d
        if flip:
            full = full[:, :, ::-1]
        if g.depth is None:
            full = full[:, 0]
        if g.time is None:
            full = full[0]
        vs['v' + n] = (lead + h, full.astype(dtype))
    ds = xr.Dataset(vs, coords=coords)
    dims = {'lon': 'lon' + tag, 'lat': 'lat' + tag}
    if g.time is not None:
        dims['time'] = 'time' + tag
    if g.depth is not None:
        dims['depth'] = 'depth' + tag
    return ds, dims


def groups(s):
    """field names by grid"""
    by = {}
    for n, g in s['grids'].items():
        by.setdefault(id(g), []).append(n)
    return list(by.values())


def build_xarray(P, rec, rng, s):
    import xarray as xr
    origin = np.datetime64('2001-12-31T12:00:00', 'ns') if rng.random() < .6 else None
    gs = groups(s)
    flips = [bool(rng.random() < .4) and not s['grids'][g[0]].curv for g in gs]
    rec.event('flipped', sum(flips))
    parts = [dataset(rng, s, ns, flip=f, origin=origin, dtype=choice(rng, ['f4', 'f8', '>f4']), tag='ab'[i]) for i, (ns, f) in enumerate(zip(gs, flips))]
    if s['how'] == 'fxarray':
        fields = {}
        order = [(n, i) for i, ns in enumerate(gs) for n in ns]
        rng.shuffle(order)
        for n, i in order:
            i = int(i)
            o = s['opts'][n]
            ds, dims = parts[i]
            fields[n] = P.Field.from_xarray(ds['v' + n], n, dict(dims), mesh=s['mesh'], **field_kwargs(o))
        extrapolate(s, 'size')
        return assemble(P, rng, fields)
    ds = xr.merge([p[0] for p in parts])
    dims = {n: dict(parts[i][1]) for i, ns in enumerate(gs) for n in ns}
    variables = {n: 'v' + n for n in s['grids']}
    if len(gs) == 1 and rng.random() < .5:
        dims = dict(parts[0][1])
    extrapolate(s, 'size')
    return P.FieldSet.from_xarray_dataset(ds, variables, dims, mesh=s['mesh'], **field_kwargs(s['common']))


def build_netcdf(P, rec, rng, s):
    origin = np.datetime64('2001-12-31T12:00:00', 'ns') if rng.random() < .7 else None
    gs = groups(s)
    files, dims, inds = {}, {}, {}
    layout = choice(rng, ['one', 'own', 'coords'])
    use_inds = rng.random() < .5
    split = rng.random() < .6
    chunks = choice(rng, [None, None, None, 'auto', 'dict'])
    many_grids = len(gs) > 1
    per_dims = many_grids or rng.random() < .4
    deferred = bool(rng.random() < .6)
    common_tag = rng.random() < .6     # both groups of files name their dimensions alike
    csize = {}
    for i, ns in enumerate(gs):
        g = s['grids'][ns[0]]
        pad = {}
        if use_inds:
            for ax in ('lon', 'lat', 'depth'):
                if rng.random() < .6 and (ax != 'depth' or g.depth is not None):
                    pad[ax] = (int(rng.integers(0, 3)), int(rng.integers(0, 3)))
        flip = bool(rng.random() < .4) and not g.curv
        rec.event('flipped', flip)
        tag = '' if common_tag else 'ab'[i]
        ds, d = dataset(rng, s, ns, pad, flip, origin, choice(rng, ['f4', 'f4', 'f8', '>f4']), tag)
        ind = {}
        for ax, (l, r) in pad.items():
            n = {'lon': g.nx, 'lat': g.ny, 'depth': len(g.depth) if g.depth is not None else 1}[ax]
            if ax == 'lat' and flip:
                l, r = r, l
            ind[ax] = range(l, l + n) if rng.random() < .5 else list(range(l, l + n))
        enc = {'v' + n: ({'dtype': 'i2', 'scale_factor': .125, 'add_offset': 0., '_FillValue': -32768} if rng.random() < .2 else {'_FillValue': 1e20 if rng.random() < .5 else None}) for n in ns}
        for n in ns:
            if enc['v' + n].get('_FillValue', 0) is None and np.isnan(s['data'][n]).any():
                enc['v' + n] = {}
        cuts = [0]
        if g.time is not None and split:
            while cuts[-1] < len(g.time):
                cuts.append(min(len(g.time), cuts[-1] + int(rng.integers(1, 3))))
            rec.event('many_files', len(cuts) > 2)
        else:
            cuts.append(None)

        def save(dd, stem, e):
            out = []
            for c in range(len(cuts) - 1):
                f = '%s%d_%02d.nc' % (stem, i, c)
                p = dd if cuts[1] is None else dd.isel({d['time']: slice(cuts[c], cuts[c + 1])})
                p.to_netcdf(f, encoding=e)
                out.append(f)
            return out
        if layout == 'own':
            rec.event('own_files')
        if layout == 'one':
            fl = save(ds, 'all', enc)
        for n in ns:
            dims[n] = dict(d)
            inds[n] = dict(ind)
            if layout == 'one':
                form = choice(rng, ['list', 'glob'])
                files[n] = list(fl) if form == 'list' else 'all%d_*.nc' % i
            elif layout == 'own':
                drop = [v for v in ds.data_vars if v != 'v' + n]
                fl = save(ds.drop_vars(drop), 'own' + n, {'v' + n: enc['v' + n]})
                files[n] = list(fl) if rng.random() < .5 else 'own%s%d_*.nc' % (n, i)
            else:
                rec.event('coord_files')
                cf = 'coords%d.nc' % i
                if n == ns[0]:
                    ds[[d['lon'], d['lat']] + ([d['depth']] if 'depth' in d else [])].reset_coords().to_netcdf(cf)
                drop = [v for v in ds.data_vars if v != 'v' + n]
                fl = save(ds.drop_vars(drop + [d['lon'], d['lat']]), 'data' + n, {'v' + n: enc['v' + n]})
                files[n] = {'lon': cf, 'lat': cf, 'data': fl}
                if 'depth' in d:
                    files[n]['depth'] = choice(rng, [cf, fl[0]])
            if chunks == 'dict':
                c = {'lon': (('x' + tag), int(rng.integers(2, 6))), 'lat': (('y' + tag), int(rng.integers(2, 6)))}
                if 'depth' in d:
                    c['depth'] = (d['depth'], int(rng.integers(1, 4)))
                if 'time' in d:
                    c['time'] = (d['time'], 1)
                csize[n] = c
        rec.event('indices', bool(ind))
    for n in s['grids']:
        if rng.random() < .2 and layout == 'one' and len(gs) == 1:
            pass
    kw = {}
    if use_inds:
        kw['indices'] = inds if many_grids or rng.random() < .5 else inds['U']
    if not per_dims:
        dims = dims['U']
    if layout == 'one' and not many_grids and rng.random() < .5:
        files = files['U']
    variables = {n: 'v' + n for n in s['grids']}
    if chunks:
        kw['chunksize'] = 'auto' if chunks == 'auto' else csize
        rec.event('chunked')
    interp = {n: o.get('interp', 'linear') for n, o in s['opts'].items()}
    if any(v != 'linear' for v in interp.values()) or rng.random() < .2:
        kw['interp_method'] = interp
    extrapolate(s, 'dims')
    kw.update({k: v for k, v in field_kwargs(s['common']).items()})
    s['layout'] = (layout, chunks, deferred, split, use_inds, common_tag, per_dims)
    fs = P.FieldSet.from_netcdf(files, variables, dims, mesh=s['mesh'], deferred_load=deferred, **kw)
    rec.event('deferred', any(f.grid.defer_load for f in fs.get_fields() if isinstance(f, P.Field)))
    return fs


BUILD = {'data': build_data, 'field': build_field, 'xarray': build_xarray, 'fxarray': build_xarray, 'netcdf': build_netcdf}


def sample(P, rec, rng, s, fs, mode, what):
    """every field at points of its own, at times of all fields"""
    names = list(s['grids'])
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    ns = {v: P.Variable(v, dtype=np.float32, initial=0.) for v in ('val', 'err', 'n')}
    pc = type('SuppliedP', (base,), ns)
    EC = P.ErrorCode

    def refuse(particle, fieldset, time):
        particle.err = 1
        particle.delete()

    def other(particle, fieldset, time):
        particle.err = 2
        particle.delete()
    for n in names:
        g = s['grids'][n]
        o = s['opts'][n]
        ker = None
        kern = mkkernel('def Sample%s(particle, fieldset, time):\n    if particle.n < 1:\n        particle.val = fieldset.%s[time, particle.depth, particle.lat, particle.lon]\n    particle.n += 1\n' % (n, n), 'Sample%s' % n)
        tt = g.time if g.time is not None else np.zeros(1)
        span = max(tt[-1] - tt[0], 64.)
        times = [float(tt[0] + rng.uniform(.02, .98) * (tt[-1] - tt[0] - 2.) + 1.) if len(tt) > 1 else float(tt[0]) for _ in range(3 if mode == 'jit' else 2)]
        if o.get('extrapolate') and what != 'other':
            times.append(float(tt[-1] + 40.))
            times.append(float(tt[0] - 40.))
        if o.get('period'):
            times += [float(tt[0] + o['period'] - 3.), float(tt[0] + o['period'] * 1.3)]
        for t in times:
            qs = [reference(s, n, rng) for _ in range(6)]
            want = [value(s, n, q[3], t) for q in qs]
            # the other fields must be available too, as a deferred field set is loaded as a whole
            if any(value(s, m, lambda k: 0., t) is None for m in names if m != n) and any(getattr(fs, m).grid.defer_load for m in names):
                continue
            pset = P.ParticleSet(fs, pclass=pc, lon=[q[0] for q in qs], lat=[q[1] for q in qs], depth=[q[2] for q in qs], time=t, lonlatdepth_dtype=np.float64)
            if ker is None:
                ker = pset.Kernel(kern)
            pset.execute(ker, runtime=1., dt=1., recovery={EC.ErrorTimeExtrapolation: refuse, EC.ErrorOutOfBounds: other, EC.Error: other}, verbose_progress=False)
            if pset.size != len(qs):
                rec.violation('supply-lost', '%s: %d of %d points of field %s at %g are refused' % (what, len(qs) - pset.size, len(qs), n, t), **info(s))
                return False
            for p, q, w in zip(pset, qs, want):
                w = w * convert(s, n, q[1])
                tol = 2e-3 * (abs(w) + 8 * convert(s, n, q[1])) * (4 if s['far'] else 1) * max(1, abs(o.get('scale', 1.)))
                rec.event('values')
                if not abs(p.val - w) <= tol:
                    rec.violation('supply', '%s: field %s at t=%g (%g, %g, %g) is %g instead of %g' % (what, n, t, q[0], q[1], q[2], p.val, w), mode=mode, **info(s))
                    return False
        if o.get('extrapolate'):
            rec.event('extrapolated')
        if not o.get('extrapolate') and not o.get('period') and not any(f.grid.defer_load for f in fs.get_fields() if isinstance(f, P.Field)):
            x, y, z, _ = reference(s, n, rng)
            t = float(choice(rng, [tt[-1] + 40., tt[0] - 40.]))
            pset = P.ParticleSet(fs, pclass=pc, lon=[x], lat=[y], depth=[z], time=t, lonlatdepth_dtype=np.float64)
            pset.execute(ker, runtime=1., dt=1., recovery={EC.ErrorTimeExtrapolation: refuse}, verbose_progress=False)
            rec.event('refused')
            if pset.size:
                rec.violation('supply-extrapolated', '%s: field %s, whose times end at %g, can be sampled at %g' % (what, n, tt[-1], t), mode=mode, **info(s))
                return False
    return True


def info(s):
    return {'how': s['how'], 'opts': s['opts'], 'mesh': s['mesh'], 'own': s['own'], 'layout': s.get('layout'), 'shapes': {n: d.shape for n, d in s['data'].items()},
            'same': s.get('same')}


def check_grids(rec, s, fs, what, shifted=False):
    for n, g in s['grids'].items():
        G = getattr(fs, n).grid
        tt = g.time if g.time is not None else np.zeros(1)
        o = s['opts'][n]
        if 'period' in o and tt[-1] - tt[0] != o['period']:
            tt = np.append(tt, tt[0] + o['period'])
        for what_, a, b in [('lon', G.lon, g.lon), ('lat', G.lat, g.lat), ('depth', G.depth, g.depth if g.depth is not None else np.zeros(1)), ('time', G.time_full, tt)]:
            rec.event('axes')
            if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-6, atol=1e-6):
                rec.violation('supply-grid', '%s: the %s of field %s are not those supplied' % (what, what_, n), got=a, want=b, **info(s))
                return False
    return True


def run(scn, rec):
    import parcels as P
    rng = rng_for('c21', scn['seed'], scn['k'])
    s = make(rng)
    with workdir():
        shared_arrays(rec, rng, s)
        put_nan(rec, rng, s)
        options(rec, rng, s)
        s['rewrite'] = bool(rng.random() < .3)
        finish(s)
        fs = BUILD[s['how']](P, rec, rng, s)
        rec.event('build_%s' % {'fxarray': 'xarray'}.get(s['how'], s['how']))
        apply_scale(s, fs)
        modes = ['jit', 'scipy'] if rng.random() < .4 else [choice(rng, ['jit', 'jit', 'scipy'])]
        for g in {id(g): g for g in s['grids'].values()}.values():
            rec.event('curvilinear', g.curv)
            rec.event('static', g.time is None)
        rec.event('own_grid', bool(s['own']))
        rec.event('own_time', s['own'] == 'time')
        ok = check_grids(rec, s, fs, 'built') and all(sample(P, rec, rng, s, fs, m, '%s, %s' % (s['how'], m)) for m in modes)
        if ok and s['rewrite']:
            ok = rewrite(P, rec, rng, s, fs)
        if ok:
            rec.state(s['how'], s['own'], s.get('layout'), tuple(sorted(s['common'])), tuple(sorted(k for o in s['opts'].values() for k in o)), s['mesh'],
                      tuple(sorted((n, d.shape) for n, d in s['data'].items())))
            rec.setsample(**info(s))


def rewrite(P, rec, rng, s, fs):
    """written and read back"""
    if any(f.grid.defer_load for f in fs.get_fields() if isinstance(f, P.Field)):
        return True
    if any(isinstance(f.data, np.ndarray) is False for f in fs.get_fields() if isinstance(f, P.Field)):
        return True
    if any('period' in o for o in s['opts'].values()):
        return True
    fs.write('out')
    extra = {n: n for n in s['grids'] if n not in 'UV'}
    deferred = bool(rng.random() < .5)
    fs2 = P.FieldSet.from_parcels('out', extra_fields=extra, deferred_load=deferred)
    r = dict(s)
    import copy
    r['grids'] = {}
    memo = {}
    for n, g in s['grids'].items():
        if id(g) not in memo:
            h = copy.copy(g)
            if h.time is None:
                h.time = np.zeros(1)
            memo[id(g)] = h
        r['grids'][n] = memo[id(g)]
    r['opts'] = {n: {} for n in s['opts']}
    r['data'] = s['expected']
    finish(r)
    r['how'] = s['how'] + '+rewritten'
    extrapolate(r, 'dims')
    rec.event('rewritten')
    fs2.check_complete()
    return check_grids(rec, r, fs2, 'read back') and sample(P, rec, rng, r, fs2, choice(rng, ['jit', 'scipy']), 'read back')
