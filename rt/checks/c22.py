"""C22: the same field set is built with and without a halo; particles sample velocities and tracers inside the original domain (compared with the field set without
halo), in the halo (compared with the periodic image) and across the seam (compared with a blend of the wrapped nodes and with the image on the other side)."""
import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, workdir

RULE = ('a scenario is a zonally and/or meridionally periodic grid (rectilinear or curvilinear, level or terrain-following, with or without depth and time), a layout '
        '(A, B or C grid, several grids, constant, summed or nested fields), halo sizes added in one or two calls, before or after the first use, from arrays, '
        'files in memory or deferred files, in chunks or not; non-trivial = distinct (grid kind, layout, halo, loading) with compared samples')
REQUIRED = {'inside': 1500, 'halo': 700, 'seam': 300, 'zonal': 40, 'meridional': 40, 'both': 20, 'two_calls': 8, 'late': 8, 'deferred': 10, 'files': 25, 'chunked': 4,
            's_grid': 8, 'curvilinear': 20, 'two_grids': 20, 'constant': 10, 'summed': 5, 'nested': 3, 'cgrid': 6, 'bgrid': 3, 'spherical': 25, 'full_halo': 8, 'jit': 40,
            'scipy': 20}
ASSUMPTIONS = ['the grids are periodic: their shape repeats at the distance of the halo, which is the extent of the grid plus its first spacing']


def scenarios(tier, seed):
    n = 220 if tier == 'quick' else 5000
    return [{'seed': seed, 'k': k} for k in range(n)]


class GridSpec(object):
    def __init__(self, rng, s, other=None):
        self.ny, self.nx = int(choice(rng, [4, 5, 6, 8])), int(choice(rng, [4, 5, 6, 8]))
        self.curv = rng.random() < .35 and s['layout'] != 'N'
        sph = s['mesh'] == 'spherical'
        dx = choice(rng, [1., 2., 10.]) if sph else choice(rng, [100., 1000.])
        dy = choice(rng, [.5, 1.]) if sph else choice(rng, [100., 1000.])
        if other is not None:   # another grid with the same periods
            self.curv, self.nx, self.ny = other.curv, other.nx * choice(rng, [1, 2]), other.ny
            dx, dy = other.Lx / self.nx, other.Ly / self.ny
        elif sph and rng.random() < .4:
            dx = 360. / self.nx
        self.Lx, self.Ly = dx * self.nx, dy * self.ny
        x0 = choice(rng, [-170., 0., 30.]) if sph else choice(rng, [0., -500.])
        y0 = choice(rng, [-5., 10., 40.]) if sph else choice(rng, [0., -700.])
        if other is not None:
            x0, y0 = other.x0 + choice(rng, [0., .5 * dx]), other.y0
        self.x0, self.y0 = x0, y0
        ex, ey = np.ones(self.nx - 1), np.ones(self.ny - 1)
        if rng.random() < .4 and other is None and self.Lx < 360:
            ex[1:] = rng.choice([1., .5, .75], self.nx - 2)     # the first spacing is that of the seam
            ey[1:] = rng.choice([1., .5, .75], self.ny - 2)
        lon, lat = x0 + dx * np.append(0, np.cumsum(ex)), y0 + dy * np.append(0, np.cumsum(ey))
        self.Lx, self.Ly = lon[-1] - lon[0] + dx, lat[-1] - lat[0] + dy
        self.shear = self.curv and s['layout'] != 'B'
        if self.curv:
            j, i = np.mgrid[:self.ny, :self.nx]
            X, Y = np.meshgrid(lon, lat)
            if self.shear:
                a = rng.choice([0., .1, -.15, .2], self.ny) * dx
                b = rng.choice([0., .1, -.15, .2], self.nx) * dy
                if s['zonal'] and s['meridional'] or rng.random() < .5:
                    X = X + a[:, None]
                    b = 0 * b
                X, Y = X, Y + b[None, :]
            lon, lat = X, Y
        self.lon, self.lat = lon.astype('f4'), lat.astype('f4')
        self.nz, self.nt = s['nz'], s['nt']
        self.depth = None
        if self.nz:
            d = np.append(0, np.cumsum(rng.choice([1., 2., 4.], self.nz - 1))).astype('f4')
            if s['sgrid']:
                f = rng.choice([.75, 1., 1.25, 1.5], (self.ny, self.nx)).astype('f4')
                if s['layout'] == 'B':
                    f[:] = 1.
                d = d[:, None, None] * f
                if s['sgrid'] == '4d':
                    d = d[None] * np.linspace(1., 1.25, max(self.nt, 1)).astype('f4')[:, None, None, None]
            self.depth = d.astype('f4')
        self.time = 100. * np.arange(self.nt) if self.nt else None


def make(rng):
    s = {'mesh': choice(rng, ['flat', 'spherical'])}
    s['zonal'], s['meridional'] = choice(rng, [(True, False), (True, False), (False, True), (True, True)])
    s['layout'] = choice(rng, ['A', 'A', 'A', 'A', 'S', 'N', 'C', 'C', 'B'])
    s['load'] = choice(rng, ['data', 'data', 'files', 'deferred', 'deferred'])
    s['nt'] = 4 if s['load'] == 'deferred' else choice(rng, [0, 3])
    s['nz'] = choice(rng, [0, 0, 3]) if s['layout'] != 'B' else 3
    s['sgrid'] = choice(rng, ['', '3d', '4d']) if s['nz'] and s['layout'] in 'A' else ''
    if s['sgrid'] == '4d' and s['nt'] == 0:
        s['sgrid'] = '3d'
    s['chunks'] = s['load'] != 'data' and rng.random() < .3
    s['constant'] = s['layout'] in 'ASN' and rng.random() < .3
    s['two'] = rng.random() < .5
    s['g'] = GridSpec(rng, s)
    s['q'] = GridSpec(rng, s, s['g']) if s['two'] else s['g']
    g = s['g']
    big = min(g.nx, g.ny, s['q'].nx, s['q'].ny)
    s['full'] = rng.random() < .15
    hx, hy = (big, big) if s['full'] else (int(rng.integers(1, big + 1)) if rng.random() < .5 else int(rng.integers(1, 3)) for _ in range(2))
    # one call, or one per direction
    s['calls'] = []
    if s['zonal'] and s['meridional'] and rng.random() < .5:
        s['calls'] = [{'zonal': True, 'halosize': hx}, {'meridional': True, 'halosize': hy}]
        if rng.random() < .5:
            s['calls'].reverse()
    else:
        hy = hx
        s['calls'] = [{'zonal': s['zonal'], 'meridional': s['meridional'], 'halosize': hx}]
    s['hx'], s['hy'] = hx if s['zonal'] else 0, hy if s['meridional'] else 0
    s['late'] = rng.random() < .25
    names = ['U', 'V', 'P']
    s['grids'] = {'U': g, 'V': g, 'P': s['q']}
    s['interp'] = {'U': 'linear', 'V': 'linear', 'P': choice(rng, ['linear', 'linear', 'nearest'])}
    if s['layout'] == 'C':
        s['interp'] = {'U': 'cgrid_velocity', 'V': 'cgrid_velocity', 'P': 'cgrid_tracer'}
        s['grids']['P'] = g
        s['q'], s['two'] = g, False
    if s['layout'] == 'B':
        s['interp'] = {'U': 'bgrid_velocity', 'V': 'bgrid_velocity', 'P': 'bgrid_tracer'}
    s['data'] = {n: (rng.integers(-32, 33, (max(s['nt'], 1), max(s['nz'], 1), s['grids'][n].ny, s['grids'][n].nx)) / 8.).astype('f4') for n in names}
    return s


def dims_arrays(s, n):
    g = s['grids'][n]
    d = {'lon': g.lon, 'lat': g.lat}
    if s['nz']:
        d['depth'] = g.depth
    if s['nt']:
        d['time'] = g.time
    return d


def fields_from_data(P, s, suffix=''):
    out = {}
    for n, d in s['data'].items():
        g = s['grids'][n]
        if not s['nz']:
            d = d[:, 0]
        if not s['nt']:
            d = d[0]
        out[n] = P.Field(n, d.copy(), lon=g.lon, lat=g.lat, depth=g.depth if g.depth is not None else np.zeros(1, 'f4'), time=g.time if g.time is not None else np.zeros(1),
                         mesh=s['mesh'], interp_method=s['interp'][n])
    return out


def fields_from_files(P, s, kw):
    import xarray as xr
    out = {}
    for n, d in s['data'].items():
        g = s['grids'][n]
        tag = '' if g is s['g'] else 'q'
        lead = (['t'] if s['nt'] else []) + (['z'] if s['nz'] else [])
        v = d if s['nz'] else d[:, 0]
        v = v if s['nt'] else v[0]
        h = ['y', 'x']
        coords = {'lon': (h if g.curv else ['x'], g.lon), 'lat': (h if g.curv else ['y'], g.lat)}
        dims = {'lon': 'lon', 'lat': 'lat'}
        if s['nz']:
            coords['depth'] = ([['z'], None, ['z', 'y', 'x'], ['t', 'z', 'y', 'x']][g.depth.ndim - 1], g.depth)
            dims['depth'] = 'depth'
        if s['nt']:
            coords['t'] = (['t'], g.time)
            dims['time'] = 't'
        f = '%s.nc' % n
        xr.Dataset({n: (lead + h, v)}, coords=coords).to_netcdf(f)
        k = dict(kw)
        if s['chunks']:
            k['chunksize'] = {'lon': ('x', 3), 'lat': ('y', 2)}
            if s['nz']:
                k['chunksize']['depth'] = ('z', 2)
            if s['nt']:
                k['chunksize']['time'] = ('t', 1)
        out[n] = P.Field.from_netcdf([f], (n, n), dims, mesh=s['mesh'], interp_method=s['interp'][n], **k)
    return out


def build(P, s):
    if s['load'] == 'data':
        F = fields_from_data(P, s)
    else:
        F = fields_from_files(P, s, {'deferred_load': s['load'] == 'deferred'})
    if s['layout'] in 'SN':
        G = fields_from_data(P, s) if s['load'] == 'data' else fields_from_files(P, s, {'deferred_load': s['load'] == 'deferred'})
        cls = P.SummedField if s['layout'] == 'S' else P.NestedField
        fs = P.FieldSet(cls('U', [F['U'], G['U']]), cls('V', [F['V'], G['V']]), fields={'P': F['P']})
    else:
        fs = P.FieldSet(F['U'], F['V'], fields={'P': F['P']})
    if s['constant']:
        fs.add_constant_field('K', 2.5, mesh=s['mesh'])
    return fs


class Probe(object):
    def __init__(self, P, s, fs, mode):
        self.P, self.s, self.fs = P, s, fs
        base = P.JITParticle if mode == 'jit' else P.ScipyParticle
        self.pc = type('HaloP', (base,), {v: P.Variable(v, dtype=np.float32, initial=0.) for v in ('u', 'v', 'p', 'k', 'n')})
        at = '[time, particle.depth, particle.lat, particle.lon]'
        src = 'def Probe(particle, fieldset, time):\n    if particle.n < 1:\n        (a, b) = fieldset.UV%s\n        particle.u = a\n        particle.v = b\n        particle.p = fieldset.P%s\n' % (at, at)
        if s['constant']:
            src += '        particle.k = fieldset.K%s\n' % at
        self.fun = mkkernel(src + '    particle.n += 1\n', 'Probe')

    def __call__(self, t, xyz):
        P = self.P
        x, y, z = (np.array(c, dtype=float) for c in zip(*xyz))
        pset = P.ParticleSet(self.fs, pclass=self.pc, lon=x, lat=y, depth=z, time=t, lonlatdepth_dtype=np.float64)
        bad = {}

        def failed(particle, fieldset, time):
            bad[len(bad)] = (particle.lon, particle.lat, particle.depth)
            particle.delete()
        E = P.ErrorCode
        pset.execute(pset.Kernel(self.fun), runtime=1., dt=1., recovery={E.ErrorOutOfBounds: failed, E.ErrorThroughSurface: failed, E.Error: failed}, verbose_progress=False)
        if bad:
            return None, list(bad.values())
        return [(float(p.u), float(p.v), float(p.p), float(p.k)) for p in pset], None


def cell(g, j, i):
    """corner coordinates of the wrapped cell (j, i), j and i from -1"""
    X = np.broadcast_to(g.lon[None, :], (g.ny, g.nx)) if not g.curv else g.lon
    Y = np.broadcast_to(g.lat[:, None], (g.ny, g.nx)) if not g.curv else g.lat
    out = []
    for b in (0, 1):
        for a in (0, 1):
            wi, wj = (i + a) // g.nx, (j + b) // g.ny
            ii, jj = (i + a) % g.nx, (j + b) % g.ny
            out.append((float(X[jj, ii]) + wi * g.Lx, float(Y[jj, ii]) + wj * g.Ly, jj, ii))
    return out


def point(rng, s, j, i):
    """a point in wrapped cell (j, i) of the grid of U, V; the fractions"""
    g = s['g']
    c = cell(g, j, i)
    et, xi = (float(rng.choice([.2, .375, .65, .8])) for _ in range(2))
    w = [(1 - xi) * (1 - et), xi * (1 - et), (1 - xi) * et, xi * et]
    x, y = sum(a * k[0] for a, k in zip(w, c)), sum(a * k[1] for a, k in zip(w, c))
    if s['nz']:
        z = float(np.max(g.depth[..., -1, :, :] if s['sgrid'] else g.depth[-1])) * .3
        z = min(z, float(np.min(s['q'].depth[..., -1, :, :] if s['sgrid'] else s['q'].depth[-1])) * .45)
    else:
        z = 0.
    return (x, y, z), w, c


def run(scn, rec):
    import parcels as P
    rng = rng_for('c22', scn['seed'], scn['k'])
    s = make(rng)
    g, q = s['g'], s['q']
    with workdir():
        halo, plain = build(P, s), build(P, s)
        mode = choice(rng, ['jit', 'jit', 'scipy'])
        hp, pp = Probe(P, s, halo, mode), Probe(P, s, plain, mode)
        if s['late']:
            x, _, _ = point(rng, s, 1, 1)
            hp(10. if s['nt'] else 0., [x])
            rec.event('late')
        for c in s['calls']:
            halo.add_periodic_halo(**c)
        for e, on in [('zonal', s['zonal']), ('meridional', s['meridional']), ('both', s['zonal'] and s['meridional']), ('two_calls', len(s['calls']) > 1), ('deferred', s['load'] == 'deferred'),
                      ('files', s['load'] != 'data'), ('chunked', s['chunks']), ('s_grid', bool(s['sgrid'])), ('curvilinear', g.curv), ('two_grids', s['two']), ('constant', s['constant']),
                      ('summed', s['layout'] == 'S'), ('nested', s['layout'] == 'N'), ('cgrid', s['layout'] == 'C'), ('bgrid', s['layout'] == 'B'), ('spherical', s['mesh'] == 'spherical'),
                      ('full_halo', s['full']), (mode, True)]:
            rec.event(e, on)
        if not coordinates(rec, s, halo):
            return
        ok = True
        times = [float(t) for t in rng.choice([5., 130., 250., 60., 180., 20.], 3)] if s['nt'] == 4 else [float(rng.choice([5., 60., 130.]))] if s['nt'] else [0.]
        if s['nt'] == 4 and rng.random() < .6:
            times.sort()
        for t in times:
            if s['nt'] == 3:
                t = min(t, 150.)
            ok = ok and compare(rec, rng, s, hp, pp, t, mode)
        if ok:
            rec.state(s['layout'], s['zonal'], s['meridional'], s['hx'], s['hy'], g.curv, s['sgrid'], s['load'], s['chunks'], s['late'], s['mesh'], s['two'], mode)
            rec.setsample(**info(s, mode))


def info(s, mode):
    g = s['g']
    return {'mode': mode, 'calls': s['calls'], 'layout': s['layout'], 'load': s['load'], 'chunks': s['chunks'], 'nt': s['nt'], 'nz': s['nz'], 'sgrid': s['sgrid'], 'late': s['late'], 'mesh': s['mesh'],
            'two': s['two'], 'curv': g.curv, 'nx': g.nx, 'ny': g.ny, 'x0': g.x0, 'y0': g.y0, 'Lx': g.Lx, 'Ly': g.Ly, 'interp': s['interp'], 'constant': s['constant'], 'nxq': s['q'].nx}


def coordinates(rec, s, halo):
    for n, f in [('U', halo.U), ('V', halo.V), ('P', halo.P)]:
        for F in (f if isinstance(f, list) else [f]):
            sp, G = s['grids'][n], F.grid
            hx, hy = s['hx'], s['hy']
            i, j = np.arange(-hx, sp.nx + hx), np.arange(-hy, sp.ny + hy)
            if sp.curv and np.ndim(G.lon) == 2:     # lines that are straight are recognised in files
                lon = sp.lon[np.ix_(j % sp.ny, i % sp.nx)] + (i // sp.nx * sp.Lx)[None, :]
                lat = sp.lat[np.ix_(j % sp.ny, i % sp.nx)] + (j // sp.ny * sp.Ly)[:, None]
            else:
                x1, y1 = (sp.lon[0], sp.lat[:, 0]) if sp.curv else (sp.lon, sp.lat)
                lon, lat = x1[i % sp.nx] + i // sp.nx * sp.Lx, y1[j % sp.ny] + j // sp.ny * sp.Ly
            rec.event('axes')
            if np.shape(G.lon) != lon.shape or np.shape(G.lat) != lat.shape or not (np.allclose(G.lon, lon, atol=1e-4 * sp.Lx) and np.allclose(G.lat, lat, atol=1e-4 * sp.Ly)):
                rec.violation('halo-coordinates', 'coordinates of %s with halo are not continued at the same spacing' % n, got=(G.lon, G.lat), want=(lon, lat), **info(s, ''))
                return False
    return True


def compare(rec, rng, s, hp, pp, t, mode):
    g, q = s['g'], s['q']
    hx, hy = s['hx'], s['hy']
    shiftx = .5 if s['two'] and q.x0 != g.x0 else 0

    def can(j, i, extra):
        """is the point in cell (j, i) of g also inside the grid of the tracer with extra halo"""
        return True
    inside, image, seam = [], [], []
    for _ in range(8):
        j, i = int(rng.integers(0, g.ny - 1)), int(rng.integers(0, g.nx - 1))
        if shiftx:
            i = max(i, 1) if g.nx > 2 else i
        inside.append((j, i))
    for _ in range(6):      # cells in the halo whose image is inside
        j, i = int(rng.integers(0, g.ny - 1)), int(rng.integers(1 if shiftx else 0, g.nx - 1))
        dj = di = 0
        if hx and rng.random() < .7 or not hy:
            if i < hx - 1:
                di = 1
            elif i >= g.nx - hx:
                di = -1
        if hy and di == 0:
            if j < hy - 1:
                dj = 1
            elif j >= g.ny - hy:
                dj = -1
        if di or dj:
            image.append((j, i, dj, di))
    for _ in range(4):      # the cell between the last node and the first of the halo
        j, i = int(rng.integers(0, g.ny - 1)), int(rng.integers(0, g.nx - 1))
        if hx and (rng.random() < .5 or not hy):
            seam.append((j, g.nx - 1 if rng.random() < .5 else -1))
        elif hy:
            seam.append((g.ny - 1 if rng.random() < .5 else -1, i))
        if hx and hy and rng.random() < .2:
            seam.append((g.ny - 1, -1))
    eps = 1e-3 * 5
    pts, tags = [], []
    for j, i in inside:
        x, w, c = point(rng, s, j, i)
        pts.append(x)
        tags.append(('inside', x, None))
    for j, i, dj, di in image:
        x, w, c = point(rng, s, j, i)
        pts.append((x[0] + di * g.Lx, x[1] + dj * g.Ly, x[2]))
        tags.append(('halo', x, None))
    for j, i in seam:
        x, w, c = point(rng, s, j, i)
        pts.append(x)
        tags.append(('seam', None, (w, c)))
    if s['two'] and not covered(s, pts, hx, hy):
        keep = [k for k in range(len(pts)) if covered(s, [pts[k]], hx, hy) and (tags[k][1] is None or covered(s, [tags[k][1]], 0, 0))]
        pts, tags = [pts[k] for k in keep], [tags[k] for k in keep]
    elif s['two']:
        keep = [k for k in range(len(pts)) if tags[k][1] is None or covered(s, [tags[k][1]], 0, 0)]
        pts, tags = [pts[k] for k in keep], [tags[k] for k in keep]
    if not pts:
        return True
    got, bad = hp(t, pts)
    if bad:
        rec.violation('halo-refused', 'points %s cannot be sampled at t=%g with a halo of %d, %d points' % (bad[:3], t, hx, hy), **info(s, mode))
        return False
    base = [b for b in (x for _, x, _ in tags) if b is not None]
    want, bad = pp(t, base) if base else ([], None)
    if bad:
        rec.violation('halo-reference', 'points %s cannot be sampled at t=%g without halo' % (bad[:3], t), **info(s, mode))
        return False
    want = iter(want)
    for x, v, (kind, b, wc) in zip(pts, got, tags):
        if kind == 'seam':
            w = seam_value(s, t, x, wc)
        else:
            w = next(want)
            # zonal velocities are converted at the latitude of the point
            if s['mesh'] == 'spherical' and b[1] != x[1] and s['layout'] != 'C':
                w = (w[0] * np.cos(np.radians(b[1])) / np.cos(np.radians(x[1])),) + tuple(w[1:])
            elif s['mesh'] == 'spherical' and b[1] != x[1]:
                w = (None, None) + tuple(w[2:])     # the shape of the cells is different there
        rec.event(kind)
        scale = (4. / (1852 * 60) if s['mesh'] == 'spherical' else 4.) * (2 if s['layout'] == 'S' else 1)
        for k, (a, e) in enumerate(zip(v, w)):
            tol = eps * (scale / max(.1, np.cos(np.radians(x[1]))) if k < 2 and s['mesh'] == 'spherical' else scale if k < 2 else 4.)
            if e is not None and not abs(a - e) <= tol:
                rec.violation('halo-' + kind, '%s at (%g, %g, %g), t=%g is %g instead of %g (%s)' % ('UVPK'[k], x[0], x[1], x[2], t, a, e, kind), **info(s, mode))
                return False
    return True


def covered(s, pts, hx, hy):
    """is every point inside the outline of the tracer's own grid, with its halo"""
    g = s['q']
    dx, dy = g.Lx / g.nx, g.Ly / g.ny
    for x, y, z in pts:
        X = np.broadcast_to(g.lon[None, :], (g.ny, g.nx)) if not g.curv else g.lon
        Y = np.broadcast_to(g.lat[:, None], (g.ny, g.nx)) if not g.curv else g.lat
        lo, hi = X[:, 0].max(), X[:, -1].min()
        bo, to = Y[0].max(), Y[-1].min()
        if hx:
            lo, hi = lo - g.Lx + (X[:, -hx].max() - X[:, 0].max()), hi + (X[:, hx - 1].min() - X[:, -1].min()) + g.Lx
        if hy:
            bo, to = bo - g.Ly + (Y[-hy].max() - Y[0].max()), to + (Y[hy - 1].min() - Y[-1].min()) + g.Ly
        if not (lo + .05 * dx < x < hi - .05 * dx and bo + .05 * dy < y < to - .05 * dy):
            return False
    return True


def seam_value(s, t, x, wc):
    w, c = wc
    g = s['g']
    out = [None] * 4
    if s['constant']:
        out[3] = 2.5
    else:
        out[3] = 0.
    if s['layout'] in 'CB' or s['nz']:
        return out      # compared with the other side only
    for k, n in enumerate(['U', 'V', 'P']):
        if s['grids'][n] is not g or s['interp'][n] != 'linear':
            continue
        d = np.float64(s['data'][n])[:, 0]
        if s['nt']:
            m = min(int(t // 100), s['nt'] - 2)
            f = t / 100. - m
            d = d[m] * (1 - f) + d[m + 1] * f
        else:
            d = d[0]
        v = sum(a * d[jj, ii] for a, (_, _, jj, ii) in zip(w, c))
        if s['layout'] == 'S' and k < 2:
            v *= 2
        if s['mesh'] == 'spherical' and k < 2:
            v /= 1852. * 60. * (np.cos(np.radians(x[1])) if k == 0 else 1)
        out[k] = v
    return out
