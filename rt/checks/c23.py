"""C23: particle sets created from lists, lines and fields on rectilinear and curvilinear meshes are compared with the given values, the equally spaced
positions and the field's cells (frequencies by a chi-square test); initial values of variables of all kinds and types with an evaluation in Python, also for
repeated releases; density maps with a count of the particles in the cells found by geometry."""
import math
from operator import attrgetter

import numpy as np

from ..gen import choice, mkkernel
from rt.core import rng_for

RULE = ('a scenario creates a particle set in one way (list, line, field, with variables, density) on one kind of mesh with random sizes, types, masks and histories; '
        'non-trivial = distinct (kind, mode, mesh, grid, options)')
REQUIRED = {'list': 15, 'line': 10, 'from_field': 20, 'initial': 20, 'density': 25, 'jit': 25, 'scipy': 25, 'drawn': 10000, 'cells_with_zero': 100, 'single_cell': 3,
            'cgrid': 6, 'curvilinear': 12, 'antimeridian': 2, 'by_field': 40, 'by_attr': 40, 'by_attr_chain': 15, 'by_const': 40, 'by_kwarg': 40, 'released_again': 20,
            'counted': 1000, 'weighted': 10, 'relative': 8, 'area': 5, 'moved': 8, 'delayed': 8, 'deleted': 5, 'second_grid': 8, 'uniformity': 20}
ASSUMPTIONS = ['cells of which a corner value is zero are not drawn (they are partly land)',
               'a density value belongs to the cell of which the node is the corner with the lowest indices']


def scenarios(tier, seed):
    n = 200 if tier == 'quick' else 5000
    return [{'seed': seed, 'k': k} for k in range(n)]


class Mesh(object):
    def __init__(self, rng, curv=None, small=False):
        self.mesh = choice(rng, ['flat', 'spherical'])
        self.curv = bool(rng.random() < .35) if curv is None else curv
        self.ny, self.nx = int(rng.integers(2, 8)), int(rng.integers(2, 8))
        sph = self.mesh == 'spherical'
        d = choice(rng, [.5, 1., 5.]) if sph else choice(rng, [1., 1000.])
        x0 = float(choice(rng, [0., -20., 100., 330. - 360.])) if sph else float(choice(rng, [0., -3e3, 1e4]))
        y0 = float(choice(rng, [0., 40., -60.])) if sph else x0
        x = x0 + d * np.concatenate([[0], np.cumsum(rng.uniform(.5, 1.5, self.nx - 1))])
        y = y0 + d * np.concatenate([[0], np.cumsum(rng.uniform(.5, 1.5, self.ny - 1))])
        self.anti = False
        if sph and rng.random() < .3:
            x = x - x[self.nx // 2] + 180 - .3 * d
            self.anti = True
        if self.curv:
            j, i = np.meshgrid(np.arange(self.ny), np.arange(self.nx), indexing='ij')
            X = x[None, :] + .25 * d * j * choice(rng, [0., 1., -1.]) + .1 * d * np.sin(1.3 * i + 2.1 * j)
            Y = y[:, None] + .2 * d * i * choice(rng, [0., 1., -1.]) + .1 * d * np.cos(1.7 * i - 1.1 * j)
        else:
            X, Y = x, y
        if self.anti:
            X = np.where(X > 180, X - 360, X)
        self.lon, self.lat = X.astype(np.float32), Y.astype(np.float32)
        self.dims = {'lon': self.lon, 'lat': self.lat}
        lon, lat = (self.lon.astype(float), self.lat.astype(float)) if self.curv else np.meshgrid(self.lon.astype(float), self.lat.astype(float))
        # quads[j, i] = corners, longitudes made continuous
        q = np.stack([np.stack([a[:-1, :-1], a[:-1, 1:], a[1:, 1:], a[1:, :-1]], axis=-1) for a in (lon, lat)], axis=-2)
        if sph:
            q[..., 0, :] -= 360 * np.round((q[..., 0, :] - q[..., 0, :1]) / 360)
        self.quads = q
        self.d = d
        self.tol = 1e-4 + 3e-7 * max(np.abs(self.lon).max(), np.abs(self.lat).max()) / d  # positions in single precision

    def point(self, rng, j, i, lo=.05):
        xsi, eta = rng.uniform(lo, 1 - lo, 2)
        w = np.array([(1 - xsi) * (1 - eta), xsi * (1 - eta), xsi * eta, (1 - xsi) * eta])
        x, y = self.quads[j, i] @ w
        if self.mesh == 'spherical' and x > 180 and not self.curv:
            x -= 360 if self.anti else 0
        elif self.mesh == 'spherical' and x > 180 and self.anti:
            x -= 360
        return x, y

    def margins(self, x, y):
        """for every cell: the smallest distance (relative to the mesh width) to the inside of the edges, negative outside"""
        q = self.quads
        dx = x - q[..., 0, :]
        if self.mesh == 'spherical':
            dx = dx - 360 * np.round(dx / 360)
        dy = y - q[..., 1, :]
        nx_, ny_ = np.roll(q[..., 0, :], -1, axis=-1) - q[..., 0, :], np.roll(q[..., 1, :], -1, axis=-1) - q[..., 1, :]
        return np.min((nx_ * dy - ny_ * dx) / np.hypot(nx_, ny_), axis=-1) / self.d

    def cell(self, x, y):
        """(j, i), None outside, or False near an edge"""
        m = self.margins(x, y)
        j, i = np.unravel_index(np.argmax(m), m.shape)
        if abs(m[j, i]) < self.tol:
            return False
        return (int(j), int(i)) if m[j, i] > 0 else None


def base(P, jit):
    return P.JITParticle if jit else P.ScipyParticle


def run(scn, rec):
    import parcels as P
    k = scn['k']
    rng = rng_for(scn['seed'], 'C23', k)
    np.random.seed(int(rng.integers(2 ** 31)))
    jit = bool(rng.random() < .5)
    rec.event('jit' if jit else 'scipy')
    [lists, from_field, initial, density][k % 4](P, rng, rec, jit)


def still(P, mesh='flat'):
    z = np.zeros((2, 2), np.float32)
    return P.FieldSet.from_data({'U': z, 'V': z}, {'lon': np.array([-400., 400.], np.float32), 'lat': np.array([-90., 90.], np.float32)}, mesh=mesh)


def wrapped(rng, a, exact):
    """the values in one of the forms that are accepted"""
    form = choice(rng, ['list', 'array', 'array2d', 'masked'] + (['float32'] if not exact else []))
    if form == 'list':
        return [float(v) for v in a]
    if form == 'array2d' and a.size % 2 == 0:
        return a.reshape(2, -1)
    if form == 'masked':
        return np.ma.masked_array(a)
    return a.astype(np.float32) if form == 'float32' else a


def lists(P, rng, rec, jit):
    fs = still(P)
    if rng.random() < .5:
        dep = np.array([float(choice(rng, [0., 2., 7.5])), 100.], np.float32)
        z = np.zeros((2, 2, 2), np.float32)
        fs = P.FieldSet.from_data({'U': z, 'V': z}, {'lon': np.array([-400., 400.], np.float32), 'lat': np.array([-90., 90.], np.float32), 'depth': dep}, mesh='flat')
        mind = float(dep[0])
    else:
        mind = 0.
    n = int(choice(rng, [1, 2, 3, 8, 20]))
    ldt = choice(rng, [None, np.float32, np.float64])
    out = ldt or np.float32
    cls = type('ListParticle', (base(P, jit),), {'v': P.Variable('v', dtype=np.float64, initial=3.), 'w': P.Variable('w', dtype=np.int32, initial=4)})
    kw, want = {}, {}
    line = rng.random() < .4
    depth = None
    if rng.random() < .6:
        if rng.random() < .4:
            depth = choice(rng, [5, 5.5]) if line else None
            want['depth'] = np.full(n, mind if depth is None else float(depth))
        else:
            d = rng.uniform(0, 50, n)
            depth, want['depth'] = wrapped(rng, d, True), d
    else:
        want['depth'] = np.full(n, mind)
    time = None
    if rng.random() < .6:
        if rng.random() < .4:
            time = choice(rng, [0, 7.5, 86400, np.int64(7200)])
            want['time'] = np.full(n, float(time))
        else:
            t = np.round(rng.uniform(0, 1e5, n), 1)
            time, want['time'] = wrapped(rng, t, True), t
    if line:
        rec.event('line')
        a, b = rng.uniform(-50, 50, 2), rng.uniform(-50, 50, 2)
        if rng.random() < .2:
            b[0] = a[0]
        pset = P.ParticleSet.from_line(fs, cls, start=tuple(a), finish=tuple(b), size=n, depth=depth, time=time, lonlatdepth_dtype=ldt)
        frac = np.arange(n) / max(n - 1, 1)
        want['lon'], want['lat'] = a[0] + frac * (b[0] - a[0]), a[1] + frac * (b[1] - a[1])
        tol = 1e-12
    else:
        rec.event('list')
        lon, lat = rng.uniform(-180, 180, n), rng.uniform(-80, 80, n)
        want['lon'], want['lat'] = lon, lat
        if rng.random() < .5:
            want['v'] = rng.normal(size=n)
            kw['v'] = wrapped(rng, want['v'], True)
        if rng.random() < .5:
            want['w'] = rng.integers(-1000, 1000, n)
            kw['w'] = choice(rng, [list, np.array])(want['w'])
        scalar = n == 1 and rng.random() < .5
        if scalar:
            xs, ys = choice(rng, [(7, -3), (7.5, 2.25), (np.float32(1.5), np.float32(2.5)), (np.float64(.3), np.float64(.7))])
            want['lon'], want['lat'] = np.array([float(xs)]), np.array([float(ys)])
        else:
            xs, ys = wrapped(rng, lon, True), wrapped(rng, lat, True)
        make = choice(rng, [P.ParticleSet, P.ParticleSet.from_list])
        pset = make(fieldset=fs, pclass=cls, lon=xs, lat=ys, depth=depth, time=time, lonlatdepth_dtype=ldt, **kw)
        tol = 0.
    if len(pset) != n or pset.size != n:
        rec.violation('number', '%d particles instead of %d' % (len(pset), n))
        return
    for i, p in enumerate(pset):
        for name, w in want.items():
            dt = out if name in ('lon', 'lat', 'depth') else np.float64
            got, exp = float(getattr(p, name)), float(dt(w[i]))
            eps = (1e-6 if dt == np.float32 else 1e-12) * 100 if tol else 0.
            if not abs(got - exp) <= eps:
                rec.violation('given', '%s of particle %d is %r instead of %r' % (name, i, got, exp), jit=jit, line=line, dtype=str(out))
                return
        for name, d in (('v', 3.), ('w', 4)):
            if name not in want and getattr(p, name) != d:
                rec.violation('default', '%s of particle %d is %r instead of %r' % (name, i, getattr(p, name), d))
                return
    ids = [int(p.id) for p in pset]
    if len(set(ids)) != n:
        rec.violation('ids', 'identifiers %r' % ids)
    rec.state('line' if line else 'list', jit, str(out), n, sorted(want))


def from_field(P, rng, rec, jit):
    rec.event('from_field')
    m = Mesh(rng)
    cgrid = rng.random() < .35
    ny, nx = m.ny, m.nx
    data = np.round(rng.uniform(.1, 5, (ny, nx)), 2)
    style = choice(rng, ['all', 'zeros', 'zeros', 'single', 'nan'])
    off = 1 if cgrid else 0
    if style in ('zeros', 'nan') and ny * nx > 8:
        data[rng.random((ny, nx)) < .2] = 0 if style == 'zeros' else np.nan
    if style == 'single':
        data[:] = 0
        j, i = int(rng.integers(ny - 1)), int(rng.integers(nx - 1))
        if cgrid:
            data[j + 1, i + 1] = 3.
        else:
            data[j:j + 2, i:i + 2] = 2.
    if cgrid:
        data[0, :] = -1
        data[:, 0] = -1
    clean = np.nan_to_num(data)
    if cgrid:
        p = clean[1:, 1:]
    else:
        c = [clean[:-1, :-1], clean[1:, :-1], clean[:-1, 1:], clean[1:, 1:]]
        p = np.where(np.min(c, axis=0) == 0, 0, np.mean(c, axis=0))
    if p.sum() == 0:
        return
    steps = rng.random() < .3
    dims = dict(m.dims)
    arr = data.astype(np.float32)
    if steps:
        dims['time'] = np.array([0., 3600.])
        arr = np.stack([arr, np.where(np.isnan(arr), arr, 1.).astype(np.float32)])
    zero = np.zeros_like(arr)
    fs = P.FieldSet.from_data({'U': zero, 'V': zero.copy(), 'start': arr}, dims, mesh=m.mesh)
    start = fs.start
    if cgrid:
        start.interp_method = 'cgrid_tracer'
        rec.event('cgrid')
    if m.curv:
        rec.event('curvilinear')
    if m.anti:
        rec.event('antimeridian')
    size = int(choice(rng, [300, 1000, 2000]))
    ldt = choice(rng, [np.float32, np.float64])
    depth = [float(v) for v in rng.uniform(0, 5, size)] if rng.random() < .3 else None
    time = choice(rng, [None, 0., 1800.])
    repeat = {'repeatdt': 600.} if rng.random() < .3 else {}
    pset = P.ParticleSet.from_field(fs, base(P, jit), start_field=start, size=size, depth=depth, time=time, lonlatdepth_dtype=ldt, **repeat)
    if len(pset) != size:
        rec.violation('number', '%d particles instead of %d' % (len(pset), size))
        return
    count = np.zeros(p.shape)
    near, inside, loc = 0, 0, []
    for i, q in enumerate(pset):
        x, y = float(q.lon), float(q.lat)
        if depth is not None and abs(float(q.depth) - depth[i]) > 1e-6:
            rec.violation('given', 'depth %r instead of %r' % (float(q.depth), depth[i]))
            return
        if time is not None and float(q.time) != time:
            rec.violation('given', 'time %r instead of %r' % (float(q.time), time))
            return
        mg = m.margins(x, y)
        if mg.max() < -m.tol:
            rec.violation('outside', 'particle at (%r, %r) is outside the mesh' % (x, y), mesh=m.mesh, curv=m.curv, anti=m.anti)
            return
        c = m.cell(x, y)
        if c is False:  # near an edge: one of the adjacent cells must be allowed
            if not np.any((mg > -m.tol) & (p > 0)):
                rec.violation('zero-cell', 'particle at (%r, %r) is near no cell where the field is not zero' % (x, y), mesh=m.mesh, curv=m.curv, cgrid=cgrid)
                return
            near += 1
            jj, ii = np.unravel_index(np.argmax(np.where(p > 0, mg, -1e9)), p.shape)
            count[jj, ii] += 1
            continue
        if p[c] <= 0:
            rec.violation('zero-cell', 'particle at (%r, %r) is in cell %s where the field is zero' % (x, y, c), mesh=m.mesh, curv=m.curv, cgrid=cgrid, anti=m.anti)
            return
        count[c] += 1
        if not m.curv:
            quad = m.quads[c]
            dx = x - quad[0, 0]
            dx -= 360 * np.round(dx / 360) if m.mesh == 'spherical' else 0
            loc.append((dx / (quad[0, 1] - quad[0, 0]), (y - quad[1, 0]) / (quad[1, 3] - quad[1, 0])))
    rec.event('drawn', size)
    rec.event('cells_with_zero', int((p == 0).sum()))
    e = size * p / p.sum()
    if (p > 0).sum() == 1:
        rec.event('single_cell')
    else:
        sel = p > 0
        dof = int(sel.sum()) - 1
        chi2 = float(((count - e)[sel] ** 2 / e[sel]).sum())
        z = ((chi2 / dof) ** (1 / 3) - (1 - 2 / (9 * dof))) / math.sqrt(2 / (9 * dof))
        if z > 7:
            rec.violation('frequency', 'the cells are not drawn in proportion to the field: chi2 %.1f for %d degrees of freedom' % (chi2, dof),
                          mesh=m.mesh, curv=m.curv, cgrid=cgrid, expected=e.round(1).tolist(), drawn=count.tolist())
            return
    if len(loc) > 200:
        rec.event('uniformity')
        for a in np.array(loc).T:
            n = a.size
            if abs(a.mean() - .5) > 7 * math.sqrt(1 / 12 / n) or abs(((a - .5) ** 2).mean() - 1 / 12) > 7 * math.sqrt(1 / 180 / n):
                rec.violation('uniform', 'positions inside the cells: mean %r, variance %r' % (a.mean(), a.var()), mesh=m.mesh)
                return
        c = np.corrcoef(np.array(loc).T)[0, 1]
        if abs(c) > 7 / math.sqrt(len(loc)):
            rec.violation('uniform', 'positions inside the cells: correlation %r of longitude and latitude' % c, mesh=m.mesh)
            return
    rec.state('field', jit, m.mesh, m.curv, m.anti, cgrid, style, steps, bool(repeat))


DT = {'f4': np.float32, 'f8': np.float64, 'i4': np.int32, 'i8': np.int64}


def initial(P, rng, rec, jit):
    rec.event('initial')
    lon, lat, dep, tim = np.array([-50., 0., 50.], np.float32), np.array([-40., 40.], np.float32), np.array([0., 30., 100.], np.float32), np.array([0., 1e5, 2e5])
    co = np.round(rng.uniform(-1, 1, (3, 5)), 3)

    def f(c, t, z, y, x):
        return c[0] + c[1] * x / 10 + c[2] * y / 10 + c[3] * z / 10 + c[4] * t / 1e4
    data, dims = {}, {}
    G = np.meshgrid(tim, dep.astype(float), lat.astype(float), lon.astype(float), indexing='ij')
    data = {'A': f(co[0], *G).astype(np.float32)}
    dims = {'A': {'lon': lon, 'lat': lat, 'depth': dep, 'time': tim}}
    co[1, 3:] = 0
    data['B'] = f(co[1], 0, 0, *[g[0, 0] for g in G[2:]]).astype(np.float32)
    dims['B'] = {'lon': lon, 'lat': lat}
    data['U'], data['V'] = np.zeros((2, 3), np.float32), np.zeros((2, 3), np.float32)
    dims['U'] = dims['V'] = {'lon': lon, 'lat': lat}
    fs = P.FieldSet.from_data(data, dims, mesh=choice(rng, ['flat', 'spherical']))
    n = int(rng.integers(1, 7))
    specs = []  # (name, dtype, kind, value)
    names = ['q%d' % i for i in range(int(rng.integers(2, 8)))]
    rng.shuffle(names)
    for name in names:
        dt = choice(rng, list(DT))
        kind = choice(rng, ['const', 'field', 'attr', 'attr', 'attr'])
        if kind == 'const':
            v = int(rng.integers(-50, 50)) if dt[0] == 'i' else float(np.float32(rng.normal()))
        elif kind == 'field':
            dt = choice(rng, ['f4', 'f8'])
            v = choice(rng, ['A', 'B'])
        else:
            pool = ['lon', 'lat', 'depth', 'time', 'id'] + [s[0] for s in specs] * 2
            v = choice(rng, pool)
        specs.append((name, dt, kind, v))
    jobs = {}
    for name, dt, kind, v in specs:
        jobs[name] = P.Variable(name, dtype=DT[dt], initial=v if kind == 'const' else getattr(fs, v) if kind == 'field' else attrgetter(v))
    # the variables may be spread over a class and its base class
    cls = base(P, jit)
    cut = int(rng.integers(len(specs) + 1))
    if cut:
        cls = type('BaseParticle', (cls,), {s[0]: jobs[s[0]] for s in specs[:cut]})
    if cut < len(specs):
        cls = type('InitParticle', (cls,), {s[0]: jobs[s[0]] for s in specs[cut:]})
    kw, given = {}, {}
    for name, dt, kind, v in specs:
        if rng.random() < .25:
            given[name] = rng.integers(-100, 100, n).astype(DT[dt])
            kw[name] = choice(rng, [list, np.array])(given[name])
    ldt = choice(rng, [np.float32, np.float64])
    x, y, z = (a.astype(ldt).astype(float) for a in (rng.uniform(-49, 49, n), rng.uniform(-39, 39, n), rng.uniform(0, 99, n)))
    repeat = rng.random() < .4
    t0 = float(choice(rng, [0., 36000., 12345.]))
    t = np.full(n, t0) if repeat else np.round(rng.uniform(0, 1.9e5, n))
    rdt = 1000.
    pset = P.ParticleSet(fs, pclass=cls, lon=x, lat=y, depth=z, time=t, lonlatdepth_dtype=ldt, **dict(kw, **({'repeatdt': rdt} if repeat else {})))
    releases = 1
    if repeat and rng.random() < .8:
        releases = int(rng.integers(2, 4))
        pset.execute(pset.Kernel(mkkernel('def Still(particle, fieldset, time):\n    pass\n', 'Still')), runtime=rdt * (releases - 1), dt=500.)
        releases = len(pset) // n
        if releases < 2 or len(pset) % n:
            rec.violation('number', '%d particles after repeated releases of %d' % (len(pset), n))
            return
    for i, p in enumerate(pset):
        r, i0 = divmod(i, n)
        if r:
            rec.event('released_again')
        env = {'lon': x[i0], 'lat': y[i0], 'depth': z[i0], 'time': t[i0] + r * rdt, 'id': int(p.id)}
        tol = {}
        for name, dt, kind, v in specs:
            if name in given:
                val, tl = float(given[name][i0]), 0.
                rec.event('by_kwarg')
            elif kind == 'const':
                val, tl = v, 0.
                rec.event('by_const')
            elif kind == 'field':
                val, tl = f(co['AB'.index(v)], env['time'], z[i0], y[i0], x[i0]), 2e-5
                rec.event('by_field')
            else:
                val, tl = env[v], tol.get(v, 0.)
                rec.event('by_attr_chain' if v[0] == 'q' else 'by_attr')
            if dt[0] == 'i':
                val = int(val)  # as any assignment to an integer
            env[name], tol[name] = float(DT[dt](val)), (1. if tl and dt[0] == 'i' else tl)
            got = float(getattr(p, name))
            if not abs(got - env[name]) <= tol[name]:
                rec.violation('initial', '%s (%s) of particle %d (release %d) is %r instead of %r' % (name, dt, i0, r, got, env[name]),
                              definitions=[list(map(str, s)) for s in specs], given=sorted(given), jit=jit)
                return
            env[name] = got
    rec.state('initial', jit, repeat, tuple(sorted({s[2] for s in specs})), cut > 0)


def density(P, rng, rec, jit):
    rec.event('density')
    m, m2 = Mesh(rng), Mesh(rng)
    m2.__dict__.update(mesh=m.mesh)
    wide = .0 if m.mesh == 'spherical' else 0.
    own = rng.random() < .5
    zero = np.zeros((m.ny, m.nx), np.float32)
    spd = choice(rng, [0., .2])
    unit = m.d * (1852 * 60 if m.mesh == 'spherical' else 1.)
    data, dims = {'U': zero + np.float32(spd * unit / 100), 'V': zero}, {}
    if own:  # the velocities are on another grid, wide enough for all particles
        lo = m.quads[..., 0, :].min() - 3 * m.d, m.quads[..., 0, :].max() + 3 * m.d
        la = m.quads[..., 1, :].min() - 3 * m.d, m.quads[..., 1, :].max() + 3 * m.d
        if m.anti:
            own = False
    if own:
        rec.event('second_grid')
        z2 = np.zeros((3, 4), np.float32)
        ud = {'lon': np.linspace(*lo, 4).astype(np.float32), 'lat': np.linspace(*la, 3).astype(np.float32)}
        data = {'U': z2 + np.float32(spd * unit / 100), 'V': z2, 'P': zero + 1}
        dims = {'U': ud, 'V': ud, 'P': m.dims}
    else:
        data['P'] = zero + 1
        dims = m.dims
    fs = P.FieldSet.from_data(data, dims, mesh=m.mesh)
    n = int(choice(rng, [1, 5, 40, 150]))
    cells = [(int(rng.integers(m.ny - 1)), int(rng.integers(m.nx - 1))) for _ in range(n)]
    pts = np.array([m.point(rng, *c) for c in cells])
    ns = {v: P.Variable(v, dtype=d, initial=0) for v, d in (('tag', np.int32), ('w', np.float32), ('v8', np.float64))}
    cls = type('DensParticle', (base(P, jit),), ns)
    delayed = rng.random() < .4
    t = np.array([float(choice(rng, [0., 0., 50., 400.])) for _ in range(n)]) if delayed else np.zeros(n)
    t[0] = 0.
    w, v8 = np.round(rng.uniform(.5, 3, n), 2).astype(np.float32), rng.uniform(1, 2, n)
    timed = choice(rng, [True, False]) or delayed
    ldt = choice(rng, [np.float32, np.float64])
    pset = P.ParticleSet(fs, pclass=cls, lon=pts[:, 0], lat=pts[:, 1], time=t if timed else None, tag=np.arange(n), w=w, v8=v8, lonlatdepth_dtype=ldt)
    if delayed:
        rec.event('delayed')
    hist = []
    runs = int(choice(rng, [0, 0, 1, 2]))
    for _ in range(runs):
        if len(pset) == 0:
            return
        kern = mkkernel('def Drift(particle, fieldset, time):\n    (u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]\n'
                        '    particle.lon += u * particle.dt\n    particle.lat += v * particle.dt\n'
                        '    if particle.tag == %d:\n        particle.delete()\n' % int(choice(rng, [-1, 0, n // 2])), 'Drift')
        gone = mkkernel('def Gone(particle, fieldset, time):\n    particle.delete()\n', 'Gone')
        pset.execute(kern, runtime=100., dt=50., recovery={P.ErrorCode.ErrorOutOfBounds: gone})
        hist.append('run')
        if spd:
            rec.event('moved')
    if runs and len(pset) < n:
        rec.event('deleted')
    if rng.random() < .3 and len(pset) > 1:
        pset.remove_indices(np.array([0]))
        rec.event('deleted')
        hist.append('remove')
    unsure = [i for i, p in enumerate(pset) if not m.cell(float(p.lon), float(p.lat))]  # near an edge, or outside
    if unsure:
        pset.remove_indices(np.array(unsure))
    if len(pset) == 0:
        return
    rec.event('curvilinear' if m.curv else 'rectilinear')
    before = {}
    want = np.zeros((m.ny, m.nx))
    kind = choice(rng, ['count', 'count', 'w', 'v8', 'array', 'list'])
    given = rng.uniform(0, 3, len(pset))
    total = 0.
    for i, p in enumerate(pset):
        c = m.cell(float(p.lon), float(p.lat))
        val = {'count': 1., 'w': float(p.w), 'v8': float(p.v8)}.get(kind, given[i])
        want[c] += val
        total += val
        before[int(p.tag)] = tuple(float(getattr(p, a)) for a in ('lon', 'lat', 'depth', 'w', 'v8', 'time'))
    rec.event('counted', len(pset))
    val = {'count': None, 'w': 'w', 'v8': 'v8', 'array': given, 'list': list(given)}[kind]
    opts = {}
    if rng.random() < .3:
        opts['relative'] = True
        want = want / total
        rec.event('relative')
    if rng.random() < .3 and not m.curv:
        opts['area_scale'] = True
        want = want / np.array(fs.P.cell_areas(), dtype=float)
        rec.event('area')
    if kind != 'count':
        opts['particle_val'] = val
        rec.event('weighted')
    fname = 'P' if own or rng.random() < .5 else choice(rng, [None, 'U'])
    got = pset.density(field_name=fname, **opts)
    det = dict(jit=jit, mesh=m.mesh, curv=m.curv, anti=m.anti, own=own, history=hist, options=sorted(opts), kind=kind)
    if got.shape != want.shape:
        rec.violation('shape', 'density has shape %s on a grid of shape %s' % (got.shape, want.shape), **det)
        return
    if not np.allclose(got, want, rtol=1e-5, atol=1e-6 * want.max()):
        rec.violation('density', 'density %s instead of %s' % (got.round(3).tolist(), want.round(3).tolist()), **det)
        return
    for p in pset:
        now = tuple(float(getattr(p, a)) for a in ('lon', 'lat', 'depth', 'w', 'v8', 'time'))
        old = before[int(p.tag)]
        if any(a != b and not (a != a and b != b) for a, b in zip(now, old)):
            rec.violation('changed', 'density changed a particle from %s to %s' % (old, now), **det)
            return
    rec.state('density', jit, m.mesh, m.curv, own, kind, runs, tuple(sorted(opts)))
