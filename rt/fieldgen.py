"""Random structured field sets with an independent float64 reference of what sampling them must give.

A spec is a plain dict (arrays stored as lists so that a replay file holds it); `build` makes the FieldSet from
it with the public constructors, `Ref` answers what a sample of one field or velocity may return.

The reference never reproduces the code's searches: it enumerates every cell that contains the position
(inverse of the bilinear map for curvilinear cells), every layer that contains the depth, and collects the set
of values that the documented interpolation gives for them.  A position in no cell must be reported; a position
closer than EPS (in cell units) to the outline may do either.
"""
import math

import numpy as np

from rt.gen import choice

EPS = 2e-5       # distance to an edge (in cell units) below which float32 arithmetic decides
DEG2M = 1852. * 60.


# ------------------------------------------------------------------------------------------------ generation

def _steps(rng, n, dyadic, even=False):
    if even:
        s = np.full(n, float(choice(rng, [0.25, 0.5, 1., 2.])))
    elif dyadic:
        s = np.array([choice(rng, [0.25, 0.5, 1., 1.5, 2.]) for _ in range(n)])
    else:
        s = rng.uniform(0.3, 2., n)
    return s


def axis(rng, n, dyadic, lo=-10., even=False):
    """Increasing coordinate vector of n nodes."""
    start = float(rng.integers(-8, 8)) if dyadic else rng.uniform(lo, -lo)
    return np.concatenate(([start], start + np.cumsum(_steps(rng, n - 1, dyadic, even))))


def make_spec(rng, stagger='A', kind=None, mesh=None, dyadic=None, tdim=None, zdim=None, methods=None, indexing=None,
              xdim=None, ydim=None, timemode=None, scale=None, len1=True):
    kind = kind or choice(rng, ['rz', 'rz', 'rs', 'cz', 'cs'])
    mesh = mesh or choice(rng, ['flat', 'spherical'])
    dyadic = (rng.random() < .5) if dyadic is None else dyadic
    if kind[0] == 'c':
        dyadic = False
    small = stagger == 'A' and kind == 'rz' and len1 and rng.random() < .15
    xdim = xdim or int(choice(rng, [2, 3, 4, 6, 9]) if not small else choice(rng, [1, 1, 2, 5]))
    ydim = ydim or int(choice(rng, [2, 3, 4, 6, 9]) if not small else choice(rng, [1, 1, 2, 5]))
    if zdim is None:
        zdim = int(choice(rng, [1, 2, 3, 5])) if kind[1] == 'z' else int(choice(rng, [2, 3, 5]))
    tdim = tdim or int(choice(rng, [1, 2, 3, 5]))
    s = dict(kind=kind, mesh=mesh, dyadic=bool(dyadic), stagger=stagger)

    # horizontal nodes
    if kind[0] == 'r':
        if mesh == 'flat':
            f = scale or float(choice(rng, [1., 1., 16., 1024., 8192.]))
            lon, lat = axis(rng, xdim, dyadic) * f, axis(rng, ydim, dyadic) * f
        else:
            style = choice(rng, ['regional', 'dateline', 'global', 'wide']) if xdim > 2 else 'regional'
            if style == 'global':
                xdim = int(choice(rng, [5, 9, 13]))
                lon = float(choice(rng, [-180., 0., -90.])) + np.arange(xdim) * (360. / (xdim - 1))
            elif style == 'wide':
                lon = float(choice(rng, [-160., 10.])) + np.arange(xdim) * (float(choice(rng, [200., 300.])) / xdim)
            else:
                lon = axis(rng, xdim, dyadic) * float(choice(rng, [1., 2.]))
                if style == 'dateline':
                    lon = lon - lon[0] + (180. - float(choice(rng, [.5, 1.75, 3.])))
                    lon = np.where(lon > 180., lon - 360., lon)
                else:
                    lon = lon + float(choice(rng, [-100., 0., 0., 90.]))
            lat = axis(rng, ydim, dyadic)
            lat = lat - lat.mean() + float(choice(rng, [0., 30., -45., 60.]))
            lat = np.round(lat * 16) / 16 if dyadic else lat
            s['style'] = style
        if ydim > 1 and rng.random() < .2 and stagger == 'A':
            lat = lat[::-1]
    else:
        i, j = np.meshgrid(np.arange(xdim), np.arange(ydim))
        th = rng.uniform(-np.pi, np.pi) if mesh == 'flat' else rng.uniform(-.9, .9)
        a, b, sh = rng.uniform(.5, 2.), rng.uniform(.5, 2.), rng.uniform(-.4, .4)
        X = a * i + sh * b * j + .12 * np.sin(1.3 * i + .7 * j + rng.uniform(0, 6))
        Y = b * j + .12 * np.sin(.9 * i - 1.1 * j + rng.uniform(0, 6))
        lon = np.cos(th) * X - np.sin(th) * Y
        lat = np.sin(th) * X + np.cos(th) * Y
        lon, lat = lon - lon.mean(), lat - lat.mean()
        if mesh == 'flat':
            f = scale or float(choice(rng, [1., 1., 30., 1000., 10000.]))
            lon, lat = lon * f + rng.uniform(-5, 5) * f, lat * f + rng.uniform(-5, 5) * f
        else:
            f = scale or float(choice(rng, [.2, 1., 2.]))
            lat = lat * f + rng.uniform(-30, 30)
            lon = lon * f + float(choice(rng, [0., 60., -120., 180., 179.]))
            lon = np.where(lon > 180., lon - 360., lon)
    lon, lat = lon.astype(np.float32), lat.astype(np.float32)
    s['lon'], s['lat'] = lon.tolist(), lat.tolist()

    # depth
    sgn = 1. if stagger in 'B' or rng.random() < .7 else -1.
    zf = float(choice(rng, [1., 10., 100.]))
    z0 = (float(rng.integers(0, 4)) if dyadic else rng.uniform(0, 3)) * (1 if rng.random() < .6 else 0)
    if stagger == 'B' and (indexing == 'mom5'):
        z0 = .5
    zc = np.concatenate(([z0], z0 + np.cumsum(_steps(rng, max(zdim - 1, 1), dyadic))))[:zdim]
    if kind[1] == 'z':
        s['depth'] = (sgn * zf * zc).astype(np.float32).tolist() if (zdim > 1 or rng.random() < .3) else None
    else:
        amp = (1. + .5 * np.array([[choice(rng, [0., .5, 1., 1.5]) if dyadic else rng.uniform(0, 1.5)
                                    for _ in range(xdim)] for _ in range(ydim)]))
        if stagger == 'B':
            amp = np.ones((ydim, xdim))
        d = sgn * zf * zc[:, None, None] * amp[None]
        if rng.random() < .5 and tdim > 1 and stagger != 'B':
            k = np.array([1. + .25 * q for q in rng.permutation(tdim)])
            d = d[None] * k[:, None, None, None]
        s['depth'] = d.astype(np.float32).tolist()

    # time
    tm = timemode or choice(rng, ['extrap', 'strict', 'periodic', 'default'])
    if tdim == 1 and tm in ('periodic', 'strict'):
        tm = 'extrap'
    if np.ndim(s['depth']) == 4 and tm == 'periodic':
        tm = 'strict'
    t0 = float(choice(rng, [0., 0., -7200., 3600.]))
    t = t0 + np.concatenate(([0.], np.cumsum([float(choice(rng, [600., 1800., 3600., 900.])) for _ in range(tdim - 1)])))
    s['timemode'] = tm
    s['time'] = t.tolist() if (tdim > 1 or rng.random() < .5) else None
    s['period'] = None
    if tm == 'periodic':
        s['period'] = float(t[-1] - t[0]) + float(choice(rng, [0., 0., 1200.]))

    # data
    shape = (tdim, zdim, ydim, xdim)

    def data(land=0.):
        if rng.random() < .3 and not land:
            a, b, c, d = rng.uniform(-2, 2, 4)
            T, Z, Y, X = np.meshgrid(*[np.arange(n) for n in shape], indexing='ij')
            v = a + b * X + c * Y + d * Z + .5 * T
        else:
            v = rng.uniform(.25, 4., shape) * rng.choice([-1., 1.], shape)
        v = np.round(v * 64) / 64
        if land:
            # a land mask that does not depend on time
            m = rng.random(shape[1:]) < land
            v = np.where(m[None], 0., np.where(v == 0, 1., v))
        if s['timemode'] == 'periodic' and s['period'] == t[-1] - t[0]:
            v[-1] = v[0]
        return v.astype(np.float32)

    fields = {}
    if stagger == 'A':
        for n, m in [('P', 'linear'), ('Q', 'nearest'), ('L', 'linear_invdist_land_tracer')]:
            if m.startswith('linear_') and 1 in (xdim, ydim):
                continue
            if methods is None or m in methods:
                fields[n] = dict(method=m, data=data(.35 if m.startswith('linear_') else 0.).tolist())
        vm = choice(rng, ['linear', 'linear', 'nearest'])
        mixed = rng.random() < .2
        for n in 'UV' + ('W' if zdim > 1 else ''):
            fields[n] = dict(method=choice(rng, ['linear', 'nearest']) if mixed else vm, data=data().tolist())
        s['indexing'] = 'nemo'
    elif stagger == 'C':
        s['indexing'] = indexing or 'nemo'
        for n in 'UV' + ('W' if zdim > 1 else ''):
            fields[n] = dict(method='cgrid_velocity', data=data().tolist())
        fields['T'] = dict(method='cgrid_tracer', data=data().tolist())
    else:
        s['indexing'] = indexing or choice(rng, ['nemo', 'mom5', 'pop'])
        for n in 'UV':
            fields[n] = dict(method='bgrid_velocity', data=data().tolist())
        if zdim > 1:
            fields['W'] = dict(method='bgrid_w_velocity', data=data().tolist())
        fields['T'] = dict(method='bgrid_tracer', data=data().tolist())
        if s['indexing'] == 'pop' and zdim > 1 and rng.random() < .6:
            # POP files have one level of data less than they have depths
            for f in fields.values():
                f['data'] = np.array(f['data'], dtype=np.float32)[:, :-1].tolist()
    s['fields'] = fields
    s['shape'] = list(shape)
    return s


def build(P, s, wrap=None):
    """FieldSet of a spec, through the public constructors; wrap is applied to the data arrays."""
    lon, lat = np.array(s['lon'], dtype=np.float32), np.array(s['lat'], dtype=np.float32)
    depth = None if s['depth'] is None else np.array(s['depth'], dtype=np.float32)
    time = None if s['time'] is None else np.array(s['time'], dtype=np.float64)
    ext = {'extrap': True, 'strict': False, 'periodic': None, 'default': None}[s['timemode']]
    kw = dict(allow_time_extrapolation=ext, time_periodic=s['period'] if s['period'] else False, gridindexingtype=s['indexing'])
    t, z, y, x = s['shape']
    grid = None
    flds = {}
    for n, f in s['fields'].items():
        d = np.array(f['data'], dtype=np.float32)
        d = d[:, 0] if z == 1 else d
        if s['time'] is None:
            d = d[0]
        d = wrap(d) if wrap else d
        if grid is None:
            flds[n] = P.Field(n, d, lon=lon, lat=lat, depth=depth, time=time, mesh=s['mesh'], interp_method=f['method'], **kw)
            if not s['period']:
                grid = flds[n].grid
        else:
            flds[n] = P.Field(n, d, grid=grid, interp_method=f['method'], **kw)
    fs = P.FieldSet(flds.get('U'), flds.get('V'), fields={n: f for n, f in flds.items() if n not in ('U', 'V')})
    return fs


# ------------------------------------------------------------------------------------------------- reference

def inv_bilinear(px, py, x, y):
    """All (xsi, eta) with the bilinear map of the quad equal to (x, y), near the unit square."""
    px, py = np.asarray(px, dtype=np.float64), np.asarray(py, dtype=np.float64)
    sols = []
    for g in ((.5, .5), (0., 0.), (1., 1.), (1., 0.), (0., 1.)):
        q = np.array(g)
        ok = False
        for _ in range(40):
            xs, et = q
            ph = np.array([(1 - xs) * (1 - et), xs * (1 - et), xs * et, (1 - xs) * et])
            r = np.array([ph @ px - x, ph @ py - y])
            dx = np.array([et - 1, 1 - et, et, -et])
            de = np.array([xs - 1, -xs, xs, 1 - xs])
            J = np.array([[dx @ px, de @ px], [dx @ py, de @ py]])
            det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
            if abs(det) < 1e-14 * max(1e-30, np.abs(J).max() ** 2):
                break
            st = np.array([J[1, 1] * r[0] - J[0, 1] * r[1], -J[1, 0] * r[0] + J[0, 0] * r[1]]) / det
            q = q - st
            if np.abs(q).max() > 50:
                break
            if np.abs(st).max() < 1e-13:
                ok = True
                break
        if ok and np.abs(q - .5).max() < 1.5 and not any(np.abs(q - w).max() < 1e-7 for w in sols):
            sols.append(q)
    return sols


class Ref(object):
    def __init__(self, s):
        self.s = s
        self.lon = np.array(s['lon'], dtype=np.float32).astype(np.float64)
        self.lat = np.array(s['lat'], dtype=np.float32).astype(np.float64)
        self.sph = s['mesh'] == 'spherical'
        self.curv = s['kind'][0] == 'c'
        self.depth = None if s['depth'] is None else np.array(s['depth'], dtype=np.float32).astype(np.float64)
        self.t, self.z, self.y, self.x = s['shape']
        self.data = {n: np.array(f['data'], dtype=np.float32).astype(np.float64) for n, f in s['fields'].items()}
        if not self.curv and self.y > 1 and self.lat[-1] < self.lat[0]:
            self.lat = self.lat[::-1]
            self.data = {n: d[:, :, ::-1, :] for n, d in self.data.items()}
            if self.depth is not None and self.depth.ndim > 1:
                self.depth = np.flip(self.depth, axis=-2)
        self.time = np.zeros(1) if s['time'] is None else np.array(s['time'], dtype=np.float64)
        self.global_ = False
        if self.sph and self.x > 1:
            d = np.diff(self.lon if not self.curv else self.lon[0])
            d = np.where(d < -180, d + 360, np.where(d > 180, d - 360, d))
            self.global_ = d.sum() > 359.9
        self.scale = max(np.abs(d).max() for d in self.data.values()) or 1.

    # -- time: list of (weight, snapshot) combinations, or None for a time error
    def times(self, t):
        T = self.time
        s = self.s
        per = s['period']
        if per:
            t = T[0] + (t - T[0]) % per
            full = np.append(T, T[0] + per) if per > T[-1] - T[0] + 1e-6 else T
            idx = list(range(len(T))) + ([0] if len(full) > len(T) else [])
        else:
            full, idx = T, list(range(len(T)))
            if t < T[0] or t > T[-1]:
                ext = s['timemode'] == 'extrap' or (s['timemode'] == 'default' and len(T) == 1)
                if not ext:
                    return None
                t = T[0] if t < T[0] else T[-1]
        if len(full) == 1:
            return [(1., idx[0])]
        i = min(max(int(np.searchsorted(full, t, side='right')) - 1, 0), len(full) - 2)
        w = (t - full[i]) / (full[i + 1] - full[i])
        if w == 0:
            return [(1., idx[i])]
        if w == 1:
            return [(1., idx[i + 1])]
        return [(1 - w, idx[i]), (w, idx[i + 1])]

    # -- horizontal cells containing (x, y): list of (xi, yi, xsi, eta, px, py), and whether outside is allowed too
    def _xcells(self, x):
        if self.x == 1:
            return [(0, 0.)], False
        lon = self.lon
        cells, near = [], False
        lo, hi = lon.min(), lon.max()
        if self.sph and not self.global_ and lon[-1] > lon[0]:
            if x < lo or x > hi:
                return [], False
        for i in range(self.x - 1):
            l0, l1 = lon[i], lon[i + 1]
            if self.sph:
                if l1 < l0 - 180:
                    l1 += 360
                elif l1 > l0 + 180:
                    l1 -= 360
            for k in ((-1, 0, 1) if self.sph else (0,)):
                r = (x - l0 - 360. * k) / (l1 - l0)
                if -EPS <= r <= 1 + EPS:
                    cells.append((i, min(max(r, 0.), 1.)))
        return cells, near

    def cells(self, x, y):
        if not self.curv:
            if self.y == 1:
                ys = [(0, 0.)]
            else:
                ys = []
                for j in range(self.y - 1):
                    r = (y - self.lat[j]) / (self.lat[j + 1] - self.lat[j])
                    if -EPS <= r <= 1 + EPS:
                        ys.append((j, min(max(r, 0.), 1.)))
            xs, _ = self._xcells(x)
            out = []
            for i, xs_ in xs:
                for j, et in ys:
                    out.append((i, j, xs_, et))
            return out
        out = []
        for j in range(self.y - 1):
            for i in range(self.x - 1):
                px, py = self.corners(i, j, x)
                m = .05 * (px.max() - px.min())
                n = .05 * (py.max() - py.min())
                if not (px.min() - m <= x <= px.max() + m and py.min() - n <= y <= py.max() + n):
                    continue
                for xs_, et in inv_bilinear(px, py, x, y):
                    if -EPS <= xs_ <= 1 + EPS and -EPS <= et <= 1 + EPS:
                        out.append((i, j, min(max(xs_, 0.), 1.), min(max(et, 0.), 1.)))
        return out

    def corners(self, i, j, x=None):
        """Corner coordinates of cell (j, i) counter-clockwise, longitudes unwrapped around x."""
        if self.curv:
            px = np.array([self.lon[j, i], self.lon[j, i + 1], self.lon[j + 1, i + 1], self.lon[j + 1, i]])
            py = np.array([self.lat[j, i], self.lat[j, i + 1], self.lat[j + 1, i + 1], self.lat[j + 1, i]])
        else:
            px = np.array([self.lon[i], self.lon[i + 1], self.lon[i + 1], self.lon[i]])
            py = np.array([self.lat[j], self.lat[j], self.lat[j + 1], self.lat[j + 1]])
        if self.sph:
            if x is not None:
                px[0] += 360. * np.round((x - px[0]) / 360.)
            px[1:] -= 360. * np.round((px[1:] - px[0]) / 360.)
        return px, py

    def edge_distance(self, x, y):
        """How clearly (x, y) is outside: smallest overshoot in cell units, for rectilinear grids."""
        d = 0.
        if self.x > 1:
            lo, hi = self.lon.min(), self.lon.max()
            if not self.sph:
                c = np.diff(self.lon).min()
                d = max(d, (lo - x) / c, (x - hi) / c)
        if self.y > 1:
            c = np.diff(self.lat).min()
            d = max(d, (self.lat.min() - y) / c, (y - self.lat.max()) / c)
        return d

    # -- velocities: (list of tuples in the units of the data, outcomes)
    def vector(self, name, t, z, y, x):
        """Velocity name UV or UVW; cgrid values per metre (converted to m/s) whatever the mesh."""
        s = self.s
        if s['stagger'] != 'C':
            comps = [self.scalar(c, t, z, y, x) for c in name]
            outs = set.union(*[o for _, o in comps])
            if 'time' in outs:
                outs = {'time'}
            n = max(len(v) for v, _ in comps)
            vals = [tuple(v[k] for v, _ in comps) for k in range(n)] if all(len(v) == n for v, _ in comps) else []
            return vals, outs
        tw = self.times(t)
        if tw is None:
            return [], {'time'}
        vals, outc = [], set()
        cs = self.cells(x, y)
        if not cs:
            return [], {'oob'}
        if self.near_outline(x, y, cs):
            outc.add('oob')
        for i, j, xs_, et in cs:
            layers = [(0, 0.)]
            if self.z == 1:
                outc.add('ok')
            else:
                col = self.column(i, j, xs_, et, t)
                layers, st = self.layers(col, z, 2e-5 if self.depth.ndim == 1 else 2e-4)
                outc |= {'in': {'ok'}, 'surface': {'surface'}, 'bottom': {'oob'}, 'edge-surface': {'ok', 'surface'},
                         'edge-bottom': {'ok', 'oob'}}[st]
            for k, ze in layers:
                if s['kind'][1] == 's' and name == 'UVW':
                    v = [self._cgrid3d(n, i, j, k, xs_, et, ze, x, n) for _, n in tw]
                else:
                    v = []
                    for _, n in tw:
                        uv = self._cgrid2d(self.data['U'][n, k], self.data['V'][n, k], i, j, xs_, et, x)
                        if name == 'UVW':
                            uv = uv + (self._v(self.data['W'][n], 'cgrid_velocity', i, j, xs_, et, k, ze)[0],)
                        v.append(uv)
                vals.append(tuple(sum(w * a[c] for (w, _), a in zip(tw, v)) for c in range(len(name))))
        return vals, outc

    def _faces(self, i, j):
        """Offsets of the stored values: (dj of U, di of V, dj/di of W) for cell (j, i)."""
        return (0, 0, 0) if self.s['indexing'] == 'mitgcm' else (1, 1, 1)

    def _cgrid2d(self, U, V, i, j, xs_, et, x):
        """Flux-conserving C-grid velocity in cell (j, i), in the units of the data."""
        px, py = self.corners(i, j, x)
        ju, iv, _ = self._faces(i, j)
        P = np.array([px, py])

        def scale(lat):
            return np.array([DEG2M * math.cos(math.radians(lat)), DEG2M]) if self.sph else np.ones(2)

        def pos(a, b):
            return P @ np.array([(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b])

        def length(a, b, at):
            return float(np.linalg.norm((P[:, b] - P[:, a]) * scale(pos(*at)[1])))
        F = np.array([(1 - xs_) * U[j + ju, i] * length(0, 3, (0., et)) + xs_ * U[j + ju, i + 1] * length(1, 2, (1., et)),
                      (1 - et) * V[j, i + iv] * length(0, 1, (xs_, 0.)) + et * V[j + 1, i + iv] * length(3, 2, (xs_, 1.))])
        M = np.stack([P @ np.array([et - 1, 1 - et, et, -et]), P @ np.array([xs_ - 1, -xs_, xs_, 1 - xs_])], axis=1)
        M = M * scale(pos(xs_, et)[1])[:, None]
        v = M @ F / np.linalg.det(M)
        return (float(v[0]), float(v[1]))

    def _cgrid3d(self, n, i, j, k, xs_, et, ze, x, nd):
        """Same on a hexahedron: face fluxes, the flux through the mid plane from volume conservation, quadratic in between."""
        px, py = self.corners(i, j, x)
        d = self.depth if self.depth.ndim == 3 else self.depth[nd]
        P = np.zeros((3, 8))
        P[0, :4] = P[0, 4:] = px
        P[1, :4] = P[1, 4:] = py
        for c, (jj, ii) in enumerate([(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]):
            P[2, c], P[2, c + 4] = d[k, jj, ii], d[k + 1, jj, ii]
        ju, iv, iw = self._faces(i, j)
        U, V, W = (self.data[c][n] for c in 'UVW')
        f = {('u', 0): U[k, j + ju, i], ('u', 1): U[k, j + ju, i + 1], ('v', 0): V[k, j, i + iv], ('v', 1): V[k, j + 1, i + iv],
             ('w', 0): W[k, j + iw, i + iw], ('w', 1): W[k + 1, j + iw, i + iw]}

        def metric(Q, a, b, c):
            h = np.array([[(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b]])[0]
            da = np.array([b - 1, 1 - b, b, -b])
            db = np.array([a - 1, -a, a, 1 - a])
            M = np.stack([Q @ np.concatenate((da * (1 - c), da * c)), Q @ np.concatenate((db * (1 - c), db * c)),
                          Q @ np.concatenate((-h, h))], axis=1)
            if self.sph:
                lat = Q[1, :4] @ h
                M = M * np.array([DEG2M * math.cos(math.radians(lat)), DEG2M, 1.])[:, None]
            return M

        def area(Q, o, a, b, c):
            M = metric(Q, a, b, c)
            p = {'u': (1, 2), 'v': (0, 2), 'w': (0, 1)}[o]
            return float(np.linalg.norm(np.cross(M[:, p[0]], M[:, p[1]])))

        def half(o):
            """the half cell on the low side of direction o"""
            Q = P.copy()
            pair = {'u': [(1, 0), (2, 3), (5, 4), (6, 7)], 'v': [(2, 1), (3, 0), (6, 5), (7, 4)], 'w': [(4, 0), (5, 1), (6, 2), (7, 3)]}[o]
            for hi, lo in pair:
                Q[:, hi] = .5 * (P[:, hi] + P[:, lo])
            return Q
        ctr = dict(u=lambda e: (e, .5, .5), v=lambda e: (.5, e, .5), w=lambda e: (.5, .5, e))
        here = dict(u=lambda e: (e, et, ze), v=lambda e: (xs_, e, ze), w=lambda e: (xs_, et, e))
        rate = []
        for o, r in (('u', xs_), ('v', et), ('w', ze)):
            Q = half(o)
            flux = f[o, 0] * area(Q, o, *ctr[o](0))
            for q in 'uvw':
                if q != o:
                    flux += f[q, 0] * area(Q, q, *ctr[q](0)) - f[q, 1] * area(Q, q, *ctr[q](1))
            mid = flux / area(P, o, *ctr[o](.5)) * area(P, o, *here[o](.5))
            lo, hi = f[o, 0] * area(P, o, *here[o](0)), f[o, 1] * area(P, o, *here[o](1))
            rate.append(lo * (2 * r * r - 3 * r + 1) + mid * (4 * r - 4 * r * r) + hi * (2 * r * r - r))
        M = metric(P, xs_, et, ze)
        v = M @ np.array(rate) / np.linalg.det(M)
        # a depth axis that decreases with the index makes the cell left-handed
        return tuple(float(a) for a in v)

    # -- vertical
    def column(self, i, j, xs_, et, t, bgrid=False):
        d = self.depth
        if d.ndim == 1:
            return d
        if bgrid:
            xs_, et = 1., 1.
        w = [(j, i, (1 - xs_) * (1 - et)), (j, i + 1, xs_ * (1 - et)), (j + 1, i + 1, xs_ * et), (j + 1, i, (1 - xs_) * et)]
        if d.ndim == 3:
            return sum(f * d[:, a, b] for a, b, f in w)
        tw = self.times(t)
        return sum(g * sum(f * d[k, :, a, b] for a, b, f in w) for g, k in tw)

    def layers(self, col, z, eps=None):
        """(layers [(zi, zeta)], outcome) with outcome in in/surface/bottom/edge-surface/edge-bottom."""
        eps = EPS if eps is None else eps
        up = col[-1] > col[0]
        c, q = (col, z) if up else (-col, -z)
        d0, d1 = c[1] - c[0], c[-1] - c[-2]
        if q < c[0] - eps * d0:
            return [], 'surface'
        if q > c[-1] + eps * d1:
            return [], 'bottom'
        out = []
        for k in range(len(c) - 1):
            r = (q - c[k]) / (c[k + 1] - c[k])
            if -eps <= r <= 1 + eps:
                out.append((k, min(max(r, 0.), 1.)))
        st = 'in'
        if q < c[0] + eps * d0 and q != c[0]:
            st = 'edge-surface'
        elif q > c[-1] - eps * d1 and q != c[-1]:
            st = 'edge-bottom'
        if col is not None and self.depth.ndim > 1 and st == 'in' and (q == c[0] or q == c[-1]):
            st = 'edge-surface' if q == c[0] else 'edge-bottom'
        return out, st

    # -- one scalar field: ('time',), or (set of acceptable values, set of acceptable outcomes)
    def scalar(self, name, t, z, y, x, method=None):
        """(values, outcomes): outcomes subset of {'ok', 'oob', 'surface', 'time'}."""
        tw = self.times(t)
        if tw is None:
            return [], {'time'}
        method = method or self.s['fields'][name]['method']
        data = self.data[name]
        cs = self.cells(x, y)
        if not cs:
            return [], {'oob'}
        vals, outc = [], set()
        if self.near_outline(x, y, cs):
            outc.add('oob')
        mom5 = self.s['indexing'] == 'mom5'
        for i, j, xs_, et in cs:
            if self.z == 1:
                outc.add('ok')
                vals += self._mix(tw, lambda k: self._h(data[k, 0], method, i, j, xs_, et))
                continue
            col = self.column(i, j, xs_, et, t, method.startswith('bgrid'))
            if mom5 and col[-1] > col[0] and z < col[0]:
                if z > 2 * col[0] - col[1] + EPS * (col[1] - col[0]):
                    zeta = z / col[0] if col[0] else 0.
                    if 0 <= zeta <= 1:
                        outc.add('ok')
                        vals += self._mix(tw, lambda k: self._v(data[k], method, i, j, xs_, et, -1, zeta))
                    else:
                        outc |= {'ok', 'oob', 'surface', 'sampling'}
                    continue
            ls, st = self.layers(col, z, 2e-5 if self.depth.ndim == 1 else 2e-4)
            outc |= {'in': {'ok'}, 'surface': {'surface'}, 'bottom': {'oob'}, 'edge-surface': {'ok', 'surface'},
                     'edge-bottom': {'ok', 'oob'}}[st]
            for k_, zeta in ls:
                vals += self._mix(tw, lambda k: self._v(data[k], method, i, j, xs_, et, k_, zeta))
        return vals, outc

    def near_outline(self, x, y, cs):
        """Within EPS of the outline of the grid but not exactly on it (rectilinear) / within EPS of it (curvilinear)."""
        if self.curv:
            for i, j, xs_, et in cs:
                e = 10 * EPS
                if (i == 0 and xs_ < e) or (i == self.x - 2 and xs_ > 1 - e) or (j == 0 and et < e) or (j == self.y - 2 and et > 1 - e):
                    return True
            return False
        r = False
        if self.x > 1 and not self.global_:
            if self.sph:
                l = self.lon
                ends = (l[0], l[-1])
                c = EPS * 360
            else:
                ends = (self.lon[0], self.lon[-1])
                c = EPS * max(np.abs(np.diff(self.lon)).max(), 1e-30)
            r = r or any(0 < abs(x - e) < c for e in ends)
        if self.y > 1:
            c = EPS * np.abs(np.diff(self.lat)).max()
            r = r or any(0 < abs(y - e) < c for e in (self.lat[0], self.lat[-1]))
        return r

    def _mix(self, tw, f):
        """Combine the per-snapshot value sets (a discontinuous choice is the same for both snapshots)."""
        sets = [f(k) for _, k in tw]
        return [sum(w * v for (w, _), v in zip(tw, combo)) for combo in zip(*sets)]

    def _h(self, d, method, i, j, xs_, et):
        i1, j1 = min(i + 1, self.x - 1), min(j + 1, self.y - 1)
        q = np.array([[d[j, i], d[j, i1]], [d[j1, i], d[j1, i1]]])
        if method in ('linear', 'bgrid_velocity', 'cgrid_velocity'):
            return [(1 - xs_) * (1 - et) * q[0, 0] + xs_ * (1 - et) * q[0, 1] + xs_ * et * q[1, 1] + (1 - xs_) * et * q[1, 0]]
        if method == 'nearest':
            return [q[b, a] for a in near(xs_) for b in near(et)]
        if method in ('cgrid_tracer', 'bgrid_tracer', 'bgrid_w_velocity'):
            m = self.s['indexing'] == 'mitgcm'
            return [q[0, 0] if m else q[1, 1]]
        if method == 'linear_invdist_land_tracer':
            return invdist(q.ravel(), [(0., 0.), (0., 1.), (1., 0.), (1., 1.)], (et, xs_),
                           self._h(d, 'linear', i, j, xs_, et)[0])
        raise KeyError(method)

    def _v(self, d, method, i, j, xs_, et, k, zeta):
        ind = self.s['indexing']
        kb = min(k + 1, self.z - 1)
        if method in ('linear', 'nearest', 'linear_invdist_land_tracer') and (k < 0 or ind == 'pop'):
            return []
        if method == 'linear':
            a, b = self._h(d[k], 'linear', i, j, xs_, et)[0], self._h(d[kb], 'linear', i, j, xs_, et)[0]
            return [(1 - zeta) * a + zeta * b]
        if method == 'nearest':
            return [v for a in near(zeta) for v in self._h(d[k + a], 'nearest', i, j, xs_, et)]
        if method == 'linear_invdist_land_tracer':
            q, pos = [], []
            for c in (0, 1):
                for b in (0, 1):
                    for a in (0, 1):
                        q.append(d[k + c, j + b if self.y > 1 else 0, i + a if self.x > 1 else 0])
                        pos.append((float(c), float(b), float(a)))
            return invdist(np.array(q), pos, (zeta, et, xs_), self._v(d, 'linear', i, j, xs_, et, k, zeta)[0])
        if method == 'bgrid_velocity':      # independent of z in the cell: level k, or k+1 when the model indexes the cell bottom
            return self._h(d[k + 1] if ind == 'mom5' else d[k], 'linear', i, j, xs_, et)
        if method in ('bgrid_tracer', 'cgrid_tracer'):
            return self._h(d[k + 1] if ind == 'mom5' else d[k], method, i, j, xs_, et)
        if method in ('bgrid_w_velocity', 'cgrid_velocity'):
            if ind == 'mom5' and k < 0:      # W vanishes at the surface
                return [zeta * self._h(d[0], 'bgrid_tracer', i, j, xs_, et)[0]]
            a = self._h(d[k], 'bgrid_tracer', i, j, xs_, et)[0]
            if ind == 'pop' and k == self.z - 2:   # W vanishes at the bottom
                return [(1 - zeta) * a]
            b = self._h(d[k + 1], 'bgrid_tracer', i, j, xs_, et)[0]
            return [(1 - zeta) * a + zeta * b]
        raise KeyError(method)


def near(r):
    if abs(r - .5) < 2e-4:
        return (0, 1)
    return (0,) if r < .5 else (1,)


def invdist(q, pos, p, lin):
    """Acceptable values: the method is discontinuous at land nodes, so both sides are accepted close to a node."""
    land = q == 0
    if land.all():
        return [0.]
    d2 = np.array([sum((a - b) ** 2 for a, b in zip(w, p)) for w in pos])
    out = []
    if d2.min() < 1e-7:
        out.append(float(q[int(d2.argmin())]))
    if d2.min() > 1e-14:
        if not land.any():
            return [lin]
        w = np.where(land, 0., 1. / d2)
        out.append(float((w * q).sum() / w.sum()))
    return out


# ---------------------------------------------------------------------------------------------------- queries

def f32(a):
    return np.asarray(a, dtype=np.float32).astype(np.float64)


def safe_point(s):
    """A query well inside the data: (t, z, y, x)."""
    r = Ref(s)
    j, i = (r.y - 1) // 2, (r.x - 1) // 2
    if r.curv:
        px, py = r.corners(i, j)
        x, y = px.mean(), py.mean()
    else:
        x = r.lon[0] if r.x == 1 else None
        if x is None:
            px, _ = r.corners(i, 0) if r.y > 1 else (np.array([r.lon[i], r.lon[i + 1]]), None)
            x = px.mean() if r.y > 1 else r.lon[i:i + 2].mean()
        y = r.lat[0] if r.y == 1 else r.lat[j:j + 2].mean()
    if r.sph and x > 180 and r.lon.max() <= 180:
        x -= 360
    t = float(r.time[0])
    z = 0.
    if r.z > 1:
        cs = r.cells(x, y)
        i, j, xs_, et = cs[0]
        col = r.column(i, j, xs_, et, t, s['stagger'] == 'B')
        z = .5 * (col[0] + col[1])
    x, y, z = (float(np.float32(v)) for v in (x, y, z))
    return t, z, y, x


def query(rng, r, where):
    """One query (t, z, y, x) of the wanted kind: in / edge (exact node coordinates) / near / out."""
    s = r.s
    T = r.time
    # horizontal
    i, j = int(rng.integers(max(r.x - 1, 1))), int(rng.integers(max(r.y - 1, 1)))

    def frac(w):
        if w == 'edge':
            return float(choice(rng, [0., 0., 1., .5]))
        if w == 'near':
            e = float(choice(rng, [1e-3, 3e-3]))
            return e if rng.random() < .5 else 1 - e
        return float(rng.uniform(.02, .98))
    hw = where if where in ('in', 'near') else ('edge' if (where == 'edge' and not r.curv) else 'in')
    fx, fy = frac(hw), frac(hw if rng.random() < .7 else 'in')
    if r.curv:
        px, py = r.corners(i, j)
        ph = np.array([(1 - fx) * (1 - fy), fx * (1 - fy), fx * fy, (1 - fx) * fy])
        x, y = float(ph @ px), float(ph @ py)
    else:
        if r.x == 1:
            x = r.lon[0] + rng.uniform(-3, 3)
        else:
            l0, l1 = r.lon[i], r.lon[i + 1]
            if r.sph:
                l1 -= 360. * np.round((l1 - l0) / 360.) if abs(l1 - l0) > 180 else 0.
            x = l0 if fx == 0 else l1 if fx == 1 else l0 + fx * (l1 - l0)
        y = r.lat[0] + rng.uniform(-3, 3) if r.y == 1 else (r.lat[j] if fy == 0 else r.lat[j + 1] if fy == 1 else r.lat[j] + fy * (r.lat[j + 1] - r.lat[j]))
    if r.sph:
        lo, hi = r.lon.min(), r.lon.max()
        if x > hi:
            x -= 360.
        elif x < lo:
            x += 360.
    x, y = f32(x), f32(y)
    # vertical
    z = 0.
    if r.z > 1:
        cs = r.cells(x, y)
        t_for_col = T[0]
    # time
    u = rng.random()
    if len(T) == 1:
        t = float(T[0]) + float(choice(rng, [0., 0., 1000., -500.]))
    elif u < .3:
        t = float(choice(rng, list(T)))
    elif u < .85 or where in ('in', 'edge', 'near') and s['timemode'] not in ('periodic', 'extrap'):
        t = float(rng.uniform(T[0], T[-1]))
    else:
        t = float(rng.uniform(T[0] - 3 * (T[-1] - T[0]), T[-1] + 3 * (T[-1] - T[0])))
    t = float(np.round(t))
    if r.z > 1:
        if not cs:
            return None
        ci, cj, xs_, et = cs[0]
        col = r.column(ci, cj, xs_, et, t if r.times(t) else T[0], s['stagger'] == 'B')
        k = int(rng.integers(r.z - 1))
        fz = frac(where if where in ('in', 'near') or s['kind'][1] == 'z' or s['dyadic'] else 'in') if where != 'out' else rng.uniform(.05, .95)
        z = col[k] if fz == 0 else col[k + 1] if fz == 1 else col[k] + fz * (col[k + 1] - col[k])
        if s['indexing'] == 'mom5' and rng.random() < .25 and col[-1] > col[0] > 0:
            z = col[0] * float(choice(rng, [.1, .5, .9, 1.]))
    elif rng.random() < .3:
        z = float(rng.uniform(-5, 5))
    z = f32(z)
    return t, float(z), float(y), float(x)


def out_query(rng, r):
    """A query outside the data in exactly one direction, by small or large amounts."""
    q = None
    while q is None:
        q = query(rng, r, 'in')
    t, z, y, x = q
    dirs = []
    if r.x > 1 and not r.global_:
        dirs += ['x-', 'x+']
    if r.y > 1:
        dirs += ['y-', 'y+']
    if r.z > 1:
        dirs += ['z-', 'z+']
    if not dirs:
        return None
    d = choice(rng, dirs)
    e = float(choice(rng, [1e-3, .05, .5, 3., 40.]))
    if d[0] in 'xy':
        lon, lat = r.lon, r.lat
        if not r.curv:
            if d[0] == 'x':
                if r.sph and r.lon[-1] < r.lon[0]:      # crosses the date line: step out of either end into the gap
                    c = 1.
                    e = min(e, 20.)
                    x = lon[0] - e * c if d == 'x-' else lon[-1] + e * c
                else:
                    c = abs(np.diff(lon)).max()
                    if r.sph:
                        e = min(e, 1.)
                    x = lon.min() - e * c if d == 'x-' else lon.max() + e * c
            else:
                c = abs(np.diff(lat)).max()
                y = lat.min() - e * c if d == 'y-' else lat.max() + e * c
        else:
            # beyond the bounding box
            c = (lon.max() - lon.min()) if not r.sph else 1.
            cy = lat.max() - lat.min()
            if d[0] == 'x':
                if r.sph and (lon.max() - lon.min() > 180):
                    return None
                x = lon.min() - e * c if d == 'x-' else lon.max() + e * c
            else:
                y = lat.min() - e * cy if d == 'y-' else lat.max() + e * cy
    else:
        cs = r.cells(x, y)
        if not cs:
            return None
        i, j, xs_, et = cs[0]
        col = r.column(i, j, xs_, et, t if r.times(t) else r.time[0], r.s['stagger'] == 'B')
        z = col[0] - e * (col[1] - col[0]) if d == 'z-' else col[-1] + e * (col[-1] - col[-2])
    x, y, z = (float(np.float32(v)) for v in (x, y, z))
    return (t, z, y, x), d
