"""C16: every step that a recording kernel saw is compared with the documented update of the scheme for velocity fields that are
known exactly; analytical advection is compared with the exact solution in each cell."""
import math

import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, workdir

RULE = ('a scenario is one scheme, mode, mesh, precision, velocity field (multilinear in space and time, or random on a C-grid), time '
        'direction, time step and sequence of execute() calls; non-trivial = distinct scenario with at least one judged step')
REQUIRED = {'steps_EE': 60, 'steps_RK4': 60, 'steps_RK4_3D': 60, 'steps_RK45': 120, 'rk45_rejected': 30, 'rk45_doubled': 30,
            'rk45_kept': 30, 'analytical_particles': 60, 'analytical_backward': 25, 'analytical_crossings': 80, 'analytical_timevarying': 15,
            'analytical_3d': 15, 'analytical_spherical': 10, 'analytical_curvilinear': 10, 'spherical_steps': 100, 'backward_steps': 150}
ASSUMPTIONS = ['velocities are compared within the rounding of 32-bit samples; steps of the adaptive scheme whose error estimate is within '
               'that rounding of a threshold are not judged', 'analytical steps that start or end within rounding of a cell edge on two '
               'axes at once are not judged']
D = 1852 * 60.
SLOTS = 8


def scenarios(tier, seed):
    n = 750 if tier == 'quick' else 12000
    return [{'seed': seed, 'k': k} for k in range(n)]


def run(scn, rec):
    import parcels as P
    rng = rng_for('C16', scn['seed'], scn['k'])
    with workdir():
        if scn['k'] % 3 == 2:
            analytical(P, rec, rng)
        else:
            runge_kutta(P, rec, rng, ['EE', 'RK4', 'RK4_3D', 'RK45', 'RK45'][scn['k'] // 3 % 5])


def recorder():
    src = ['def Recorder(particle, fieldset, time):']
    for j in range(SLOTS):
        src += ['    if particle.n == %d:' % j] + ['        particle.%s%d = %s' % (a, j, b) for a, b in
                                                   [('x', 'particle.lon'), ('y', 'particle.lat'), ('z', 'particle.depth'), ('t', 'time'),
                                                    ('d', 'particle.dt')]]
    return '\n'.join(src + ['    particle.n += 1']) + '\n'


class Multilinear(object):
    """a velocity that is linear in each of x, y, z and t, so that linear interpolation gives it exactly"""
    def __init__(self, rng, scale, centre, width, withz, witht):
        self.c, self.w = centre, width
        self.terms = [((), scale * rng.uniform(-1, 1))]
        for names in ['x', 'y', 'xy', 't', 'z', 'xt', 'yz', 'yt']:
            if ('z' in names and not withz) or ('t' in names and not witht):
                continue
            self.terms.append((tuple('xyzt'.index(n) for n in names), scale * rng.uniform(-1, 1)))

    def __call__(self, *p):
        q = [(a - c) / w for a, c, w in zip(p, self.c, self.w)]
        return sum(f * math.prod(q[i] for i in i_) if i_ else f for i_, f in self.terms)

    def grid(self, x, y, z, t):
        T, Z, Y, X = np.meshgrid(t, z, y, x, indexing='ij')
        q = [(a - c) / w for a, c, w in zip((X, Y, Z, T), self.c, self.w)]
        r = np.zeros_like(X)
        for i_, f in self.terms:
            m = np.full_like(X, f)
            for i in i_:
                m = m * q[i]
            r = r + m
        return r


def axis(rng, lo, hi, n):
    a = np.sort(rng.uniform(lo, hi, n - 2))
    a = np.concatenate([[lo], a, [hi]])
    a = a + np.linspace(0, (hi - lo) * .3, n)   # no tiny cells
    return (lo + (a - lo) / 1.3).astype(np.float32)


def runge_kutta(P, rec, rng, scheme):
    mode = choice(rng, ['jit', 'scipy'])
    mesh = choice(rng, ['flat', 'spherical'])
    dtype = choice(rng, [np.float64, np.float64, np.float32])
    lat0 = float(choice(rng, [0., 45., -60.])) if mesh == 'spherical' else 0.
    three = scheme == 'RK4_3D'
    witht, withz = bool(rng.random() < .7), three or bool(rng.random() < .3)
    lon, lat = axis(rng, -8., 8., 6), axis(rng, lat0 - 8, lat0 + 8, 5)
    dep = axis(rng, 0., 16., 4) if withz else np.zeros(1, np.float32)
    tim = np.array([-400., 0., 100., 400.]) if witht else np.zeros(1)
    rk45 = scheme == 'RK45'
    amp = choice(rng, [.02, .05, .1]) if rk45 else choice(rng, [.02, .05])
    vel = [Multilinear(rng, amp, (0., lat0, 8., 0.), (2., 2., 4., 100.), withz, witht) for _ in 'uvw']
    fac = (D * math.cos(math.radians(lat0)), D) if mesh == 'spherical' else (1., 1.)
    data = {'U': vel[0].grid(lon, lat, dep, tim) * fac[0], 'V': vel[1].grid(lon, lat, dep, tim) * fac[1]}
    if three:
        data['W'] = vel[2].grid(lon, lat, dep, tim)
    data = {k: (d if withz else d[:, 0]).astype(np.float32) for k, d in data.items()}
    data = {k: d if witht else d[0] for k, d in data.items()}
    vmax = [float(np.abs(data[k]).max()) / f for k, f in zip('UV', fac)] + [float(np.abs(data.get('W', 0.)).max())]
    dims = {'lon': lon, 'lat': lat}
    if withz:
        dims['depth'] = dep
    if witht:
        dims['time'] = tim
    fs = P.FieldSet.from_data(data, dims, mesh=mesh, allow_time_extrapolation=not witht)
    parts = choice(rng, [1, 1, 2])
    if parts == 2 and not three and not rk45:   # the same velocity as a sum of two fields
        fs2 = P.FieldSet.from_data({k: d * np.float32(.25) for k, d in data.items()}, dims, mesh=mesh, allow_time_extrapolation=not witht)
        fs = P.FieldSet(U=fs.U + fs2.U, V=fs.V + fs2.V)
        gain = 1.25
    else:
        gain = 1.

    def uvw(x, y, z, t):
        p = (x, y, z if withz else 8., t if witht else 0.)
        u, v = gain * vel[0](*p), gain * vel[1](*p)
        if mesh == 'spherical':
            u *= math.cos(math.radians(lat0)) / math.cos(math.radians(y))
        return u, v, vel[2](*p)

    sgn = choice(rng, [1., -1.])
    dt = sgn * (choice(rng, [.5, 2., 8., 30.]) if rk45 else choice(rng, [3., 5., 7.5]))
    run_ = choice(rng, [20., 33.]) if rk45 else abs(dt) * choice(rng, [2, 3, 2.5, 1])
    npart = int(rng.integers(2, 5))
    x0, y0 = rng.uniform(-2.5, 2.5, npart), lat0 + rng.uniform(-2.5, 2.5, npart)
    z0, t0 = rng.uniform(5., 11., npart), float(choice(rng, [0., 37.5, -3.]))
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    pc = type('MonP', (base,), dict([('%s%d' % (a, j), P.Variable('%s%d' % (a, j), dtype=np.float64, initial=0.))
                                     for a in 'xyztd' for j in range(SLOTS)] + [('n', P.Variable('n', dtype=np.int32, initial=0))]))
    kw = dict(depth=z0) if withz else {}
    ps = P.ParticleSet(fs, pclass=pc, lon=x0, lat=y0, time=t0, lonlatdepth_dtype=dtype, **kw)
    kernel = ps.Kernel(mkkernel(recorder(), 'Recorder')) + ps.Kernel(getattr(P, 'Advection' + scheme))
    details = dict(scheme=scheme, mode=mode, mesh=mesh, dtype=dtype.__name__, dt=dt, runtime=run_, t0=t0, x0=x0.tolist(), y0=y0.tolist(),
                   z0=z0.tolist(), withz=withz, witht=witht, terms=[v.terms for v in vel], parts=gain)
    left = set()

    def Gone(particle, fieldset, time):
        left.add(1)
        particle.delete()
    ps.execute(kernel, runtime=run_, dt=dt, verbose_progress=False, recovery={P.ErrorCode.ErrorOutOfBounds: Gone,
                                                                              P.ErrorCode.ErrorThroughSurface: Gone})
    judged = 0
    for p in ps:
        n = int(p.n)
        rows = [[float(getattr(p, '%s%d' % (a, j))) for a in 'xyztd'] for j in range(min(n, SLOTS))]
        if n <= SLOTS:
            rows.append([float(p.lon), float(p.lat), float(p.depth), float(p.time), None])
        nxt = None
        for j in range(len(rows) - 1):
            x, y, z, t, d = rows[j]
            want, err = step(scheme, uvw, x, y, z, t, d)
            got = rows[j + 1][:3]
            tol = [3 * float(np.spacing(dtype(abs(g) + 1e-3))) + abs(d) * 2e-6 * gain * v for g, v in zip(got, vmax)]
            if not three:
                want, tol[2] = (want[0], want[1], z), 0.
            bad = [k for k in range(3) if abs(want[k] - got[k]) > tol[k]]
            if bad:
                rec.violation('wrong update', '%s in %s mode: step %d from %r (dt %r) leads to %r instead of %r' % (
                    scheme, mode, j, rows[j][:4], d, got, want), **details)
                return
            if abs(rows[j + 1][3] - t - d) > 1e-6 or d * dt <= 0:
                rec.violation('wrong time', '%s in %s mode: step %d of dt %r leads from time %r to %r' % (scheme, mode, j, d, t, rows[j + 1][3]),
                              **details)
                return
            judged += 1
            rec.event('steps_' + scheme)
            rec.event('spherical_steps' if mesh == 'spherical' else 'flat_steps')
            rec.event('forward_steps' if d > 0 else 'backward_steps')
            if rk45:
                msg = adaptive(rec, uvw, rows[j], err, dt if j == 0 else nxt, sgn, t0 + sgn * run_, 4e-7 * max(vmax))
                if msg:
                    rec.violation('wrong step size', 'RK45 in %s mode: step %d from %r: %s' % (mode, j, rows[j], msg), **details)
                    return
                rho, noise = err / abs(d) / 1e-6, 4e-7 * max(vmax) / 1e-6
                nxt = None if abs(rho - 1) <= noise else 2 * d if rho < 1 else d
    if judged:
        rec.state(scheme, mode, mesh, dtype.__name__, repr(details))
        rec.setsample(scheme=scheme, mode=mode, dt=dt, steps=judged)


def adaptive(rec, uvw, row, err, nominal, sgn, end, noise):
    """the step size of an accepted step: what was attempted first, halved once for each attempt above the tolerance"""
    x, y, z, t, d = row
    if err / abs(d) > 1e-5 + noise:
        return 'accepted with an error of %r dt' % (err / abs(d))
    if nominal is None:
        return None
    first = sgn * min(abs(nominal), abs(end - t))
    k = math.log2(first / d) if first / d > 0 else -1
    if k < -1e-6 or abs(k - round(k)) > 1e-6:
        return 'the step size should be %r or halvings of it' % first
    for m in range(int(round(k))):
        e = step('RK45', uvw, x, y, z, t, first / 2**m)[1] / abs(first / 2**m)
        if e < 1e-5 - noise:
            return 'a step of %r was rejected though its error is %r dt' % (first / 2**m, e)
        rec.event('rk45_rejected')
    if abs(nominal) < abs(end - t) and round(k) == 0:
        rec.event('rk45_first_accepted')
    rec.event('rk45_doubled' if err / abs(d) < 1e-6 else 'rk45_kept')
    return None


# Fehlberg's coefficients
FA = [[], [1 / 4], [3 / 32, 9 / 32], [1932 / 2197, -7200 / 2197, 7296 / 2197], [439 / 216, -8, 3680 / 513, -845 / 4104],
      [-8 / 27, 2, -3544 / 2565, 1859 / 4104, -11 / 40]]
F4 = [25 / 216, 0, 1408 / 2565, 2197 / 4104, -1 / 5, 0]
F5 = [16 / 135, 0, 6656 / 12825, 28561 / 56430, -9 / 50, 2 / 55]


def step(scheme, uvw, x, y, z, t, d):
    """the position after one step, and the error estimate of the adaptive scheme"""
    if scheme == 'EE':
        A, b = [[]], [1.]
    elif scheme == 'RK45':
        A, b = FA, F4
    else:
        A, b = [[], [.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]
    ks = []
    p0 = np.array([x, y, z])
    three = scheme == 'RK4_3D'
    for a in A:
        q = p0 + d * sum((f * k for f, k in zip(a, ks)), np.zeros(3))
        k = np.array(uvw(q[0], q[1], q[2], t + d * sum(a)))
        if not three:
            k[2] = 0.
        ks.append(k)
    new = p0 + d * sum((f * k for f, k in zip(b, ks)), np.zeros(3))
    err = 0.
    if scheme == 'RK45':
        e = d * sum(((f - g) * k for f, g, k in zip(F5, F4, ks)), np.zeros(3))
        err = float(math.hypot(e[0], e[1]))
    return tuple(float(a) for a in new), err


class Unsure(Exception):
    pass


class Left(Exception):
    pass


def exit_time(F0, F1, r, scale):
    """when and where r' = F0 (1-r) + F1 r leaves [0, 1]; F are rates"""
    u, b = F0 + (F1 - F0) * r, F1 - F0
    if abs(u) < 1e-6 * scale:
        raise Unsure
    s = 1 if u > 0 else -1
    Ft = F1 if s > 0 else F0
    if Ft * u <= 0:
        if abs(Ft) < 1e-6 * scale:
            raise Unsure
        return math.inf, s
    if Ft * u < 1e-7 * b * b:
        raise Unsure
    if abs(b) < 1e-9 * scale:
        return ((1. if s > 0 else 0.) - r) / u, s
    return math.log(Ft / u) / b, s


def move(F0, F1, r, t):
    b = F1 - F0
    u = F0 + b * r
    return r + (u * t if abs(b * t) < 1e-12 else u * math.expm1(b * t) / b)


class Exact(object):
    """the motion of one particle on a C-grid, cell by cell"""
    def __init__(self, axes, data, mesh, tim, sgn, ds_tol, periodic):
        self.steps = 0
        self.a, self.d, self.mesh, self.tim, self.sgn, self.ds_tol, self.periodic = axes, data, mesh, tim, sgn, ds_tol, periodic

    def value(self, name, idx, ti, tau):
        d = self.d[name]
        if self.tim is None:
            return self.sgn * float(d[idx])
        return self.sgn * ((1 - tau) * float(d[ti][idx]) + tau * float(d[ti + 1][idx]))

    def start(self, pos):
        self.i = [int(np.searchsorted(a, p, side='right')) - 1 for a, p in zip(self.a, pos)]
        self.r = [(p - a[i]) / (a[i + 1] - a[i]) for a, p, i in zip(self.a, pos, self.i)]

    def pos(self):
        return [a[i] + r * (a[i + 1] - a[i]) for a, i, r in zip(self.a, self.i, self.r)]

    def advance(self, t, end):
        """from time t to end; counts the edges crossed"""
        crossed = 0
        for _ in range(2000):
            left = self.sgn * (end - t)
            if left <= 1e-9 * max(1., abs(end)):
                return crossed
            sub, ti, tau = left, 0, 0.
            if self.tim is not None:
                te, n = t, len(self.tim)
                if self.periodic:
                    per = self.tim[-1] - self.tim[0]
                    te = self.tim[0] + (t - self.tim[0]) % per
                ti = min(int(np.searchsorted(self.tim, te, side='right')) - 1, n - 2)
                if self.sgn > 0 and ti < n - 2 and self.tim[ti + 1] - te < 1e-7 * (self.tim[ti + 1] - self.tim[ti]):
                    ti += 1
                if self.sgn < 0 and ti > 0 and te - self.tim[ti] < 1e-7 * (self.tim[ti + 1] - self.tim[ti]):
                    ti -= 1
                T, el = self.tim[ti + 1] - self.tim[ti], te - self.tim[ti]
                tau = min(max(el / T, 0.), 1.)
                marks = [(m - el) * self.sgn for m in np.linspace(0, T, 10)]
                if any(1e-7 * T < m < 1e-5 * T for m in marks):
                    raise Unsure
                sub = min([left] + [m for m in marks if m > 1e-6 * T])
            crossed += self.substep(sub, ti, tau)
            t += self.sgn * self.dt
            self.steps += 1
        raise Unsure

    def substep(self, sub, ti, tau):
        i, r = self.i, self.r
        w = [a[k + 1] - a[k] for a, k in zip(self.a, i)]
        z = (i[2],) if len(i) > 2 else ()
        vals = [[self.value('U', z + (i[1] + 1, i[0] + k), ti, tau) for k in (0, 1)],
                [self.value('V', z + (i[1] + k, i[0] + 1), ti, tau) for k in (0, 1)]]
        if len(i) > 2:
            vals.append([self.value('W', (i[2] + k, i[1] + 1, i[0] + 1), ti, tau) for k in (0, 1)])
        if self.mesh == 'spherical':
            y = self.pos()[1]
            cos = [math.cos(math.radians(v)) for v in (self.a[1][i[1]], self.a[1][i[1] + 1], y)]
            rate = [[v / (w[0] * D * cos[2]) for v in vals[0]], [v * c / (w[1] * D * cos[2]) for v, c in zip(vals[1], cos)]]
            J = w[0] * w[1] * D * D * cos[2]
        else:
            rate = [[v / w[0] for v in vals[0]], [v / w[1] for v in vals[1]]]
            J = w[0] * w[1]
        if len(i) > 2:
            rate.append([v / w[2] for v in vals[2]])
            J *= w[2]
        ex = []
        for k, (F0, F1) in enumerate(rate):
            # on an edge the particle is in the cell that it moves into
            for edge, F, to in ((1., F1, 1), (0., F0, -1)):
                if abs(r[k] - edge) < 1e-9 and F * to > 0:
                    if not 0 <= i[k] + to < len(self.a[k]) - 1:
                        raise Left
                    i[k] += to
                    r[k] = 1. - edge
                    return self.substep(sub, ti, tau)
            ex.append(exit_time(F0, F1, r[k], max(abs(F0), abs(F1), 1e-12)))
        times = sorted([e[0] for e in ex] + [sub])
        if times[1] - times[0] < 1e-7 * times[0] or any(e[0] < 30 * self.ds_tol * J for e in ex):
            raise Unsure
        self.dt = times[0]
        n = 0
        for k, (F0, F1) in enumerate(rate):
            if ex[k][0] == self.dt:
                i[k] += ex[k][1]
                r[k] = 0. if ex[k][1] > 0 else 1.
                n = 1
                if not 0 <= i[k] < len(self.a[k]) - 1:
                    raise Left
            else:
                r[k] = move(F0, F1, r[k], self.dt)
        return n


def analytical(P, rec, rng):
    three = bool(rng.random() < .35)
    curvi = not three and bool(rng.random() < .3)
    mesh = 'flat' if curvi else choice(rng, ['flat', 'flat', 'spherical'])
    sgn = choice(rng, [1, -1])
    varying = bool(rng.random() < .35)
    periodic = varying and sgn > 0 and bool(rng.random() < .4)
    n = [8, 7, 6]
    unit = .1 if mesh == 'spherical' else choice(rng, [1., 1., 50.])
    lat0 = float(choice(rng, [0., 40., -60.])) if mesh == 'spherical' else 0.
    lon0 = float(choice(rng, [0., 170., 300., -120.])) if mesh == 'spherical' else 0.
    axes = [np.cumsum(rng.integers(1, 4, k) / 2.) * unit for k in n]
    axes[0], axes[1], axes[2] = axes[0] + lon0, axes[1] + lat0, axes[2] / unit * choice(rng, [1., 10.])
    if curvi:
        axes = [np.arange(k) * unit * 1. for k in n]
    axes = [a.astype(np.float32) for a in axes]
    scale = {'U': 1., 'V': 1., 'W': 1.}
    tunit = (unit * D if mesh == 'spherical' else unit)   # a unit of time in which about one cell is crossed
    shape = (n[2], n[1], n[0]) if three else (n[1], n[0])
    if varying:
        nt = int(rng.integers(2, 5))
        tim = np.cumsum(rng.integers(1, 4, nt)) * .5 * tunit
        tim = tim - tim[0]
        shape = (nt,) + shape
    else:
        tim = None
    data = {}
    for k in 'UVW' if three else 'UV':
        s = scale[k] * (float(axes[2][1]) / unit / (D if mesh == 'spherical' else 1.) if k == 'W' else 1.)
        data[k] = (s * (choice(rng, [1., -1., .3, -.3]) + choice(rng, [0., .1, .3]) * rng.normal(size=shape))).astype(np.float32)
    if rng.random() < .2:
        data['U'][...] = choice(rng, [0., .5, -.5])
    rot = None
    dims = {'lon': axes[0], 'lat': axes[1]}
    if curvi:
        ang = rng.uniform(-.6, .6)
        rot = np.array([[math.cos(ang), -math.sin(ang)], [math.sin(ang), math.cos(ang)]])
        X, Y = np.meshgrid(axes[0], axes[1])
        dims = {'lon': (rot[0, 0] * X + rot[0, 1] * Y).astype(np.float32), 'lat': (rot[1, 0] * X + rot[1, 1] * Y).astype(np.float32)}
    if three:
        dims['depth'] = axes[2]
    if varying:
        dims['time'] = tim
    kw = {}
    if periodic:
        data = {k: np.concatenate([d[:-1], d[:1]]) for k, d in data.items()}
        kw['time_periodic'] = float(tim[-1] - tim[0])
    fs = P.FieldSet.from_data(data, dims, mesh=mesh, **kw)
    for k in data:
        getattr(fs, k).interp_method = 'cgrid_velocity'
    ax = [a.astype(np.float64) for a in axes[:3 if three else 2]]
    npart = int(rng.integers(2, 5))
    start = [[float(a[len(a) // 2 - 1] + rng.uniform(-.5, 1.5) * (a[len(a) // 2] - a[len(a) // 2 - 1])) for a in ax] for _ in range(npart)]
    if rng.random() < .3:   # on an edge
        k = int(rng.integers(len(ax)))
        start[0][k] = float(ax[k][len(ax[k]) // 2])
    span = float(tim[-1]) if varying else 0.
    t0 = choice(rng, [0., .3 * span]) if sgn > 0 else choice(rng, [span, .7 * span])
    total = (min(sgn * ((span if sgn > 0 else 0.) - t0), 3. * tunit) if varying and not periodic else choice(rng, [.5, 1., 2.5]) * tunit)
    total *= choice(rng, [1., 1., .6])
    cuts = choice(rng, [[1.], [1.], [.4, .6], [.2, .3, .5]])
    world = [list(rot @ np.array(s)) if curvi else s for s in start]
    kw = dict(depth=[w[2] for w in world]) if three else {}
    ps = P.ParticleSet(fs, pclass=P.ScipyParticle, lon=[w[0] for w in world], lat=[w[1] for w in world], time=t0, lonlatdepth_dtype=np.float64, **kw)
    model, fate, crossed = [], [None] * npart, [0] * npart
    for s in start:
        m = Exact(ax, data, mesh, tim, sgn, 1e-10, periodic)
        m.start(s)
        model.append(m)
    details = dict(mesh=mesh, sgn=sgn, axes=[a.tolist() for a in ax], varying=varying, periodic=periodic, tim=tim, start=start, t0=t0,
                   total=total, cuts=cuts, rot=rot, three=three, data={k: d.tolist() for k, d in data.items()})
    t = t0
    for c in cuts:
        for k in range(npart):
            if fate[k] is None:
                try:
                    crossed[k] += model[k].advance(t, t + sgn * c * total)
                except Left:
                    fate[k] = 'left'
                except Unsure:
                    fate[k] = 'unsure'
        t += sgn * c * total

    def Gone(particle, fieldset, time):
        particle.delete()
    ids = [int(p.id) for p in ps]
    for c in cuts:
        if len(ps):
            ps.execute(P.AdvectionAnalytical, runtime=c * total, dt=sgn * c * total, verbose_progress=False,
                       recovery={P.ErrorCode.ErrorOutOfBounds: Gone, P.ErrorCode.ErrorThroughSurface: Gone})
    got = {ids.index(int(p.id)): p for p in ps}
    for k in range(npart):
        if fate[k] is not None:
            rec.event('analytical_' + fate[k])
            continue
        want = model[k].pos()
        if curvi:
            want = list(rot @ np.array(want))
        rec.event('analytical_particles')
        for cond, name in ((sgn < 0, 'backward'), (varying, 'timevarying'), (three, '3d'), (mesh == 'spherical', 'spherical'), (curvi, 'curvilinear'),
                           (periodic, 'periodic')):
            if cond:
                rec.event('analytical_' + name)
        rec.event('analytical_crossings', crossed[k])
        if k not in got:
            rec.violation('particle lost', 'analytical: particle %d should be at %r after %d crossings, but left' % (k, want, crossed[k]), **details)
            return
        p = got[k]
        pos = [float(p.lon), float(p.lat)] + ([float(p.depth)] if three else [])
        tols = [2e-6 * float(a[1] - a[0]) * (5 if curvi else 1) + 5e-7 * float(a[-1] - a[0]) + 1e-12 * abs(x) for a, x in zip(ax, want)]
        if three:   # depths are looked up in single precision, at every step
            rel = 1.2e-7 * float(ax[2][-1]) * (model[k].steps + 2) / float(min(np.diff(ax[2])))
            tols = [e + 5 * rel * float(max(np.diff(a))) for e, a in zip(tols, ax)]
        if any(abs(a - b) > e for a, b, e in zip(pos, want, tols)):
            rec.violation('wrong position', 'analytical: particle %d is at %r instead of %r after %d crossings' % (k, pos, want, crossed[k]), **details)
            return
        if abs(float(p.time) - t) > 1e-6 * max(1., abs(t)):
            rec.violation('wrong time', 'analytical: particle %d is at time %r instead of %r' % (k, float(p.time), t), **details)
            return
        rec.state('analytical', repr(details), k)
