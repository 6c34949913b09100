"""C25: every value set by the sea-water property kernels (both modes, alone and in sums, constant and varying fields, several time steps) is compared
with an independent transcription of the published equations at the salinity, temperature, pressure and depth of the particle; temperatures are converted
to potential temperatures and back."""
import math

import numpy as np

from ..gen import choice, mkkernel
from rt.core import rng_for

RULE = ('a scenario is a field set with salinity, temperature and pressure (constant, or linear in space and time, or with one value per particle), 1-12 particles at '
        'all latitudes and depths, and 1-4 of the kernels run together for one or several steps; non-trivial = distinct (kernels, mode, field kind, precision)')
REQUIRED = {'direct': 3000, 'PressureFromLatDepth': 80, 'AdiabticTemperatureGradient': 80, 'PtempFromTemp': 80, 'TempFromPtemp': 80, 'UNESCODensity': 80, 'PolyTEOS10_bsq': 80,
            'jit': 40, 'scipy': 40, 'constant': 20, 'varying': 40, 'sums': 40, 'steps': 30, 'round_trip': 80, 'refpressure': 60, 'southern': 60, 'poles': 3,
            'fresh': 20, 'freezing': 20, 'deep': 30, 'surface': 30, 'check_values': 6}
ASSUMPTIONS = ['fields are linear between their nodes, so that sampled values are known to single precision',
               'the published equations are those cited in the kernels (polyTEOS10 gives the density without the vertical reference profile)']


def scenarios(tier, seed):
    n = 130 if tier == 'quick' else 5000
    return [{'seed': seed, 'k': k} for k in range(n)]


# ---- published equations (UNESCO technical papers 44, 1983; Saunders 1981; Roquet et al. 2015) ----

def saunders(lat, depth):
    s2 = math.sin(math.radians(abs(lat))) ** 2
    c1 = (5.92 + 5.25 * s2) * 1e-3
    return (1 - c1 - math.sqrt((1 - c1) ** 2 - 8.84e-6 * depth)) / 4.42e-6


def gradient68(S, T68, p):
    """adiabatic lapse rate, UNESCO 44 eq. (28), temperature IPTS-68, p in dbar"""
    return (3.5803e-5 + 8.5258e-6 * T68 - 6.836e-8 * T68 ** 2 + 6.6228e-10 * T68 ** 3
            + (1.8932e-6 - 4.2393e-8 * T68) * (S - 35)
            + (1.8741e-8 - 6.7795e-10 * T68 + 8.733e-12 * T68 ** 2 - 5.4481e-14 * T68 ** 3 + (-1.1351e-10 + 2.7759e-12 * T68) * (S - 35)) * p
            + (-4.6206e-13 + 1.8676e-14 * T68 - 2.1687e-16 * T68 ** 2) * p ** 2)


def lapse(S, T, p):
    return gradient68(S, T * 1.00024, p)


def theta(S, T, p, pr):
    """potential temperature, UNESCO 44 eq. (31): Runge-Kutta scheme of Gill"""
    t, dp = T * 1.00024, pr - p
    r = math.sqrt(.5)
    k = dp * gradient68(S, t, p)
    t += .5 * k
    q = k
    k = dp * gradient68(S, t, p + dp / 2)
    t += (1 - r) * (k - q)
    q = 2 * (1 - r) * k + (3 * r - 2) * q
    k = dp * gradient68(S, t, p + dp / 2)
    t += (1 + r) * (k - q)
    q = 2 * (1 + r) * k - (2 + 3 * r) * q
    k = dp * gradient68(S, t, p + dp)
    return (t + (k - 2 * q) / 6) / 1.00024


def poly(x, *c):
    r = 0.
    for a in reversed(c):
        r = r * x + a
    return r


def eos80(S, T, p):
    """density, international equation of state 1980, p in bar"""
    r = math.sqrt(S)
    rho = (poly(T, 999.842594, 6.793952e-2, -9.095290e-3, 1.001685e-4, -1.120083e-6, 6.536332e-9)
           + poly(T, .824493, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9) * S + poly(T, -5.72466e-3, 1.0227e-4, -1.6546e-6) * S * r + 4.8314e-4 * S ** 2)
    K = (poly(T, 19652.21, 148.4206, -2.327105, 1.360477e-2, -5.155288e-5) + poly(T, 54.6746, -.603459, 1.09987e-2, -6.1670e-5) * S
         + poly(T, 7.944e-2, 1.6483e-2, -5.3009e-4) * S * r)
    A = poly(T, 3.239908, 1.43713e-3, 1.16092e-4, -5.77905e-7) + poly(T, 2.2838e-3, -1.0981e-5, -1.6078e-6) * S + 1.91075e-4 * S * r
    B = poly(T, 8.50935e-5, -6.12293e-6, 5.2787e-8) + poly(T, -9.9348e-7, 2.0816e-8, 9.1697e-10) * S
    return rho / (1 - p / (K + A * p + B * p * p))


def eos80_rounded(S, T, p):
    """the same with the coefficients as they are rounded in the reference of the kernel"""
    global poly
    exact = poly
    new = {.824493: .82449, -5.72466e-3: -5.7246e-3, 3.239908: 3.2399, 6.793952e-2: .06793953}
    poly = lambda x, *c: exact(x, *[new.get(a, a) for a in c])  # noqa: E731
    try:
        return eos80(S, T, p)
    finally:
        poly = exact


ROQUET = {  # (power of s, power of t, power of z): coefficient
    0: {0: [8.0189615746e+02, 8.6672408165e+02, -1.7864682637e+03, 2.0375295546e+03, -1.2849161071e+03, 4.3227585684e+02, -6.0579916612e+01],
        1: [2.6010145068e+01, -6.5281885265e+01, 8.1770425108e+01, -5.6888046321e+01, 1.7681814114e+01, -1.9193502195e+00],
        2: [-3.7074170417e+01, 6.1548258127e+01, -6.0362551501e+01, 2.9130021253e+01, -5.4723692739e+00],
        3: [2.1661789529e+01, -3.3449108469e+01, 1.9717078466e+01, -3.1742946532e+00],
        4: [-8.3627885467e+00, 1.1311538584e+01, -5.3563304045e+00], 5: [5.4048723791e-01, 4.8169980163e-01], 6: [-1.9083568888e-01]},
    1: {0: [1.9681925209e+01, -4.2549998214e+01, 5.0774768218e+01, -3.0938076334e+01, 6.6051753097e+00],
        1: [-1.3336301113e+01, -4.4870114575e+00, 5.0042598061e+00, -6.5399043664e-01], 2: [6.7080479603e+00, 3.5063081279e+00, -1.8795372996e+00],
        3: [-2.4649669534e+00, -5.5077101279e-01], 4: [5.5927935970e-01]},
    2: {0: [2.0660924175e+00, -4.9527603989e+00, 2.5019633244e+00], 1: [2.0564311499e+00, -2.1311365518e-01], 2: [-1.2419983026e+00]},
    3: {0: [-2.3342758797e-02, -1.8507636718e-02], 1: [3.7969820455e-01]}}


def teos10(SA, CT, depth):
    s, t, z = math.sqrt((SA + 32.) / (40 * 35.16504 / 35)), CT / 40., depth / 1e4
    return sum(poly(s, *c) * t ** j * z ** k for k, d in ROQUET.items() for j, c in d.items())


CHECK = [(lambda: saunders(30, 7321.45), 7500.004, 3e-3), (lambda: theta(40., 40., 10000., 0.), 36.89073, 2e-3), (lambda: lapse(40., 40. / 1.00024, 10000.), 3.255976e-4, 1e-9),
         (lambda: eos80(0, 5., 0), 999.96675, 1e-5), (lambda: eos80(35., 5., 0), 1027.67547, 1e-5), (lambda: eos80(35., 25., 1000.), 1062.53817, 1e-5),
         (lambda: eos80(0, 25., 1000.), 1037.90204, 1e-5), (lambda: teos10(30., 10., 1000.), 1022.85377, 1e-5)]

KERNELS = {  # variable set, inputs, equation, scale of intermediate results, size of the result for single precision
    'PressureFromLatDepth': ('pressure', ('lat', 'depth'), saunders, 4e5),
    'AdiabticTemperatureGradient': ('adtg', ('S', 'T', 'pressure'), lapse, 4e-4),
    'PtempFromTemp': ('potemp', ('psu_salinity', 'temperature', 'pressure', 'refpressure'), theta, 60.),
    'TempFromPtemp': ('temp', ('psu_salinity', 'potemperature', 'refpressure', 'pressure'), theta, 60.),
    'UNESCODensity': ('density', ('psu_salinity', 'cons_temperature', 'cons_pressure'), eos80, 3000.),
    'PolyTEOS10_bsq': ('density', ('abs_salinity', 'cons_temperature', 'depth'), teos10, 5000.)}
E32 = 6e-8


def run(scn, rec):
    import parcels as P
    from parcels.kernels import EOSseawaterproperties as EOS, TEOSseawaterdensity as TEOS
    k = scn['k']
    rng = rng_for(scn['seed'], 'C25', k)
    if k == 0:
        for f, want, tol in CHECK:
            rec.event('check_values')
            if abs(f() - want) > tol:
                raise AssertionError('the reference equations are wrong: %r instead of %r' % (f(), want))
    direct(EOS, TEOS, rng, rec)
    if k % 5 == 4:
        return round_trip(P, EOS, rng, rec, k)
    jit = bool(rng.random() < .5)
    rec.event('jit' if jit else 'scipy')
    names = list(KERNELS)
    ks = [names[k % 6]]
    if rng.random() < .5:
        others = [n for n in names if n not in ks]
        rng.shuffle(others)
        for n in others[:int(rng.integers(1, 4))]:
            if KERNELS[n][0] not in [KERNELS[o][0] for o in ks] and not (KERNELS[n][0] == 'pressure'):
                ks.append(n)
    rng.shuffle(ks)
    if len(ks) > 1:
        rec.event('sums')
    kind = choice(rng, ['constant', 'varying', 'varying'])
    rec.event(kind)
    n = int(rng.integers(1, 13))
    lat = rng.uniform(-89, 89, n)
    lon = rng.uniform(1, 9, n)
    depth = np.array([choice(rng, [0., rng.uniform(0, 200), rng.uniform(0, 10900), rng.uniform(5000, 10900)]) for _ in range(n)])
    if rng.random() < .2:
        lat[0] = choice(rng, [-90., 90.])
    nf = dict(psu_salinity=(0., 42.), abs_salinity=(0., 42.), temperature=(-2., 40.), potemperature=(-2., 38.), cons_temperature=(-2., 40.), cons_pressure=(0., 1000.))
    steps = int(choice(rng, [0, 0, 1, 3]))
    dt = float(choice(rng, [60., 3600.]))
    if steps:
        rec.event('steps')
    ref = {}
    mesh = choice(rng, ['spherical', 'flat'])
    if kind == 'constant':
        data = {'U': 0., 'V': 0.}
        for name, (a, b) in nf.items():
            v = choice(rng, [a, b, rng.uniform(a, b), rng.uniform(a, b)])
            data[name] = float(v)
            ref[name] = lambda t, z, y, x, v=float(np.float32(v)): v
        fs = P.FieldSet.from_data(data, {'lon': 0., 'lat': 0., 'depth': 0.}, mesh=mesh)
    else:
        glon, glat = np.linspace(0., 10., 3).astype(np.float32), np.linspace(-90., 90., int(choice(rng, [2, 3, 5]))).astype(np.float32)
        gdep = np.linspace(0., 11000., int(choice(rng, [2, 4, 9]))).astype(np.float32)
        gtim = np.array([0., 4 * 3600.])
        data = {'U': np.zeros((2, gdep.size, glat.size, 3), np.float32), 'V': np.zeros((2, gdep.size, glat.size, 3), np.float32)}
        for name, (a, b) in nf.items():
            # linear in every coordinate (so that interpolation is exact), inside the range
            u = rng.uniform(-1, 1, 4)
            u /= np.abs(u).sum()
            if rng.random() < .3:  # mostly of depth, like real profiles
                u = np.array([0, 0, choice(rng, [-.999, .999]), 0])
            mid, half = (a + b) / 2, (b - a) / 2

            def f(t, z, y, x, u=u, mid=mid, half=half):
                return mid + half * (u[0] * (t / 7200. - 1) + u[1] * (y / 90.) + u[2] * (z / 5500. - 1) + u[3] * (x / 5. - 1))
            ref[name] = f
            data[name] = f(gtim[:, None, None, None], gdep[None, :, None, None].astype(float), glat[None, None, :, None].astype(float),
                           glon[None, None, None, :].astype(float)).astype(np.float32)
        fs = P.FieldSet.from_data(data, {'lon': glon, 'lat': glat, 'depth': gdep, 'time': gtim}, mesh=mesh)
    pr = float(np.float32(choice(rng, [0., 0., 1000., rng.uniform(0, 5000.)])))
    fs.add_constant('refpressure', pr)
    dtype = np.float64 if rng.random() < .5 else np.float32
    press = np.array([choice(rng, [0., rng.uniform(0, 1000), rng.uniform(0, 11000)]) for _ in range(n)]).astype(np.float32).astype(float)
    S, T = rng.uniform(0, 42, n).astype(np.float32).astype(float), rng.uniform(-2, 40, n).astype(np.float32).astype(float)
    base = P.JITParticle if jit else P.ScipyParticle
    ns = {'tag': P.Variable('tag', dtype=np.int32, initial=0), 'trec': P.Variable('trec', dtype=np.float64, initial=0.)}
    for v in ('S', 'T', 'pressure', 'adtg', 'potemp', 'temp', 'density'):
        ns[v] = P.Variable(v, dtype=dtype, initial=-77.)
    cls = type('SeaParticle', (base,), ns)
    ldt = choice(rng, [np.float32, np.float64])
    lat, lon, depth = (a.astype(ldt).astype(float) for a in (lat, lon, depth))
    pset = P.ParticleSet(fs, pclass=cls, lon=lon, lat=lat, depth=depth, lonlatdepth_dtype=ldt, tag=np.arange(n), pressure=press, S=S, T=T)
    ker = pset.Kernel(mkkernel('def Rec(particle, fieldset, time):\n    particle.trec = time\n', 'Rec'))
    for name in ks:
        ker = ker + pset.Kernel(getattr(EOS, name, None) or getattr(TEOS, name))
    pset.execute(ker, runtime=steps * dt, dt=dt if steps else 0)
    got = {int(p.tag): p for p in pset}
    if len(got) != n:
        rec.violation('lost', '%d of %d particles left' % (len(got), n), kernels=ks)
        return
    order = [c for c in ks]
    for i in range(n):
        p = got[i]
        t = float(p.trec)
        env = dict(lat=lat[i], depth=depth[i], S=S[i], T=T[i], pressure=press[i], refpressure=pr)
        for name in nf:
            env[name] = ref[name](t, depth[i], lat[i], lon[i])
        if lat[i] < 0:
            rec.event('southern')
        if abs(lat[i]) == 90:
            rec.event('poles')
        rec.event('deep' if depth[i] > 4000 else 'surface' if depth[i] == 0 else 'mid')
        if 'PressureFromLatDepth' in order and t > 0:
            env['pressure'] = float(p.pressure)  # set in the previous step; it does not change
        for name in order:
            var, args, f, scale = KERNELS[name]
            a = [env[x] for x in args]
            want = f(*a)
            # first order effect of rounded inputs and single precision intermediate results
            tol = 3 * E32 * abs(want) if dtype == np.float32 else 0.
            for j, x in enumerate(a):
                d = (2e-6 if args[j] in nf else (1e-7 if jit or ldt == np.float32 else 1e-12)) * max(abs(x), nf[args[j]][1] if args[j] in nf and kind == 'varying' else 0.)
                b = list(a)
                b[j] = x + d
                tol += 2 * abs(f(*b) - want)
            tol += scale * (4 * E32 if jit else 1e-13)
            if name == 'UNESCODensity':
                tol += abs(want - eos80_rounded(*a))  # rounded coefficients
            if name == 'PressureFromLatDepth' and kind:
                tol += 1e-4
            rec.event(name)
            rec.event('fresh' if 'sal' in args[0] and a[0] < 2 else 'salt')
            if 'refpressure' in args and pr > 0:
                rec.event('refpressure')
            if any(env[x] < 0 for x in args if 'temp' in x):
                rec.event('freezing')
            v = float(getattr(p, var))
            if not abs(v - want) <= tol:
                rec.violation('value:' + name, '%s gives %r instead of %r (tolerance %.2g) for %s' % (name, v, want, tol, dict(zip(args, a))),
                              kernels=ks, mode='jit' if jit else 'scipy', fields=kind, particle=i, time=t)
                return
            if name == 'PressureFromLatDepth':
                env['pressure'] = v
    rec.state('+'.join(sorted(ks)), jit, kind, str(dtype))


class Value:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, key):
        return self.v


class Bag:
    pass


def direct(EOS, TEOS, rng, rec):
    """the kernels are called as functions, in double precision, for extreme and random waters"""
    rng_ = {'lat': (-90., 90.), 'depth': (0., 11000.), 'S': (0., 42.), 'T': (-2., 40.), 'pressure': (0., 11000.), 'refpressure': (0., 6000.), 'psu_salinity': (0., 42.),
            'temperature': (-2., 40.), 'potemperature': (-2., 38.), 'cons_temperature': (-2., 40.), 'cons_pressure': (0., 1000.), 'abs_salinity': (0., 42.)}
    for name, (var, args, f, scale) in KERNELS.items():
        kernel = getattr(EOS, name, None) or getattr(TEOS, name)
        for _ in range(25):
            env = {x: float(choice(rng, [a, b, rng.uniform(a, b), rng.uniform(a, b)])) for x, (a, b) in rng_.items()}
            particle, fieldset = Bag(), Bag()
            particle.time, particle.lon, particle.dt, particle.id = 0., 3., 1., 0
            for x in ('lat', 'depth', 'S', 'T', 'pressure'):
                setattr(particle, x, env[x])
            for x in ('psu_salinity', 'temperature', 'potemperature', 'cons_temperature', 'cons_pressure', 'abs_salinity'):
                setattr(fieldset, x, Value(env[x]))
            fieldset.refpressure = env['refpressure']
            kernel(particle, fieldset, 0.)
            a = [env[x] for x in args]
            want = f(*a)
            if name == 'UNESCODensity':
                want = min((want, eos80_rounded(*a)), key=lambda w: abs(w - getattr(particle, var)))
            rec.event('direct')
            if not abs(getattr(particle, var) - want) <= TOL.get(name, 1e-12) * scale:
                rec.violation('function:' + name, '%s gives %r instead of %r for %s' % (name, getattr(particle, var), want, dict(zip(args, a))))
                return


TOL = {}


def round_trip(P, EOS, rng, rec, k):
    jit = bool(k % 2)
    rec.event('jit' if jit else 'scipy')
    base = P.JITParticle if jit else P.ScipyParticle
    for _ in range(6):
        S, T, pr, p = rng.uniform(0, 42), rng.uniform(-2, 35), float(choice(rng, [0., 0., rng.uniform(0, 6000)])), rng.uniform(0, 9000)
        cls = type('TripParticle', (base,), {'pressure': P.Variable('pressure', dtype=np.float32, initial=p), 'potemp': P.Variable('potemp', dtype=np.float64, initial=0.),
                                             'temp': P.Variable('temp', dtype=np.float64, initial=0.)})

        def once(T, kernel, var):
            fs = P.FieldSet.from_data({'U': 0., 'V': 0., 'psu_salinity': float(S), 'temperature': float(T), 'potemperature': float(T)},
                                                             {'lon': 0., 'lat': 0., 'depth': 0.})
            fs.add_constant('refpressure', pr)
            pset = P.ParticleSet(fs, pclass=cls, lon=5., lat=5., depth=100.)
            pset.execute(kernel, runtime=0, dt=0)
            return float([getattr(q, var) for q in pset][0])
        th = once(T, EOS.PtempFromTemp, 'potemp')
        back = once(th, EOS.TempFromPtemp, 'temp')
        rec.event('round_trip')
        if not abs(back - T) < 3e-4:
            rec.violation('round-trip', 'temperature %r becomes potential temperature %r and then temperature %r (S=%r, p=%r, pref=%r)' % (T, th, back, S, p, pr), mode=jit)
            return
    rec.state('round trip', jit)
