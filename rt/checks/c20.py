"""C20: draws of all functions, from Python and from interpreted and compiled kernels in turn, are recorded: sequences after seeding are compared between
modes and repetitions, distributions are tested, the generator beneath is made to return extreme values, and the displacements by the diffusion kernels are
compared with the schemes' updates for increments observed in a probe run with the same seed."""
import ctypes
import math
import os
import subprocess

import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, pclass, quiet_fieldset, workdir

RULE = ('a scenario is a script of draws (functions, parameters, in Python and in kernels of both modes, seeds), a sample of draws of one function with random '
        'parameters, a script with extreme raw numbers, or a diffusion kernel on a random field of diffusivities')
REQUIRED = {'drawn_python': 2000, 'drawn_jit': 300, 'drawn_scipy': 300, 'extreme': 3000, 'distribution': 10, 'sequences': 15, 'displaced': 300,
            'kernel:DiffusionUniformKh': 4, 'kernel:AdvectionDiffusionEM': 4, 'kernel:AdvectionDiffusionM1': 4, 'backward': 6, 'spherical': 4, 'multistep': 4}
ASSUMPTIONS = ['a distribution is rejected when the Kolmogorov distance of 20000 draws exceeds 3.6/sqrt(n) (probability 1e-11)',
               'particles of a set draw in the order of the set within one step']

FUNCS = ['random', 'uniform', 'randint', 'normalvariate', 'expovariate', 'vonmisesvariate']
STUB = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
static int every = 0, n = 0;
static unsigned long st = 1;
void rtstub_every(int k) { every = k; n = 0; st = 1; }
int rand(void) {
  static int (*real)(void) = 0;
  if (!real) real = (int (*)(void)) dlsym(RTLD_NEXT, "rand");
  int r = real();
  if (every) {
    st = st * 6364136223846793005UL + 1442695040888963407UL;
    unsigned k = (unsigned) (st >> 33);
    if (k % every == 0) {
      static const int ext[] = {0, RAND_MAX, 1, RAND_MAX - 1, RAND_MAX - 63, RAND_MAX / 2, RAND_MAX / 2 + 1};
      return ext[(k / every) % 7];
    }
  }
  return r;
}
'''


def env_for_worker(scratch, tag):
    so = os.path.join(scratch, 'randstub.so')
    if not os.path.exists(so):
        src = os.path.join(scratch, 'randstub%d.c' % os.getpid())
        with open(src, 'w') as f:
            f.write(STUB)
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', so + '.tmp', src, '-ldl'])
        os.replace(so + '.tmp', so)
    return {'LD_PRELOAD': so, 'RT_RANDSTUB': so}


def scenarios(tier, seed):
    n = 96 if tier == 'quick' else 2400
    kinds = ['sequence', 'diffusion', 'distribution', 'diffusion', 'extreme', 'diffusion', 'sequence', 'diffusion']
    return [{'seed': seed, 'k': k, 'kind': kinds[k % 8]} for k in range(n)]


def params(rng, fn):
    f32 = np.float32
    if fn == 'random':
        return []
    if fn == 'uniform':
        a = float(f32(rng.uniform(-10, 10)))
        return [a, float(f32(a + choice(rng, [1e-3, 1., 50., float(rng.uniform(0, 9))])))]
    if fn == 'randint':
        a = int(rng.integers(-50, 50))
        return [a, a + int(choice(rng, [1, 2, 3, 7, 100, 1000]))]
    if fn == 'normalvariate':
        return [float(f32(rng.uniform(-5, 5))), float(f32(choice(rng, [.01, 1., 30.])))]
    if fn == 'expovariate':
        return [float(f32(choice(rng, [.01, .5, 1., 7.])))]
    return [float(f32(rng.uniform(0, 2 * math.pi))), float(f32(choice(rng, [0., 1e-7, .01, .5, 2., 40., 1000.])))]


def in_range(fn, a, v):
    if not math.isfinite(v):
        return False
    e = 2 * np.finfo(np.float32).eps
    if fn == 'random':
        return 0. <= v <= 1.
    if fn == 'uniform':
        return a[0] - e * max(map(abs, a)) <= v <= a[1] + e * max(map(abs, a))
    if fn == 'randint':
        return v == int(v) and a[0] <= v < max(a[1], a[0] + 1)
    if fn == 'expovariate':
        return v >= 0.
    if fn == 'vonmisesvariate':
        return -1e-6 <= v <= 2 * math.pi + 1e-6
    return True


def cdf(fn, a):
    from scipy import stats
    if fn == 'random':
        return lambda x: np.clip(x, 0, 1)
    if fn == 'uniform':
        return lambda x: np.clip((x - a[0]) / (a[1] - a[0]), 0, 1)
    if fn == 'normalvariate':
        return stats.norm(a[0], a[1]).cdf
    if fn == 'expovariate':
        return stats.expon(scale=1 / a[0]).cdf
    mu, kappa = a

    if kappa < 1e-6:
        return lambda x: x / (2 * math.pi)
    vm = stats.vonmises(kappa)
    # scipy's cdf continues beyond (-pi, pi)
    return lambda x: vm.cdf(x - mu) - vm.cdf(0 - mu)


def run(scn, rec):
    import parcels as P
    rng = rng_for('C20', scn['seed'], scn['k'])
    with workdir():
        {'sequence': sequence, 'distribution': distribution, 'extreme': extreme, 'diffusion': diffusion}[scn['kind']](P, rec, rng, scn['k'])


def draw(P, fn, a):
    return float(getattr(P.rng, fn)(*a))


def sequence(P, rec, rng, k):
    """draws in Python and in kernels of one mode, by turns"""
    import parcels.rng as R
    npart = int(rng.integers(1, 6))
    blocks = []
    for i in range(int(rng.integers(2, 6))):
        calls = [(fn, params(rng, fn)) for fn in rng.choice(FUNCS, int(rng.integers(1, 5)))]
        blocks.append((choice(rng, ['python', 'kernel', 'kernel']), [(str(f), a) for f, a in calls]))
    if not any(w == 'kernel' for w, _ in blocks):
        blocks[0] = ('kernel', blocks[0][1])
    seed = int(choice(rng, [0, 1, -1, 2 ** 31 - 1, int(rng.integers(1, 10 ** 6))]))
    reseed = int(rng.integers(0, len(blocks))) if rng.random() < .3 else None
    names = ['d%d' % i for i in range(4)]

    def source(calls, name):
        src = 'def %s(particle, fieldset, time):\n' % name
        for i, (fn, a) in enumerate(calls):
            src += '    particle.d%d = ParcelsRandom.%s(%s)\n' % (i, fn, ', '.join('%r' % v for v in a))
        return src
    kernels = [mkkernel(source(c, 'Draw%d' % i), 'Draw%d' % i) if w == 'kernel' else None for i, (w, c) in enumerate(blocks)]

    def play(mode):
        """mode: jit, scipy or None for draws in Python in the order of the particles"""
        out = []
        ps = None
        if mode:
            ps = P.ParticleSet(quiet_fieldset(P), pclass=pclass(P, mode, **{n: (np.float64, 0.) for n in names}), lon=np.zeros(npart), lat=np.zeros(npart))
        R.seed(seed)
        for i, (where, calls) in enumerate(blocks):
            if reseed == i:
                R.seed(seed + 1)
            if where == 'python':
                out.append([[draw(P, fn, a) for fn, a in calls]])
                rec.event('drawn_python', len(calls))
            elif mode:
                ps.execute(ps.Kernel(kernels[i]), runtime=1., dt=1., verbose_progress=False)
                out.append([[float(getattr(p, n)) for n in names[:len(calls)]] for p in ps])
                rec.event('drawn_' + mode, len(calls) * npart)
            else:
                out.append([[draw(P, fn, a) for fn, a in calls] for _ in range(npart)])
        return out
    modes = ['jit', 'scipy', None, 'jit']
    outs = [play(m) for m in modes]
    rec.event('sequences')
    for (where, calls), o in zip(blocks, outs[0]):
        for row in o:
            for (fn, a), v in zip(calls, row):
                if not in_range(fn, a, v):
                    rec.violation('range', '%s%r drew %r' % (fn, tuple(a), v))
                    return
    for m, o in zip(modes[1:], outs[1:]):
        for i, (where, calls) in enumerate(blocks):
            x, y = np.array(outs[0][i]), np.array(o[i])
            if x.shape != y.shape or (np.abs(x - y) > 1e-6 * (1e-3 + np.abs(x))).any():
                rec.violation('sequence', 'after seed(%d), block %d (%s) of %r drew %r in JIT mode and %r in %s' % (
                    seed, i, where, [(w, [(f, a) for f, a in c]) for w, c in blocks], outs[0][i], o[i],
                    {'scipy': 'Scipy mode', None: 'Python', 'jit': 'JIT mode again'}[m]))
                return
    # another seed gives other numbers
    R.seed(seed)
    a = [R.random() for _ in range(5)]
    R.seed(seed + 12345)
    if [R.random() for _ in range(5)] == a:
        rec.violation('seed', 'seeds %d and %d give the same numbers' % (seed, seed + 12345))
        return
    rec.state('sequence', tuple(w for w, _ in blocks), tuple(f for _, c in blocks for f, _ in c))
    rec.setsample(kind='sequence', blocks=[[w, c] for w, c in blocks], seed=seed, particles=npart)


def distribution(P, rec, rng, k):
    import parcels.rng as R
    fn = FUNCS[(k // 8) % 6]
    a = params(rng, fn)
    n = 20000
    seed = int(rng.integers(1, 10 ** 6))
    where = choice(rng, ['python', 'jit'])
    R.seed(seed)
    if where == 'python':
        f = getattr(R, fn)
        v = np.array([f(*a) for _ in range(n)], dtype=float)
    else:
        ps = P.ParticleSet(quiet_fieldset(P), pclass=pclass(P, 'jit', d0=(np.float64, 0.)), lon=np.zeros(n), lat=np.zeros(n))
        src = 'def Draw(particle, fieldset, time):\n    particle.d0 = ParcelsRandom.%s(%s)\n' % (fn, ', '.join('%r' % q for q in a))
        ps.execute(ps.Kernel(mkkernel(src, 'Draw')), runtime=1., dt=1., verbose_progress=False)
        v = np.array([float(q) for q in ps.d0]) if hasattr(ps, 'd0') else np.array([float(p.d0) for p in ps])
    rec.event('drawn_' + where, n)
    rec.event('distribution')
    bad = [float(q) for q in v if not in_range(fn, a, float(q))]
    if bad:
        rec.violation('range', '%s%r drew %r (seed %d)' % (fn, tuple(a), bad[:5], seed))
        return
    if fn == 'randint':
        m = a[1] - a[0]
        e = n / m
        cnt = np.bincount((v - a[0]).astype(int), minlength=m)
        chi = float(((cnt - e) ** 2 / e).sum())
        # chi-square with m-1 degrees of freedom, far beyond
        limit = (m - 1) + 7.5 * math.sqrt(2 * max(m - 1, 1)) + 40
        ok, stat = (chi <= limit if m > 1 else len(set(v)) == 1), chi
    else:
        x = np.sort(v)
        c = cdf(fn, a)(x)
        i = np.arange(1, n + 1)
        stat = float(max((i / n - c).max(), (c - (i - 1) / n).max()))
        # float32 resolution of a narrow distribution
        ok = stat <= 3.6 / math.sqrt(n) + (2e-4 if fn == 'vonmisesvariate' else 0)
    if not ok:
        rec.violation('distribution', '%d draws of %s%r do not follow its distribution (%s %g; mean %g, std %g; seed %d)' % (
            n, fn, tuple(a), 'chi2' if fn == 'randint' else 'Kolmogorov distance', stat, v.mean(), v.std(), seed))
        return
    if fn != 'randint' or a[1] - a[0] > 2:
        s = v.std()
        r = float(((v[1:] - v.mean()) * (v[:-1] - v.mean())).mean() / s ** 2) if s > 0 else 0.
        if abs(r) > 7.5 / math.sqrt(n) and fn not in ('expovariate',):
            rec.violation('independence', '%d draws of %s%r have a serial correlation of %g (seed %d)' % (n, fn, tuple(a), r, seed))
            return
    rec.state('distribution', fn, tuple(a), where)
    rec.setsample(kind='distribution', function=fn, parameters=a, draws=n, statistic=stat)


def extreme(P, rec, rng, k):
    """the largest and smallest raw random numbers among ordinary ones"""
    import parcels.rng as R
    lib = ctypes.CDLL(os.environ['RT_RANDSTUB'])
    lib.rtstub_every(int(choice(rng, [2, 3, 4])))
    try:
        for _ in range(60):
            fn = choice(rng, FUNCS)
            a = params(rng, fn)
            f = getattr(R, fn)
            for _ in range(40):
                v = float(f(*a))
                rec.event('extreme')
                if not in_range(fn, a, v):
                    rec.violation('extreme', '%s%r drew %r when the numbers of the generator beneath are extreme' % (fn, tuple(a), v))
                    return
    finally:
        lib.rtstub_every(0)
    rec.state('extreme', k)


def bilinear(x, y, lon, lat, d):
    i = int(np.clip(np.searchsorted(lon, x, 'right') - 1, 0, len(lon) - 2))
    j = int(np.clip(np.searchsorted(lat, y, 'right') - 1, 0, len(lat) - 2))
    s, t = (x - lon[i]) / (lon[i + 1] - lon[i]), (y - lat[j]) / (lat[j + 1] - lat[j])
    return (1 - t) * ((1 - s) * d[j, i] + s * d[j, i + 1]) + t * ((1 - s) * d[j + 1, i] + s * d[j + 1, i + 1])


def diffusion(P, rec, rng, k):
    import parcels.rng as R
    name = ['DiffusionUniformKh', 'AdvectionDiffusionEM', 'AdvectionDiffusionM1'][(k // 2) % 3]
    mode = choice(rng, ['jit', 'scipy'])
    mesh = choice(rng, ['flat', 'flat', 'spherical'])
    sgn = choice(rng, [1, 1, -1])
    rec.event('kernel:' + name)
    if sgn < 0:
        rec.event('backward')
    if mesh == 'spherical':
        rec.event('spherical')
    m = 1852. * 60 if mesh == 'spherical' else 1.
    n = int(rng.integers(3, 15))
    dt = float(choice(rng, [.25, 1., 60., 3600., .1]))
    nx, ny = int(rng.integers(6, 10)), int(rng.integers(6, 10))
    x0, y0 = float(rng.uniform(-20, 20)), float(rng.uniform(-60, 50))
    lon = (x0 + np.arange(nx)).astype(np.float32)
    lat = (y0 + np.arange(ny)).astype(np.float32)
    # displacements of some hundredths of a cell
    size = .05 ** 2 / dt * m * m

    def field(scale, positive):
        d = rng.uniform(.3 if positive else -1., 1., (ny, nx)) * scale
        return d.astype(np.float32)
    U, V = field(.05 / dt * m, False), field(.05 / dt * m, False)
    uniform = name == 'DiffusionUniformKh'
    if uniform:
        kx, ky = [float(np.float32(rng.uniform(.1, 1.) * size)) for _ in range(2)]
    else:
        Kx, Ky = field(size, True), field(size, True)
    dres = float(choice(rng, [.01, .1, .5, 1e-3]))
    advect = uniform and rng.random() < .5
    kw = dict(mesh=mesh)
    dims = {'lon': lon, 'lat': lat}
    fs = P.FieldSet.from_data({'U': U, 'V': V}, dims, **kw)
    if uniform:
        fs.add_constant_field('Kh_zonal', kx, mesh=mesh)
        fs.add_constant_field('Kh_meridional', ky, mesh=mesh)
    else:
        fs.add_field(P.Field('Kh_zonal', Kx, lon=lon, lat=lat, mesh=mesh))
        fs.add_field(P.Field('Kh_meridional', Ky, lon=lon, lat=lat, mesh=mesh))
    fs.add_constant('dres', dres)
    # in the probe every increment is a displacement
    big = {'lon': np.array([-1e3, 1e3], dtype=np.float32), 'lat': np.array([-1e3, 1e3], dtype=np.float32)}
    probe = P.FieldSet.from_data({'U': np.zeros((2, 2), np.float32), 'V': np.zeros((2, 2), np.float32)}, big, mesh='flat')
    probe.add_constant_field('Kh_zonal', .5, mesh='flat')
    probe.add_constant_field('Kh_meridional', .5, mesh='flat')
    probe.add_constant('dres', .01)
    X = rng.uniform(lon[2] + .2, lon[-3] - .2, n)
    Y = rng.uniform(lat[2] + .2, lat[-3] - .2, n)
    nsteps = int(choice(rng, [1, 1, 2, 3]))
    if nsteps > 1:
        rec.event('multistep')
    seed = int(rng.integers(0, 10 ** 6))
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    pc = type('MonP', (base,), {'tag': P.Variable('tag', dtype=np.int32, initial=0)})
    kern = getattr(P, name)

    def steps(fieldset, x, y, parts):
        ps = P.ParticleSet(fieldset, pclass=pc, lon=x, lat=y, tag=np.arange(n), lonlatdepth_dtype=np.float64)
        kk = ps.Kernel(parts[0])
        for q in parts[1:]:
            kk = kk + ps.Kernel(q)
        R.seed(seed)
        out = [(np.array(x, dtype=float), np.array(y, dtype=float))]
        for _ in range(nsteps):
            ps.execute(kk, runtime=dt, dt=sgn * dt, verbose_progress=False)
            o = {int(p.tag): (float(p.lon), float(p.lat)) for p in ps}
            out.append((np.array([o[i][0] for i in range(n)]), np.array([o[i][1] for i in range(n)])))
        return out
    pr = steps(probe, np.zeros(n), np.zeros(n), [kern])
    parts = [kern]
    if advect:
        parts = [P.AdvectionEE, kern] if rng.random() < .5 else [kern, P.AdvectionEE]
    got = steps(fs, X, Y, parts)

    def conv(y):
        return m * math.cos(y * math.pi / 180) if mesh == 'spherical' else 1.

    def vel(x, y):
        return bilinear(x, y, lon, lat, U) / conv(y), bilinear(x, y, lon, lat, V) / m

    def K(which, x, y):
        if uniform:
            v = kx if which == 0 else ky
        else:
            v = bilinear(x, y, lon, lat, Kx if which == 0 else Ky)
        return v / conv(y) ** 2 if which == 0 else v / m ** 2
    det = dict(kernel=name, mode=mode, mesh=mesh, dt=sgn * dt, dres=dres, parts=[q.__name__ for q in parts], seed=seed)
    allw = []
    for s in range(nsteps):
        dWx, dWy = pr[s + 1][0] - pr[s][0], pr[s + 1][1] - pr[s][1]
        allw += list(dWx / math.sqrt(dt)) + list(dWy / math.sqrt(dt))
        for i in range(n):
            x, y = got[s][0][i], got[s][1][i]
            w = [float(dWx[i]), float(dWy[i])]
            h = sgn * dt
            for q in parts:
                if q is P.AdvectionEE:
                    u, v = vel(x, y)
                    x, y = x + u * h, y + v * h
                    continue
                b = [math.sqrt(2 * K(0, x, y)), math.sqrt(2 * K(1, x, y))]
                if uniform:
                    x, y = x + b[0] * w[0], y + b[1] * w[1]
                    continue
                dK = [(K(0, x + dres, y) - K(0, x - dres, y)) / (2 * dres), (K(1, x, y + dres) - K(1, x, y - dres)) / (2 * dres)]
                a = list(vel(x, y))
                if name == 'AdvectionDiffusionEM':
                    x, y = [p0 + (a[c] + dK[c]) * h + b[c] * w[c] for c, p0 in enumerate((x, y))]
                else:
                    x, y = [p0 + a[c] * h + .5 * dK[c] * (w[c] ** 2 + h) + b[c] * w[c] for c, p0 in enumerate((x, y))]
            rec.event('displaced')
            # single precision of the sampled fields, amplified in their differences
            tol = 2e-5 + 4e-6 / dres * size / m ** 2 * dt
            gx, gy = got[s + 1][0][i], got[s + 1][1][i]
            if not (abs(gx - x) <= tol and abs(gy - y) <= tol):
                rec.violation('displacement', 'particle %d moved by (%g, %g) in step %d, %s with increments (%g, %g) by (%g, %g)' % (
                    i, gx - got[s][0][i], gy - got[s][1][i], s, name, w[0], w[1], x - got[s][0][i], y - got[s][1][i]), **det)
                return
    # increments: distinct, of zero mean and variance |dt|
    aw = np.array(allw)
    nn = len(aw)
    if nn > 3 and len(np.unique(np.round(aw, 5))) < .8 * nn:
        rec.violation('increments', 'increments are repeated: %r' % (aw[:8].tolist(),), **det)
        return
    if abs(aw.mean()) > 7 / math.sqrt(nn) or not (.005 < (aw ** 2).mean() < 1 + 12 * math.sqrt(2. / nn) + 40. / nn) or abs(aw).max() > 7.5:
        rec.violation('increments', 'increments over sqrt(|dt|) have mean %g and mean square %g' % (aw.mean(), (aw ** 2).mean()), increments=aw[:20].tolist(), **det)
        return
    rec.state('diffusion', name, mode, mesh, sgn, advect, nsteps)
    rec.setsample(displacements=nn // 2, **det)
