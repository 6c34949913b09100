"""C01: every compiled kernel runs under AddressSanitizer + UndefinedBehaviorSanitizer while positions, grids, chunks and times turn hostile.

The C code parcels generates (and its random number library) is compiled by gcc with address, undefined and
float-cast-overflow sanitizers, the interpreter runs with the ASan allocator (every numpy array has red zones) and
any report kills the worker, which the driver turns into a violation with the report.  Workloads: one kernel sampling
every field and velocity of random A/B/C field sets (length-1 dimensions, all interpolation methods and indexing
conventions, whole arrays or dask chunks of any size) at nodes, one float beside nodes, far outside, infinite and NaN
positions and times, in arbitrary visiting order; the built-in kernels let loose from such positions; the run-time
loading programs of C13 (windows, chunks, periods, two kernels in turn); particles added, deleted, re-released and
failing in the middle of runs; and the random number generators with extreme arguments.

Reads of uninitialised memory do not trap, so part of the samples are taken twice: with uninitialised C variables and
fresh (np.empty) arrays filled with zeros and with a poison pattern.  Both runs must agree bit for bit.
"""
import contextlib
import ctypes
import os
import subprocess

import numpy as np

from rt import fieldgen as fg
from rt.core import Inconclusive, Rec, rng_for
from rt.gen import choice, mkkernel, pclass, workdir

RULE = 'No sanitizer report while compiled kernels run on hostile positions, grids, chunk layouts and time windows; two poison patterns give identical results.'
REQUIRED = {'canary:asan': 1, 'canary:ubsan': 1, 'canary:poison': 1, 'query:hostile': 3000, 'query:inside': 1000, 'outcome:ok': 1000,
            'outcome:oob': 1000, 'outcome:surface': 50, 'outcome:time': 20, 'chunked': 6, 'chunk:loaded': 100, 'chunk1': 2, 'populate_indices': 10,
            'poison:compared': 200, 'builtin': 10, 'window:moved': 20, 'history:recovery_calls': 10, 'history:releases': 3, 'rng': 200}
ASSUMPTIONS = ['gcc\'s sanitizers see accesses outside an allocation, not a wrong element inside it (C02, C03, C05, C06 and C13 check values).',
               'Integers used as indices by user kernels do not occur (kernels cannot index arrays).']
SCENARIO_TIMEOUT = 120
SAN = ('-fsanitize=address,bounds,float-cast-overflow,signed-integer-overflow,shift,integer-divide-by-zero,vla-bound,bool,enum,unreachable,return '
       '-fno-sanitize-recover=all -g1')


def _lib(n):
    return subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip()


def env_for_worker(scratch, tag):
    return {'RT_CFLAGS': SAN, 'LD_PRELOAD': _lib('libasan.so') + ' ' + _lib('libubsan.so'), 'PYTHONMALLOC': 'malloc', 'RT_CC': 'gcc',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190',
            'UBSAN_OPTIONS': 'print_stacktrace=1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}


def scenarios(tier, seed):
    n = 64 if tier == 'quick' else 900
    combos = [('A', 'nemo', k) for k in ('rz', 'rs', 'cz', 'cs', 'rz', 'rz', 'cz')] + [('C', 'nemo', k) for k in ('rz', 'cz', 'rs', 'cs')] + \
        [('C', 'mitgcm', 'rz')] + [('B', i, k) for i, k in (('nemo', 'rz'), ('mom5', 'rz'), ('pop', 'rz'), ('mom5', 'cz'), ('pop', 'cz'))]
    out = []
    for k in range(n):
        st, ind, kind = combos[k % len(combos)]
        out.append({'part': 'grid', 'seed': [seed, k], 'stagger': st, 'indexing': ind, 'kind': kind, 'layout': ['memory', 'dask', 'poison'][(k // 2) % 3]})
    for k in range(n // 4):
        out.append({'part': 'builtin', 'seed': [seed, k], 'which': k})
    for k in range(n // 6):
        out.append({'part': 'program', 'seed': [seed, 1000 + k], 'mode': 'jit', 'nvariants': 2, 'stag': ['A', 'A', 'C', 'B'][k % 4],
                    'timemode': ['inside', 'periodic', 'extrap', 'inside'][(k // 4) % 4]})
    for k in range(n // 8):
        out.append({'part': 'history', 'seed': [seed, k], 'check': ['c08', 'c10'][k % 2]})
    for k in range(max(2, n // 32)):
        out.append({'part': 'rng', 'seed': [seed, k]})
    return out


# ---------------------------------------------------------------------------------------------------- canaries

_CANARY = [False]
CANARY_C = r'''
#include <math.h>
#include <stdlib.h>
double over(double *a, int n) { return a[n]; }
int conv(double x) { return (int) x; }
double uninit(int k) { double v[8]; if (k > 100) v[3] = 1; return v[3]; }
'''


def compile_so(src, flags):
    d = os.path.abspath('canary%d' % len(os.listdir('.')))
    with open(d + '.c', 'w') as f:
        f.write(src)
    e = dict(os.environ, RT_CFLAGS=flags)
    subprocess.run([os.environ['CC'], '-Wall', '-fPIC', '-shared', '-std=gnu11', '-O3', '-o', d + '.so', d + '.c'], check=True, env=e,
                   capture_output=True)
    return ctypes.CDLL(d + '.so')


def dies(f):
    pid = os.fork()
    if pid == 0:
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        f()
        os._exit(0)
    return os.waitpid(pid, 0)[1] != 0


def canaries(rec):
    """The sanitizers see errors in libraries compiled and loaded as the kernels are."""
    lib = compile_so(CANARY_C, SAN)
    lib.over.restype = lib.uninit.restype = ctypes.c_double
    a = np.zeros(5)
    if not dies(lambda: lib.over(a.ctypes.data_as(ctypes.c_void_p), ctypes.c_int(5))):
        raise Inconclusive('AddressSanitizer is not active')
    rec.event('canary:asan')
    if not dies(lambda: lib.conv(ctypes.c_double(float('nan')))):
        raise Inconclusive('UBSan is not active')
    rec.event('canary:ubsan')
    v = []
    for p in POISONS:
        lib = compile_so(CANARY_C, p[0])
        lib.uninit.restype = ctypes.c_double
        v.append(np.float64(lib.uninit(3)).tobytes())
    if v[0] == v[1]:
        raise Inconclusive('uninitialised variables are not poisoned')
    rec.event('canary:poison')


POISONS = [(SAN + ' -ftrivial-auto-var-init=zero', 0x00), (SAN + ' -ftrivial-auto-var-init=pattern', 0xBE)]


@contextlib.contextmanager
def poisoned(k):
    """Uninitialised variables and np.empty arrays hold zeros (0) or a pattern (1)."""
    flags, byte = POISONS[k]
    old, oe = os.environ['RT_CFLAGS'], np.empty
    os.environ['RT_CFLAGS'] = flags

    def empty(*a, **kw):
        r = oe(*a, **kw)
        if r.dtype.kind in 'iuf' and r.size and r.flags.c_contiguous:
            r.view(np.uint8).reshape(-1)[...] = byte if r.dtype.kind != 'i' or byte == 0 else 0x7E
        return r
    np.empty = empty
    try:
        yield
    finally:
        np.empty = oe
        os.environ['RT_CFLAGS'] = old


# ------------------------------------------------------------------------------------------------ hostile values

def beside(rng, v):
    """A value, or one of its float32/float64 neighbours."""
    u = rng.random()
    d = np.float32(np.inf if rng.random() < .5 else -np.inf)
    if u < .3:
        return float(v)
    if u < .6:
        return float(np.nextafter(np.float32(v), d))
    if u < .8:
        return float(np.nextafter(float(v), float(d)))
    return float(v + choice(rng, [-1e-6, 1e-6, -1e-3, 1e-3]) * max(1., abs(v)))


FAR = [np.inf, -np.inf, np.nan, 1e30, -1e30, 3e38, 1e9, -1e9, 361., -361., 540., 1e5, 0., -0.]


def hostile(rng, nodes):
    if rng.random() < .7:
        return beside(rng, choice(rng, list(nodes)))
    return float(choice(rng, FAR))


def queries(rng, r, n, rec):
    """n queries (t, z, y, x)."""
    from rt.checks import c06
    lon, lat = r.lon.ravel(), r.lat.ravel()
    dep = [0.] if r.depth is None else r.depth.ravel()
    ext = [lon.min(), lon.max(), lon[0], lon[-1]]
    eyt = [lat.min(), lat.max(), lat[0], lat[-1]]
    ez = [np.min(dep), np.max(dep), np.ravel(dep)[0], np.ravel(dep)[-1]]
    T = list(r.time) + [r.time[0] - 1, r.time[-1] + 1]
    if r.s['period']:
        T += [r.time[0] + r.s['period'] * k for k in (-1, 1, 2)]
    good = c06.mixed_queries(rng, r, n)
    out = []
    for k in range(n):
        t, z, y, x = good[k][0]
        u = rng.random()
        if u < .7:
            rec.event('query:hostile')
            if rng.random() < .5:
                x = hostile(rng, ext if rng.random() < .6 else lon)
            if rng.random() < .5:
                y = hostile(rng, eyt if rng.random() < .6 else lat)
            if rng.random() < .4:
                z = hostile(rng, ez if rng.random() < .6 else dep)
            if rng.random() < .4:
                t = hostile(rng, T)
                if not abs(t) < 1e9:
                    t = float(choice(rng, [1e9, -1e9, 1e30, np.nan, np.inf]))
            if r.curv and rng.random() < .4:
                j, i = int(rng.integers(r.y)), int(rng.integers(r.x))
                x, y = beside(rng, r.lon[j, i]), beside(rng, r.lat[j, i])
        else:
            rec.event('query:inside')
        out.append((t, z, y, x))
    return out


LOC = '[particle.qt, particle.qz, particle.qy, particle.qx]'


def select_kernel(names):
    src = 'def Select(particle, fieldset, time):\n'
    for k, n in enumerate(names):
        src += '    if particle.q == %d:\n' % k
        if n in ('UV', 'UVW'):
            v = ['ta', 'tb', 'tc'][:len(n)]
            src += '        (%s) = fieldset.%s%s\n' % (', '.join(v), n, LOC)
            src += ''.join('        particle.%s = %s\n' % (w[1], w) for w in v)
        else:
            src += '        particle.a = fieldset.%s%s\n' % (n, LOC)
    return mkkernel(src + '    particle.n += 1\n', 'Select')


VARS = dict(qx=(np.float64, 0.), qy=(np.float64, 0.), qz=(np.float64, 0.), qt=(np.float64, 0.), a=(np.float32, 0.), b=(np.float32, 0.),
            c=(np.float32, 0.), n=(np.int32, 0), err=(np.int32, 0), q=(np.int32, 0))


def recovery(P, rec=None):
    EC = P.ErrorCode

    def handler(code):
        def recover(particle, fieldset, time):
            particle.err = code
            particle.q = -1
        return recover
    return {EC.ErrorOutOfBounds: handler(1), EC.ErrorThroughSurface: handler(2), EC.ErrorTimeExtrapolation: handler(3),
            EC.ErrorInterpolation: handler(4), EC.Error: handler(5)}


OUT = ['ok', 'oob', 'surface', 'time', 'sampling', 'error']


def sample_all(P, fs, names, rows, which, rec, count=True):
    """Run every row of queries on the same particles; list of (outcome, a, b, c)."""
    n = len(rows[0])
    ps = P.ParticleSet(fs, pclass=pclass(P, 'jit', **VARS), lon=np.zeros(n), lat=np.zeros(n), lonlatdepth_dtype=np.float64, time=np.zeros(n))
    K = ps.Kernel(select_kernel(names))
    R = recovery(P)
    res = []
    curv = [g for g in fs.gridset.grids if np.ndim(g.lon) == 2]
    for k, (row, q) in enumerate(zip(rows, which)):
        d = ps.collection.data
        if curv and k % 5 == 0:
            # first guesses of the cells from the nodes nearest to the particles, here on every side of the grid
            g = curv[k % len(curv)]
            j, i = (np.arange(n) * 7 + k) % g.lon.shape[0], (np.arange(n) * 5) % g.lon.shape[1]
            j[::2], i[1::2] = g.lon.shape[0] - 1, g.lon.shape[1] - 1
            d['lon'][:], d['lat'][:] = g.lon[j, i], g.lat[j, i]
            ps.populate_indices()
            if count:
                rec.event('populate_indices')
        for k, v in enumerate(['qt', 'qz', 'qy', 'qx']):
            d[v][:] = [w[k] for w in row]
        d['q'][:] = q
        d['err'][:] = 0
        for v in 'abc':
            d[v][:] = -7.
        ps.execute(K, runtime=0., dt=0., recovery=R, verbose_progress=False)
        for k in range(n):
            res.append((OUT[int(d['err'][k])], float(d['a'][k]), float(d['b'][k]), float(d['c'][k])))
            if count:
                rec.event('outcome:' + res[-1][0])
    return res


def chunked(rng, s, rec):
    import dask.array as da

    def wrap(d):
        ch = []
        for ax, m in enumerate(d.shape):
            lead = ax < d.ndim - 3 or (d.ndim == 3 and ax == 0 and s['shape'][1] == 1 and s['time'] is not None)
            if lead or rng.random() < .15:
                ch.append((m,))
                continue
            c, left = [], m
            while left:
                k = int(min(left, choice(rng, [1, 1, 2, 3, 5])))
                c.append(k)
                left -= k
            ch.append(tuple(c))
            if max(c) == 1 and m > 1:
                rec.event('chunk1')
        return da.from_array(d, chunks=tuple(ch))
    return wrap


def grid(P, rng, scn, rec):
    kw = {} if scn['stagger'] == 'A' else dict(len1=False, indexing=scn['indexing'])
    if scn['stagger'] == 'B':
        kw['zdim'] = int(rng.integers(2, 5))
    s = fg.make_spec(rng, scn['stagger'], kind=scn['kind'], **kw)
    if scn['stagger'] == 'A' and scn['kind'] == 'rz' and rng.random() < .3:
        s = fg.make_spec(rng, 'A', kind='rz', xdim=int(rng.integers(1, 3)), ydim=int(rng.integers(1, 3)))
    r = fg.Ref(s)
    names = [m for m in s['fields'] if m not in 'UVW'] + [n for n in 'UVW' if n in s['fields'] and s['stagger'] == 'A'] + ['UV'] + \
        (['UVW'] if 'W' in s['fields'] else [])
    meths = {s['fields'][c]['method'] for c in 'UVW' if c in s['fields']}
    n, nrow = 24, 14
    rows = [queries(rng, r, n, rec) for _ in range(nrow)]
    which = [rng.integers(0, len(names), n) for _ in range(nrow)]
    rec.state(s['kind'], s['mesh'], s.get('style'), tuple(s['shape']), s['stagger'], s['indexing'], s['timemode'], tuple(sorted(meths)), scn['layout'])
    if scn['layout'] == 'poison':
        res = []
        for k in range(2):
            with poisoned(k):
                res.append(sample_all(P, fg.build(P, s), names, rows, which, rec, k == 0))
        for k, (x, y) in enumerate(zip(*res)):
            rec.event('poison:compared')
            if x[0] != y[0] or np.array(x[1:]).tobytes() != np.array(y[1:]).tobytes():
                if x[0] == y[0] and all(a == b or (a != a and b != b) for a, b in zip(x[1:], y[1:])):
                    continue
                rec.violation('uninitialised', 'sample %s of %s gives %s with zeroed and %s with poisoned memory' % (
                    rows[k // n][k % n], names[which[k // n][k % n]], x, y), shape=s['shape'], stagger=s['stagger'], kind=s['kind'], indexing=s['indexing'])
                return
        return
    wrap = None
    if scn['layout'] == 'dask' and 1 not in (r.x, r.y):
        rec.event('chunked')
        wrap = chunked(rng, s, rec)
    fs = fg.build(P, s, wrap)
    sample_all(P, fs, names, rows, which, rec)
    for g in fs.gridset.grids:
        lc = np.array(g.load_chunk)
        rec.event('chunk:loaded', int((lc >= 2).sum()) if lc.size > 1 else 0)
    rec.setsample(names=names, shape=s['shape'], first=rows[0][:3])


# ------------------------------------------------------------------------------------------- built-in kernels

def builtin(P, rng, scn, rec):
    k = scn['which']
    nx, ny, nz, nt = int(rng.integers(2, 7)), int(rng.integers(2, 7)), int(rng.integers(2, 5)), int(rng.integers(1, 4))
    mesh = ['flat', 'spherical'][int(rng.integers(2))]
    lon, lat = np.arange(nx, dtype=np.float32), np.arange(ny, dtype=np.float32)
    dep, t = np.arange(nz, dtype=np.float32) * 10, np.arange(nt) * 600.
    sc = 1e-3 if mesh == 'flat' else 100.

    def f(name, a, b, **kw):
        return P.Field(name, rng.uniform(a, b, (nt, nz, ny, nx)).astype(np.float32), lon=lon, lat=lat, depth=dep, time=t, mesh=mesh,
                       allow_time_extrapolation=True, **kw)
    flds = {n: f(n, -sc, sc) for n in 'UV'}
    fs = P.FieldSet(flds['U'], flds['V'], fields={'W': f('W', -1e-2, 1e-2)})
    names = ['AdvectionRK4', 'AdvectionEE', 'AdvectionRK45', 'AdvectionRK4_3D', 'DiffusionUniformKh', 'AdvectionDiffusionM1',
             'AdvectionDiffusionEM', 'PolyTEOS10_bsq', 'UNESCODensity', 'PtempFromTemp', 'PressureFromLatDepth', 'TempFromPtemp',
             'AdiabticTemperatureGradient']
    name = names[k % len(names)]
    extra = {}
    if 'Diffusion' in name:
        for n in ('Kh_zonal', 'Kh_meridional'):
            fs.add_field(f(n, 0., sc * sc * 10))
        fs.add_constant('dres', .01)
    if name[:3] not in ('Adv', 'Dif'):
        for n, a, b in (('cons_temperature', -2, 30), ('abs_salinity', 0, 40), ('psu_salinity', 0, 40), ('cons_pressure', 0, 100),
                        ('temperature', -2, 30), ('potemperature', -2, 30)):
            fs.add_field(f(n, a, b))
        fs.add_constant('refpressure', 0.)
        extra = {v: (np.float32, 1.) for v in ('density', 'potemp', 'temp', 'pressure', 'S', 'T', 'adtg')}
    n = 20
    pc = pclass(P, 'jit', kicks=(np.int32, 0), kx=(np.float64, 0.), ky=(np.float64, 0.), kz=(np.float64, 0.), **extra)
    x, y, z = rng.uniform(0, nx - 1, n), rng.uniform(0, ny - 1, n), rng.uniform(0, 10 * (nz - 1), n)
    ps = P.ParticleSet(fs, pclass=pc, lon=x, lat=y, depth=z, lonlatdepth_dtype=choice(rng, [np.float32, np.float64]), time=np.zeros(n))
    import parcels.kernels.EOSseawaterproperties as EOS
    import parcels.kernels.TEOSseawaterdensity as TEOS
    kern = [getattr(m, name) for m in (P, EOS, TEOS) if hasattr(m, name)]
    if not kern:
        raise Inconclusive('kernel %s is gone' % name)
    kern = kern[0]

    def kick(particle, fieldset, time):
        particle.lon += particle.kx
        particle.lat += particle.ky
        particle.depth += particle.kz
        particle.kx = 0.
        particle.ky = 0.
        particle.kz = 0.
    K = ps.Kernel(kick) + ps.Kernel(kern)

    def gone(particle, fieldset, time):
        particle.kicks += 1
        if particle.kicks > 3:
            particle.delete()
        else:
            particle.lon, particle.lat, particle.depth = .5, .5, 5.
    EC = P.ErrorCode
    R = {c: gone for c in (EC.ErrorOutOfBounds, EC.ErrorThroughSurface, EC.ErrorTimeExtrapolation, EC.ErrorInterpolation, EC.Error)}
    sg = int(choice(rng, [-1, 1]))
    for seg in range(3):
        m = len(ps)
        if not m:
            break
        d = ps.collection.data
        for v in ('kx', 'ky', 'kz'):
            d[v][:] = [float(choice(rng, FAR + [float(v2) for v2 in range(-5, 6)])) if rng.random() < .4 else 0. for _ in range(m)]
        rec.event('builtin')
        ps.execute(K, runtime=1800., dt=sg * 600., recovery=R, verbose_progress=False)
        rec.event('builtin:particles', len(ps))
    rec.state('builtin', name, mesh, nt, nx, ny, nz)


RNG = '''def Rand(particle, fieldset, time):
    particle.a = ParcelsRandom.random()
    particle.b = ParcelsRandom.uniform(particle.lo, particle.hi)
    particle.i = ParcelsRandom.randint(particle.il, particle.ih)
    particle.c = ParcelsRandom.normalvariate(particle.lo, particle.hi)
    particle.d = ParcelsRandom.expovariate(particle.lo)
    particle.e = ParcelsRandom.vonmisesvariate(particle.lo, particle.hi)
'''


def rng_part(P, rng, rec):
    from rt.gen import quiet_fieldset
    import parcels.rng as PR
    fl = [0., -0., 1., -1., 1e-30, 1e30, -1e30, 3e38, np.inf, -np.inf, np.nan, 1e-6, 2.5]
    ints = [0, 1, -1, 5, 100, -100, 2 ** 30, -2 ** 30, 2 ** 31 - 1]
    for s in (0, 1, -1, 2 ** 31 - 1, -2 ** 31, int(rng.integers(1 << 30))):
        PR.seed(s)
    n = 40
    fs = quiet_fieldset(P)
    pc = pclass(P, 'jit', a=(np.float32, 0.), b=(np.float32, 0.), c=(np.float32, 0.), d=(np.float32, 0.), e=(np.float32, 0.), i=(np.int32, 0),
                lo=(np.float32, 0.), hi=(np.float32, 0.), il=(np.int32, 0), ih=(np.int32, 0))
    ps = P.ParticleSet(fs, pclass=pc, lon=np.zeros(n), lat=np.zeros(n))
    K = ps.Kernel(mkkernel(RNG, 'Rand'))
    for _ in range(4):
        d = ps.collection.data
        for k in range(n):
            a, b = choice(rng, fl), choice(rng, fl)
            i, j = sorted((choice(rng, ints), choice(rng, ints)))
            if abs(i - j) >= 2 ** 31:
                i = 0
            d['lo'][k], d['hi'][k], d['il'][k], d['ih'][k] = a, b, i, j
            rec.event('rng')
            if i < j and not i <= PR.randint(i, j) < j:
                rec.violation('randint', 'randint(%d, %d) is out of range' % (i, j))
            PR.randint(i, j), PR.uniform(a, b), PR.normalvariate(a, b), PR.expovariate(a), PR.vonmisesvariate(a, b)
        ps.execute(K, runtime=2., dt=1., verbose_progress=False)
        d = ps.collection.data
        bad = ~((d['a'] >= 0) & (d['a'] <= 1)) | ((d['il'] < d['ih']) & ~((d['i'] >= d['il']) & (d['i'] < d['ih'])))
        if bad.any():
            rec.violation('range', 'random numbers out of range', a=d['a'][bad], i=d['i'][bad], lo=d['il'][bad], hi=d['ih'][bad])


def run(scn, rec):
    import parcels as P
    rng = rng_for('c01', scn['part'], *scn['seed'])
    if not _CANARY[0]:
        with workdir():
            canaries(rec)
        _CANARY[0] = True
    rec.event('part:' + scn['part'])
    with workdir():
        if scn['part'] == 'grid':
            grid(P, rng, scn, rec)
        elif scn['part'] == 'builtin':
            builtin(P, rng, scn, rec)
        elif scn['part'] == 'rng':
            rng_part(P, rng, rec)
        elif scn['part'] == 'program':
            # only what the sanitizers say counts here
            from rt.checks import c13
            sub = Rec()
            try:
                c13.run(scn, sub)
            except Exception as e:
                rec.event('program:' + type(e).__name__)
            for k, v in sub.counts.items():
                rec.event(k, v)
            rec.states |= sub.states
        else:
            import importlib
            mod = importlib.import_module('rt.checks.' + scn['check'])
            sub, k, done = Rec(), 0, 0
            while done < 3 and k < 40:
                k += 1
                s = {'seed': scn['seed'][0], 'k': scn['seed'][1] * 1000 + k}
                if choice(rng_for(scn['check'].upper(), s['seed'], s['k']), ['jit', 'scipy']) != 'jit':
                    continue
                done += 1
                try:
                    mod.run(s, sub)
                except Exception as e:
                    rec.event('history:' + type(e).__name__)
            for k, v in sub.counts.items():
                rec.event('history:' + k, v)
