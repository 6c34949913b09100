"""C14: random kernels compiled and run, compared with an instrumented interpretation of the same Python source that carries
rounding bounds and shares the random stream; untranslatable constructs have to be rejected or agree."""
import numpy as np

from rt import kgen
from rt.core import rng_for
from rt.gen import choice, mkkernel, workdir

RULE = ('a scenario is a random kernel (arithmetic, comparisons, boolean logic, nested if/elif/else, while, break, tuple and '
        'multiple assignments, locals, arrays, constants, variables of four types, random draws, single/vector/summed/nested '
        'field samples anywhere) run compiled, sometimes also interpreted, on several particles for some steps; non-trivial = '
        'distinct kernel for which at least one particle was compared with the interpretation of its source')
REQUIRED = {'particles_compared': 300, 'values_compared': 2500, 'accepted_kernels': 100, 'random_kernels': 15, 'sample_in_test': 15,
            'rejected_constructs': 10, 'deleted_particles': 5, 'outside_particles': 3}
ASSUMPTIONS = ['values are compared within a bound on the rounding difference between C and Python arithmetic (constants, field '
               'values and 32-bit variables take part in 32-bit arithmetic in C)',
               'a particle is not judged after an operation outside its mathematical domain, overflow, or a decision that is '
               'closer than the rounding bound']

# statements outside the documented language: rejecting them is right, accepting them is right only with Python's meaning
EXOTIC = [
    'q = [1., 2.]\nif particle.a > -1000:\n    q = [3., particle.a]\nparticle.c = q[0] + q[1]',
    'q = [1., 2.]\nif particle.a > 0:\n    q = [q[1], q[0]]\nelse:\n    q = [particle.b, 7.]\nparticle.c = q[0] - q[1]',
    'q = [1., 2.]\nk = 0\nwhile k < 3:\n    q = [q[1], q[0] + q[1]]\n    k += 1\nparticle.c = q[1]',
    'q = [1., 2.]\nparticle.b = q[0]\nq = [3., 4., 5.]\nparticle.c = q[0] + 10 * q[2]',
    'q = [[1., 2., 3.], [4., 5., particle.a]]\nparticle.c = q[1][0] + 10 * q[0][2] + 100 * q[1][2]\nq[0][1] = 8\nparticle.b = q[0][1] + q[0][0]',
    'q = [[1., 2.], [3., 4.]]\nif particle.a > 0:\n    q = [[5., 6.], [7., 8.]]\nparticle.c = q[1][0]',
    'particle.c = particle.i // 2', 'particle.c = particle.a // 2', 'particle.i //= 2', 'if 1 < particle.b < 3:\n    particle.c = 1',
    'if 1 < particle.b < 3 < particle.a:\n    particle.c = 1', 'particle.c = 5 if particle.a > 0 else 7', 'particle.c = math.log(8., 2)',
    'particle.c = math.tau', 'particle.c = min(particle.a, math.inf)', 'particle.c = math.degrees(particle.a)',
    'particle.c = math.radians(particle.a)', 'particle.c = int(particle.a)', 'particle.c = float(particle.i)',
    'particle.c = bool(particle.a)', 'particle.c = min(particle.a, particle.b, 1)', 'particle.c = max(particle.a, particle.b, particle.f)',
    'particle.c = round(particle.a, 1)', 'particle.c = particle.i & 1', 'particle.c = particle.i | 4', 'particle.c = particle.j << 1',
    'particle.c = particle.i ^ 2', 'particle.c = ~particle.i', 'for k in range(3):\n    particle.c += k',
    'for k in [1., 2.]:\n    particle.c += k', 'q = 0\nwhile q < 5:\n    q += 1\n    if q == 3:\n        continue\n    particle.c += q',
    'q = 0\nwhile q < 2:\n    q += 1\nelse:\n    particle.c = 9', 'assert particle.a > -1000\nparticle.c = 1', 'q: float = 3\nparticle.c = q',
    'if (q := particle.a) > 1:\n    particle.c = q', 'particle.c = fieldset.UV[particle][0]', 'particle.c = fieldset.UV[particle][1]',
    'particle.c = (particle.a, particle.b)', 'particle.c = fieldset.UV[particle]', 'particle.c = particle.a, 1', 'particle.c = "abc"',
    'particle.c = None', 'particle.c = 1j', 'particle.c = 2 * 1j', 'if particle.i in (1, 3):\n    particle.c = 1',
    'if particle.i not in [1, 3]:\n    particle.c = 1', 'if particle.a is None:\n    particle.c = 1',
    'try:\n    particle.c = 1\nexcept Exception:\n    particle.c = 2', 'q = lambda z: z + 1\nparticle.c = q(1)',
    'def q(z):\n    return z + 1\nparticle.c = q(1)', 'particle.c = [1, 2, 3][1]', 'q = [k for k in (1, 2)]\nparticle.c = q[1]',
    'q = {1: 2}\nparticle.c = q[1]', 'particle.c = 2 * fieldset.UV[particle]', 'q, w = particle.a\nparticle.c = q',
    '(q, w), z = (1, 2), 3\nparticle.c = w', '[q, w] = 1, 2\nparticle.c = w', 'q, *w = 1, 2, 3\nparticle.c = q',
    'q = w = [1., 2.]\nw[0] = 5.\nparticle.c = q[0]', 'particle.c = sum([1, 2])', 'particle.c = len([1, 2])', 'particle.c = divmod(7, 2)[0]',
    'particle.c = math.factorial(4)', 'particle.c = math.gcd(12, 8)', 'particle.c = math.comb(5, 2)', 'particle.c = math.isclose(1., 1.)',
    'particle.c = math.hypot(1., 2., 3.)', 'particle.c = math.fsum([1., 2.])', 'particle.c = math.modf(2.5)[0]', 'particle.c = math.frexp(8.)[0]',
    'particle.c = math.dist([1.], [3.])', 'particle.c = math.ldexp(1.5, 3)', 'particle.c = math.isqrt(17)', 'particle.c = math.remainder(7, 4)',
    'particle.c = math.nextafter(1., 2.)', 'particle.c = math.perm(5, 2)', 'particle.c = math.prod([2, 3])', 'particle.c = math.exp2(3)',
    'particle.c = math.erfc(0.5)', 'particle.c = math.isnan(particle.a)', 'particle.c = math.isfinite(particle.a)', 'particle.c = math.isinf(particle.a)',
    'particle.c = 100000 * 100000 / 1e9', 'particle.c = 3000000000 % 7', 'particle.c = 2 ** 40 / 2 ** 38', 'particle.c = 7 / 2 * 2',
    'particle.c = -7 % 3', 'particle.c = -(-3) ** 3', 'particle.c = 1_000 + 0x10 + 0b11 + 0o17', 'particle.c = 10',
    'particle.c = 1e3 + 1E-1 + .5 + 2.', 'particle.c = True + True', 'particle.c = not True', 'particle.c = (not 0) + 1',
    'if particle.c:\n    pass\nelif particle.b:\n    particle.a = 1\nelse:\n    particle.a = 2', 'return', 'if particle.a > 0:\n    return\nparticle.c = 4',
    'particle.a += particle.a * 2 - 1', 'particle.a -= 1 - 3', 'particle.a *= 2 + 1', 'particle.a /= 2 - 4', 'particle.i *= 2 - 5',
    'particle.c = particle.a - (particle.b - (1 - particle.a))', 'particle.c = 8 / (4 / 2)', 'particle.c = 8 / 4 / 2', 'particle.c = 2 ** 3 ** 2',
    'particle.c = (2 ** 3) ** 2', 'particle.c = -2 ** 2', 'particle.c = 10 - 5 - 2', 'particle.c = 10 - (5 - 2)', 'particle.c = 3 * (4 % 3)',
    'particle.c = 3 * 4 % 5', 'particle.c = fieldset.P[particle] * fieldset.P[particle]', 'particle.c = 2 * fieldset.S[particle]',
    'particle.c = 10 - fieldset.S[particle]', 'particle.c = -fieldset.S[particle] / 2', 'particle.c = fieldset.S[particle] % 3',
    'particle.c = 1 - 2 * (fieldset.S[particle] < 7)', 'fieldset.UV[particle]\nparticle.c = 2', 'fieldset.P[particle]',
    'if fieldset.P[particle] > 9:\n    pass\nelse:\n    particle.c = 2', 'if fieldset.P[particle] > 9:\n    particle.delete()',
    'if fieldset.P[particle] < 9:\n    if particle.a > 0:\n        particle.c = 2',
    'if particle.i > 1000 and fieldset.P[time, particle.depth, particle.lat, 99.] > 0:\n    particle.c = 1',
    'if particle.i < 1000 or fieldset.P[time, particle.depth, particle.lat, 99.] > 0:\n    particle.c = 1',
    'q = 0\nwhile q < 4 and fieldset.P[time, particle.depth, q, particle.lon] < 20:\n    q += 1\nparticle.c = q',
    'q = 0\nwhile fieldset.P[time, particle.depth, q, particle.lon] < 0:\n    q += 1\nparticle.c = q',
    'if ParcelsRandom.random() < 0.5 and ParcelsRandom.random() < 0.5:\n    particle.c = ParcelsRandom.random()',
    'if ParcelsRandom.random() < 0.5 or ParcelsRandom.random() < 0.5:\n    particle.c = ParcelsRandom.random()',
    'particle.c = math.pow(ParcelsRandom.random(), ParcelsRandom.random())', 'particle.c = max(ParcelsRandom.random(), ParcelsRandom.random())',
    'particle.c = ParcelsRandom.random() - 2 * ParcelsRandom.random() * particle.b', 'particle.c = min(ParcelsRandom.random(), 0.9)',
    'q = 0\nwhile ParcelsRandom.random() < 0.7 and q < 9:\n    q += 1\nparticle.c = q', 'particle.c, particle.a = ParcelsRandom.random(), ParcelsRandom.random()',
    'particle.c = particle.a = ParcelsRandom.random()', 'particle.delete()\nparticle.c = ParcelsRandom.random()',
    'particle.state = OperationCode.Delete', 'particle.c = abs(particle.a) + abs(-particle.i)', 'particle.c = round(2.5) + round(3.5) + round(-0.5)',
    'particle.c = max(1, particle.a) - min(particle.a, 1)', 'particle.c = particle.a or 5', 'particle.c = particle.a and 5',
    'particle.c = particle.a and particle.b or 7', 'particle.c = (particle.a or particle.b) and 7', 'particle.c = not particle.a or particle.b',
    'q = time\nparticle.c = q', 'q = time + 123456.7\nparticle.c = q - 123456', 'q = [0.1, 0.7]\nparticle.c = q[0] * q[1]',
    'q = [[1., 2.], [3., 4.]]\nparticle.c = q[1][0]', 'particle.c = particle.id * 0 + 3', 'y0 = 3\nparticle.c = y0 / 2', 'gamma = 2\nparticle.c = gamma',
    'particle.c = particle.f == 0.1', 'particle.i = -7.9', 'particle.i = 7.9\nparticle.j = -0.5', 'particle.f = 0.1\nparticle.c = particle.f',
]


def scenarios(tier, seed):
    n, m = (300, 1) if tier == 'quick' else (6000, 12)
    out = [{'seed': seed, 'k': k, 'part': 'program'} for k in range(n)]
    group = 6
    idx = list(range(len(EXOTIC)))
    for r in range(m):
        out += [{'seed': seed, 'k': r, 'part': 'exotic', 'which': idx[i:i + group]} for i in range(0, len(idx), group)]
    return out


def make_world(P, rng, lonlat_dtype):
    x = np.arange(5.)
    data = {n: rng.integers(-9, 10, (5, 5)).astype(float) for n in ('U', 'V', 'P', 'Q')}
    fs = P.FieldSet.from_data(data, {'lon': x, 'lat': x}, mesh='flat')
    small = rng.integers(-9, 10, (3, 3)).astype(float)
    n1 = P.Field('N1', small, lon=np.arange(3.) + 1, lat=np.arange(3.) + 1, mesh='flat')
    fs.add_field(n1)
    s = P.SummedField('S', [fs.P, fs.Q])
    nst = P.NestedField('N', [n1, fs.Q])
    fs.add_field(s)
    fs.add_field(nst)
    for k, v in kgen.CONSTS.items():
        fs.add_constant(k, v)
    m = type('FieldSetModel', (), {})()
    F = {n: kgen.FieldModel(d) for n, d in data.items()}
    F['N1'] = kgen.FieldModel(small, 1., 1.)
    for n in F:
        setattr(m, n, F[n])
    m.UV = kgen.VectorModel(F['U'], F['V'])
    m.S = kgen.SummedModel(F['P'], F['Q'])
    m.N = kgen.NestedModel(F['N1'], F['Q'])
    for k, v in kgen.CONSTS.items():
        setattr(m, k, kgen.V(float(v), 0., 'f'))
    return fs, m


def initial(rng, npart):
    out = []
    for _ in range(npart):
        p = {'lon': rng.integers(0, 25) / 8., 'lat': rng.integers(0, 25) / 8.}
        for n in kgen.F64:
            p[n] = choice(rng, [0., 1., -2.75, 1.5, 4., -0.1, rng.integers(-40, 40) / 8., rng.normal()])
        for n in kgen.F32:
            p[n] = float(np.float32(choice(rng, [0., 1., -1.5, 0.1, 7.3, rng.integers(-40, 40) / 8.])))
        p['i'] = int(choice(rng, [0, 1, 3, -7, 5, 100]))
        p['j'] = int(choice(rng, [0, 2, 5, -3, 12345]))
        out.append({k: (float(v) if not isinstance(v, int) else v) for k, v in p.items()})
    return out


def model_globals(R, log):
    return {'math': kgen.MathModel(), 'ParcelsRandom': kgen.RandomModel(R, log), 'StateCode': kgen.Codes, 'OperationCode': kgen.Codes}


def model_function(src, name, glob):
    g = dict(glob)
    exec(compile(src, '<model>', 'exec'), g)
    return g[name]


def interpret(rngmod, seed, funcs, mfs, dtypes, init, t0, dt, nsteps):
    """the expected state of every particle: dict of V, 'gone', 'unsure'; stops at the first unsure particle if numbers are drawn"""
    rngmod.seed(seed)
    glob_log = funcs['log']
    out = []
    for p0 in init:
        before = len(glob_log)
        part = kgen.ParticleModel(dtypes, dict(p0, depth=0., time=t0, dt=dt, id=0))
        res = None
        try:
            for s in range(nsteps):
                t = t0 + s * dt
                part._d['time'] = kgen.V(float(t))
                part._d['dt'] = kgen.V(float(dt))
                r = kgen.run_model(funcs['f'], part, mfs, kgen.V(float(t)))
                if r == 'delete':
                    res = 'deleted'
                    break
            if res is None:
                res = dict(part._d)
        except kgen.Outside:
            res = 'outside'
        except kgen.Unsure:
            res = 'unsure'
        except Exception as e:
            res = 'error ' + type(e).__name__
        if res == 'unsure' and (len(glob_log) > before or funcs['random']):
            break
        out.append(res)
    return out


def Drop(particle, fieldset, time):
    particle.delete()


def execute(P, mode, fs, kernels, init, t0, dt, nsteps, dtypes, seed, lonlat_dtype):
    import parcels.rng as R
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    pc = type('MonP', (base,), dict([(n, P.Variable(n, dtype=t, initial=0)) for n, t in kgen.DTYPES.items()]
                                    + [('tag', P.Variable('tag', dtype=np.int32, initial=0))]))
    kw = {n: [p[n] for p in init] for n in kgen.DTYPES}
    ps = P.ParticleSet(fs, pclass=pc, lon=[p['lon'] for p in init], lat=[p['lat'] for p in init], time=[t0] * len(init),
                       lonlatdepth_dtype=lonlat_dtype, tag=list(range(len(init))), **kw)
    k = kernels(ps)
    R.seed(seed)
    ps.execute(k, runtime=nsteps * abs(dt), dt=dt, recovery={P.ErrorCode.ErrorOutOfBounds: Drop}, verbose_progress=False)
    got = {}
    for p in ps:
        if p.tag in got:
            raise RuntimeError('particle %d twice' % p.tag)
        got[int(p.tag)] = {n: getattr(p, n) for n in list(kgen.DTYPES) + ['lon', 'lat']}
    return got


def compare(rec, what, got, expected, details):
    """counts the particles that could be judged"""
    n = 0
    for i, e in enumerate(expected):
        if e == 'unsure':
            rec.event('unsure_particles')
            continue
        if isinstance(e, str) and e.startswith('error'):
            rec.violation('accepted invalid', '%s: a kernel that fails in Python was accepted and ran' % what, error=e, **details)
            return n
        n += 1
        rec.event('particles_compared')
        if isinstance(e, str):
            rec.event(e + '_particles')
            if i in got:
                rec.violation('particle kept', '%s: particle %d should be %s' % (what, i, e), particle=i, got=got[i], **details)
                return n
            continue
        if i not in got:
            rec.violation('particle lost', '%s: particle %d is gone' % (what, i), particle=i, **details)
            return n
        for v, x in got[i].items():
            w = e[v]
            rec.event('values_compared')
            if not abs(float(x) - w.v) <= 4 * w.e + 1e-13 * abs(w.v):
                rec.violation('mistranslated', '%s: particle %d has %s = %r, the Python kernel gives %r' % (what, i, v, float(x), w),
                              particle=i, variable=v, got=float(x), expected=w.v, bound=w.e, **details)
                return n
    return n


def run(scn, rec):
    import parcels as P
    with workdir():
        if scn['part'] == 'program':
            one(P, rec, rng_for('C14', scn['seed'], scn['k'], 'p'), None)
        else:
            for w in scn['which']:
                one(P, rec, rng_for('C14', scn['seed'], scn['k'], 'e%d' % w), EXOTIC[w])


def one(P, rec, rng, exotic):
    import parcels.rng as R
    lonlat = choice(rng, [np.float32, np.float64])
    fs, mfs = make_world(P, rng, lonlat)
    g = kgen.Gen(rng)
    if exotic is None:
        lines = g.program(int(rng.integers(3, 9)))
        if rng.random() < .15:
            lines = ['"""A docstring."""'] + lines
    else:
        lines = g.program(int(rng.integers(0, 2))) + exotic.split('\n')
        if rng.random() < .3 and 'return' not in exotic:
            lines = ['if particle.b < 100:'] + ['    ' + l for l in lines] + ['particle.g = 3']
    src = kgen.source('MonKernel', lines)
    npart, nsteps = int(rng.integers(3, 7)), int(rng.integers(1, 4))
    t0, dt = choice(rng, [0., 10.5, 1000.]), choice(rng, [1., 0.5, -1., 3.])
    init = initial(rng, npart)
    dtypes = dict(kgen.DTYPES, lon=lonlat, lat=lonlat, depth=lonlat, time=np.float64, dt=np.float64, id=np.int64, state=np.int32)
    seed = int(rng.integers(1, 10**6))
    log = []
    details = dict(source=src, init=init, t0=t0, dt=dt, steps=nsteps, seed=seed)
    funcs = {'f': [model_function(src, 'MonKernel', model_globals(R, log))], 'log': log, 'random': 'ParcelsRandom' in src}
    expected = interpret(R, seed, funcs, mfs, dtypes, init, t0, dt, nsteps)
    fn = mkkernel(src, 'MonKernel')
    modes = ['jit'] + (['scipy'] if rng.random() < .3 and exotic is None else [])
    for mode in modes:
        try:
            got = execute(P, mode, fs, lambda ps: ps.Kernel(fn), init, t0, dt, nsteps, dtypes, seed, lonlat)
        except Exception as e:
            rec.event('rejected_constructs' if exotic is not None else 'rejected_programs')
            if exotic is None:
                rec.setsample(rejected=repr(e)[:300], source=src)
            continue
        if mode == 'jit':
            rec.event('accepted_kernels')
            if funcs['random']:
                rec.event('random_kernels')
            if any(s in l for l in src.split('\n') for s in ('fieldset.P', 'fieldset.Q', 'fieldset.S', 'fieldset.N')
                   if l.strip().startswith(('if', 'elif', 'while'))):
                rec.event('sample_in_test')
            for u in g.used:
                rec.event('uses ' + u)
        if compare(rec, mode, got, expected, details):
            rec.state(mode, src)
