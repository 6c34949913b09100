"""C15: sums of random kernels that share local and field names, and kernels executed in turn, compared with running one Python
function with all their bodies on each particle and step; the user's own names and included C code must survive the summing."""
import os

import numpy as np

from rt import kgen
from rt.checks.c14 import Drop, initial, make_world, model_function, model_globals
from rt.core import rng_for
from rt.gen import choice, mkkernel, workdir

RULE = ('a scenario is a schedule of execute() calls, each with a kernel, a function or a sum of 2-4 of them (new, reused or sums '
        'of kernels that ran before; the same names for locals, fields and constants in different kernels); non-trivial = '
        'distinct schedule for which at least one particle was compared')
REQUIRED = {'particles_compared': 150, 'values_compared': 1200, 'sums': 80, 'shared_local_names': 60, 'reused_kernels': 25,
            'second_sets': 15, 'user_names': 60, 'changed_time': 8, 'c_includes': 8}
ASSUMPTIONS = ['as for C14: values are compared within rounding bounds, undecidable particles are not judged',
               'a kernel that returns a status code ends the step, as it would in one kernel with all the bodies']


def scenarios(tier, seed):
    n = 170 if tier == 'quick' else 5000
    return [{'seed': seed, 'k': k} for k in range(n)]


class Piece(object):
    def __init__(self, rng, R, log, k, mode, rec):
        g = kgen.Gen(rng, locals_=('l0', 'l1', 'l2'), arr='arr%d' % k)
        lines = g.program(int(rng.integers(1, 5)))
        head = []
        if rng.random() < .25:
            n = choice(rng, ['cst', 'P', 'Q', 'cneg', 'U'])
            if 'fieldset.' + n not in '\n'.join(lines) and not (n in 'PQ' and 'fieldset.' in '\n'.join(lines)) \
                    and not (n == 'U' and 'UV' in '\n'.join(lines)):
                head.append('%s = particle.a + %d' % (n, rng.integers(1, 5)))
                lines.append('particle.b = %s' % n)
                rec.event('locals_named_like_fields')
        if rng.random() < .2:
            head.append(choice(rng, ['time = time + 7', 'time += 3', 'time = 2 * time - 1']))
            lines.append('particle.c = time')
            rec.event('changed_time')
        if rng.random() < .3 and k:
            lines.append('particle.g = time')
        name = choice(rng, ['MonKernel', 'MonKernel', 'Other%d' % k])
        self.lines = head + lines
        self.locals = {n for n in ('l0', 'l1', 'l2') if any(n in l for l in self.lines)}
        self.array = any('arr' in l for l in self.lines)
        self.name = name
        self.src = kgen.source(name, self.lines)
        self.fn = mkkernel(self.src, name)


def one_function(pieces, glob):
    """the Python function with the bodies of all the pieces"""
    return model_function(kgen.source('Bodies', [l for p in pieces for l in p.lines]), 'Bodies', glob)


def build(ps, rng, pieces, cache, rec):
    """a kernel object (or function) for the pieces, built in one of the ways a user may choose"""
    def unit(p):
        if rng.random() < .4:
            return p.fn
        if id(p) not in cache or rng.random() < .3:
            cache[id(p)] = ps.Kernel(p.fn)
        else:
            rec.event('reused_kernels')
        return cache[id(p)]
    if len(pieces) == 1:
        return unit(pieces[0])
    key = tuple(id(p) for p in pieces)
    if key in cache and rng.random() < .6:
        rec.event('reused_kernels')
        return cache[key]
    cut = int(rng.integers(1, len(pieces)))
    left, right = build(ps, rng, pieces[:cut], cache, rec), build(ps, rng, pieces[cut:], cache, rec)
    if not hasattr(left, 'merge') and not hasattr(right, 'merge'):
        left = ps.Kernel(left)
    import __main__
    names = {n: object() for n in ['random', ''.join(p.name for p in pieces)]}
    before = {n: __main__.__dict__.get(n, names) for n in names}
    __main__.__dict__.update(names)
    try:
        k = left + right
        lost = [n for n in names if __main__.__dict__.get(n) is not names[n]]
    finally:
        for n, v in before.items():
            __main__.__dict__.pop(n) if v is names else __main__.__dict__.update({n: v})
    rec.event('user_names', len(names))
    if lost:
        rec.violation('name overwritten', 'summing kernels changes the names %s of the script' % lost)
    cache[key] = k
    rec.event('sums')
    return k


CFUNC = """static inline double %s(double x)
{
  return %d * x + %d;
}
"""


def run_include(P, rec, rng):
    """sums of JIT kernels with C code of their own, given as text or as a file"""
    fs = P.FieldSet.from_data({'U': np.zeros((2, 2), np.float32), 'V': np.zeros((2, 2), np.float32)}, {'lon': [0., 1.], 'lat': [0., 1.]},
                              mesh='flat')
    n = int(rng.integers(2, 4))
    pc = type('MonP', (P.JITParticle,), {v: P.Variable(v, dtype=np.float32, initial=0.) for v in 'abc'})
    ps = P.ParticleSet(fs, pclass=pc, lon=[.25, .5], lat=[.5, .75])
    which = choice(rng, [list(range(n)), [0] * n, [0, 0] + list(range(2, n)), [0, 1, 0][:n]])
    total, want, texts = None, {}, []
    coef = [(int(rng.integers(1, 9)), int(rng.integers(1, 9))) for _ in range(n)]
    asfile = [bool(rng.random() < .5) for _ in range(n)]
    for i, w in enumerate(which):
        f, v = 'mon_func%d' % w, 'abc'[i]
        text = CFUNC % ((f,) + coef[w])
        if asfile[w]:
            path = os.path.join(os.getcwd(), 'inc%d.h' % w)
            with open(path, 'w') as fh:
                fh.write(text)
            text = path
        texts.append(text)
        fn = mkkernel('def K%d(particle, fieldset, time):\n    x = particle.lon + particle.lat\n    particle.%s = %s(x)\n' % (i, v, f),
                      'K%d' % i)
        try:
            k = ps.Kernel(fn, c_include=text)
            total = k if total is None else total + k
        except Exception as e:
            rec.violation('sum rejected', 'sum of kernels with included C code fails: %s' % repr(e)[:300], includes=texts, which=which)
            return
        want[v] = coef[w]
    ps.execute(total, runtime=1., dt=1., verbose_progress=False)
    rec.event('c_includes')
    for p in ps:
        for v, (m, c) in want.items():
            w = m * (float(p.lon) + float(p.lat)) + c
            rec.event('values_compared')
            if abs(float(getattr(p, v)) - w) > 1e-5 * abs(w):
                rec.violation('wrong value', 'sum of kernels with included C code: %s = %r instead of %r' % (v, getattr(p, v), w),
                              includes=texts, which=which)
                return
    rec.state('include', repr((which, coef, asfile)))


def run(scn, rec):
    import parcels as P
    with workdir():
        rng = rng_for('C15', scn['seed'], scn['k'])
        run_include(P, rec, rng) if scn['k'] % 10 == 9 else _run(P, rec, rng)


def _run(P, rec, rng):
    import parcels.rng as R
    mode = choice(rng, ['jit', 'jit', 'scipy'])
    lonlat = choice(rng, [np.float32, np.float64])
    fs, mfs = make_world(P, rng, lonlat)
    log = []
    pieces = [Piece(rng, R, log, k, mode, rec) for k in range(int(rng.integers(2, 5)))]
    nsets = choice(rng, [1, 1, 2])
    t0, dt = choice(rng, [0., 10.5, 1000.]), choice(rng, [1., 0.5, -1., 3.])
    inits = [initial(rng, int(rng.integers(2, 5))) for _ in range(nsets)]
    if nsets > 1:
        rec.event('second_sets')
    plan = []
    for c in range(int(rng.integers(1, 5))):
        n = int(rng.integers(1, min(4, len(pieces)) + 1)) if c else int(rng.integers(2, len(pieces) + 1))
        which = [choice(rng, pieces) for _ in range(n)] if rng.random() < .4 else [pieces[i] for i in rng.permutation(len(pieces))[:n]]
        plan.append((int(rng.integers(nsets)), which, int(rng.integers(1, 3))))
        which = [p for i, p in enumerate(which) if not (p.array and p in which[:i])]
        plan[-1] = (plan[-1][0], which, plan[-1][2])
        loc = [p.locals for p in which]
        if any(a & b for i, a in enumerate(loc) for b in loc[:i]):
            rec.event('shared_local_names')
    seed = int(rng.integers(1, 10**6))
    dtypes = dict(kgen.DTYPES, lon=lonlat, lat=lonlat, depth=lonlat, time=np.float64, dt=np.float64, id=np.int64, state=np.int32)
    details = dict(mode=mode, sources=[p.src for p in pieces], plan=[(s, [pieces.index(p) for p in w], n) for s, w, n in plan],
                   inits=inits, t0=t0, dt=dt, seed=seed)

    # what should happen
    R.seed(seed)
    model = [[kgen.ParticleModel(dtypes, dict(p, depth=0., time=t0, dt=dt, id=0)) for p in init] for init in inits]
    fate = [[None] * len(init) for init in inits]
    now = [t0] * nsets
    draws = any('ParcelsRandom' in p.src for p in pieces)
    valid = True
    glob = model_globals(R, log)
    for s, which, n in plan:
        func = one_function(which, glob)
        for i, part in enumerate(model[s]):
            if fate[s][i] is not None or not valid:
                continue
            try:
                for step in range(n):
                    t = now[s] + step * dt
                    part._d['time'], part._d['dt'] = kgen.V(float(t)), kgen.V(float(dt))
                    if kgen.run_model([func], part, mfs, kgen.V(float(t))) == 'delete':
                        fate[s][i] = 'deleted'
                        break
            except kgen.Outside:
                fate[s][i] = 'outside'
            except kgen.Unsure:
                fate[s][i] = 'unsure'
                valid = valid and not draws
        now[s] += n * dt
    if not valid:
        rec.event('undecidable_schedules')
        return

    # what happens
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    sets = []
    for init in inits:
        pc = type('MonP', (base,), dict([(n, P.Variable(n, dtype=t, initial=0)) for n, t in kgen.DTYPES.items()]
                                        + [('tag', P.Variable('tag', dtype=np.int32, initial=0))]))
        kw = {n: [p[n] for p in init] for n in kgen.DTYPES}
        sets.append(P.ParticleSet(fs, pclass=pc, lon=[p['lon'] for p in init], lat=[p['lat'] for p in init], time=[t0] * len(init),
                                  lonlatdepth_dtype=lonlat, tag=list(range(len(init))), **kw))
    R.seed(seed)
    caches = [{} for _ in sets]
    for s, which, n in plan:
        if len(sets[s]) == 0:
            continue
        k = build(sets[s], rng, which, caches[s], rec)
        try:
            sets[s].execute(k, runtime=n * abs(dt), dt=dt, recovery={P.ErrorCode.ErrorOutOfBounds: Drop}, verbose_progress=False)
        except P.KernelError as e:
            if 'numpy boolean' in str(e) or 'negative integer powers' in str(e) or '__trunc__' in str(e):
                rec.event('numpy_boolean')
                return
            rec.violation('sum fails', '%s: %s' % (mode, str(e)[-200:]), **details)
            return
        except Exception as e:
            rec.violation('sum rejected', '%s: kernels that are valid one by one fail together: %s' % (mode, repr(e)[:300]), **details)
            return
    n = 0
    for s, ps in enumerate(sets):
        got = {int(p.tag): p for p in ps}
        for i, part in enumerate(model[s]):
            f = fate[s][i]
            if f == 'unsure':
                continue
            n += 1
            rec.event('particles_compared')
            if (f is None) != (i in got):
                rec.violation('particle kept' if f else 'particle lost', '%s: particle %d of set %d should be %s' % (mode, i, s, f or 'there'),
                              **details)
                return
            if f:
                continue
            for v in list(kgen.DTYPES) + ['lon', 'lat']:
                x, w = float(getattr(got[i], v)), part._d[v]
                rec.event('values_compared')
                if not abs(x - w.v) <= 4 * w.e + 1e-13 * abs(w.v):
                    rec.violation('wrong value', '%s: particle %d of set %d has %s = %r, running the functions in order gives %r'
                                  % (mode, i, s, v, x, w), **details)
                    return
    if n:
        rec.state(mode, repr(details))
