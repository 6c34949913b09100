"""C08: faults injected at chosen steps of chosen particles; recovery calls and final states are compared with a model."""
import math

import numpy as np

from rt.core import rng_for
from rt.gen import choice, pclass, workdir

RULE = ('fault plans (particle, step, kind, number of repetitions, handler action) over kernels that change every kind of variable before '
        'failing; non-trivial = distinct (mode, fault kind, handler present, action, direction, chunked) combination observed')
REQUIRED = {'recovery_calls': 300, 'rolled_back_states': 300, 'raised_to_caller': 60, 'repeats': 30, 'stops': 20, 'bystanders': 300,
            'zero_dt_faults': 10}
ASSUMPTIONS = ['a kernel may be re-run after recovery; the recovery kernel\'s own changes are kept',
               'when an error is raised or a stop requested, particles of the same loop may each be at any step boundary of their own history']

K_ERR, K_OOB, K_SURF, K_TIME, K_INT, G_OOB, G_SURF, G_TIME, K_REP, K_REP2, PYEXC, STOP, DEL, LATE = range(1, 15)


def scenarios(tier, seed):
    n = 800 if tier == 'quick' else 14000
    return [{'seed': seed, 'k': k} for k in range(n)]


def Faulty(particle, fieldset, time):
    particle.nstep += 1
    particle.a += 1.5
    particle.b += 2
    particle.c -= 0.25
    particle.d += 3
    particle.acc += time
    particle.lon += 0.25
    particle.lat -= 0.125
    particle.depth += 0.0625
    kind = 0.
    if particle.nstep == particle.f1 and particle.m1 > 0:
        kind = particle.k1
    if particle.nstep == particle.f2 and particle.m2 > 0:
        kind = particle.k2
    if kind == 1:
        return ErrorCode.Error  # noqa
    if kind == 2:
        return ErrorCode.ErrorOutOfBounds  # noqa
    if kind == 3:
        return ErrorCode.ErrorThroughSurface  # noqa
    if kind == 4:
        return ErrorCode.ErrorTimeExtrapolation  # noqa
    if kind == 5:
        return ErrorCode.ErrorInterpolation  # noqa
    if kind == 6:
        particle.a = fieldset.T[0., 50., 0., 1e7]
    if kind == 7:
        particle.a = fieldset.T[0., -3., 0., 0.]
    if kind == 8:
        particle.a = fieldset.T[1e9, 50., 0., 0.]
    if kind == 9:
        if math.fabs(particle.dt) > particle.thr:
            particle.dt = particle.dt / 2
            return OperationCode.Repeat  # noqa
    if kind == 10:
        if math.fabs(particle.dt) > particle.thr:
            particle.dt = particle.dt / 2
    if kind == 12:
        return OperationCode.StopExecution  # noqa
    if kind == 13:
        particle.delete()
    if kind == 14:
        particle.b += 10
        particle.lon += 100.
        particle.a = fieldset.T[0., 50., 0., -1e7]


def FaultyPy(particle, fieldset, time):
    if particle.nstep + 1 == particle.f1 and particle.m1 > 0 and particle.k1 == 11 or \
            particle.nstep + 1 == particle.f2 and particle.m2 > 0 and particle.k2 == 11:
        particle.a += 77
        particle.lon += 7
        particle.b += 5
        [][3]
    return Faulty(particle, fieldset, time)


VARS = dict(nstep=(np.int32, 0), a=(np.float64, 0.), b=(np.int32, 0), c=(np.float32, 0.), d=(np.int64, 0), acc=(np.float64, 0.),
            f1=(np.int32, 0), f2=(np.int32, 0), k1=(np.float32, 0.), k2=(np.float32, 0.), m1=(np.int32, 0), m2=(np.int32, 0),
            thr=(np.float64, 0.), tag=(np.int32, 0))
WATCH = ['nstep', 'a', 'b', 'c', 'd', 'acc', 'lon', 'lat', 'depth', 'time', 'm1', 'm2', 'f1', 'f2', 'tag']
NAMES = {K_ERR: 'Error', K_OOB: 'ErrorOutOfBounds', K_SURF: 'ErrorThroughSurface', K_TIME: 'ErrorTimeExtrapolation',
         K_INT: 'ErrorInterpolation', G_OOB: 'ErrorOutOfBounds', G_SURF: 'ErrorThroughSurface', G_TIME: 'ErrorTimeExtrapolation',
         PYEXC: 'Error', LATE: 'ErrorOutOfBounds'}
RAISES = {'Error': 'KernelError', 'ErrorOutOfBounds': 'OutOfBoundsError', 'ErrorThroughSurface': 'ThroughSurfaceError',
          'ErrorTimeExtrapolation': 'OutOfTimeError', 'ErrorInterpolation': 'InterpolationError'}


def step(st, dt):
    st = dict(st)
    st['nstep'] += 1
    st['a'] += 1.5
    st['b'] += 2
    st['c'] -= .25
    st['d'] += 3
    st['acc'] += st['time']
    st['lon'] += .25
    st['lat'] -= .125
    st['depth'] += .0625
    st['time'] += dt
    return st


def simulate(st, plan, dt, thr, cuts, handlers):
    """History of one particle: list of recovery calls (handler, pre-state), list of step-boundary states, outcome, raised."""
    calls, bounds = [], [dict(st)]
    sign = 1 if dt > 0 else -1
    pdt = abs(dt)
    reps = 0
    for cut in cuts:
        while sign * (cut - st['time']) > 1e-9:
            h = min(pdt, abs(cut - st['time']))
            n = st['nstep'] + 1
            kind = 0
            which = None
            for q in (1, 2):
                if n == st['f%d' % q] and st['m%d' % q] > 0:
                    kind, which = plan['k%d' % q], 'm%d' % q
            if kind in NAMES:
                code = NAMES[kind]
                hd = code
                if code not in handlers and code == 'ErrorThroughSurface' and 'ErrorOutOfBounds' in handlers:
                    hd = 'ErrorOutOfBounds'
                if hd not in handlers:
                    return calls, bounds, 'raise', code, reps
                calls.append((hd, dict(st)))
                st = dict(st)
                st[which] -= 1
                if handlers[hd] == 'delete':
                    return calls, bounds, 'deleted', None, reps
                if handlers[hd] == 'shift':
                    st['lon'] += 8
                    st['b'] += 100
                continue
            if kind in (K_REP, K_REP2) and h > thr:
                pdt = h / 2
                reps += 1
                continue
            if kind == STOP:
                return calls, bounds, 'stop', None, reps
            st = step(st, sign * h)
            if kind == DEL:
                bounds.append(dict(st))   # marked, not yet removed
                return calls, bounds, 'deleted', None, reps
            bounds.append(dict(st))
    return calls, bounds, 'end', None, reps


def run(scn, rec):
    import parcels as P
    from parcels.tools import statuscodes as sc
    import parcels.kernel as pk
    Faulty.__globals__['ErrorCode'] = sc.ErrorCode
    Faulty.__globals__['OperationCode'] = sc.OperationCode
    rng = rng_for('C08', scn['seed'], scn['k'])
    mode = choice(rng, ['jit', 'scipy'])
    lon = np.array([-1e6, 0, 1e6], dtype=np.float32)
    dep = np.array([0., 100.], dtype=np.float32)
    z2 = np.zeros((2, 2, 3, 3), dtype=np.float32)
    fs = P.FieldSet.from_data({'U': z2, 'V': z2, 'T': z2 + 1}, {'lon': lon, 'lat': lon, 'depth': dep, 'time': np.array([-1e7, 1e7])},
                              mesh='flat', allow_time_extrapolation=False)
    pc = pclass(P, mode, **{k: v + (choice(rng, [True, True, False, 'once']),) for k, v in VARS.items()})   # write settings must not matter
    n = int(rng.integers(1, 7))
    sign = choice(rng, [1, 1, -1])
    dt = sign * choice(rng, [1., 2., 0.5, 4.])
    nsteps = int(rng.integers(3, 10))
    zero = rng.random() < 0.08
    t0 = choice(rng, [0., 32., -32.])
    end = t0 + nsteps * dt
    chunk = choice(rng, [None, None, 1, 2, 3])
    kinds = [K_ERR, K_OOB, K_SURF, K_TIME, K_INT, G_OOB, G_SURF, G_TIME, K_REP, K_REP2, LATE, DEL]
    if mode == 'scipy':
        kinds += [PYEXC, PYEXC]
    if rng.random() < 0.12:
        kinds += [STOP] * 4
    if zero:
        kinds = [K_ERR, K_OOB, K_TIME, G_OOB, G_SURF, LATE]
    handlers = {}
    style = choice(rng, ['all', 'all', 'all', 'some', 'none'])
    for c in RAISES:
        if style == 'all' or (style == 'some' and rng.random() < 0.5):
            handlers[c] = choice(rng, ['fix', 'fix', 'shift', 'delete'])
    if style == 'all' and rng.random() < 0.3:
        del handlers['ErrorThroughSurface']
    cols = {k: [] for k in VARS}
    starts, plans, times = [], [], []
    lons = rng.integers(-40, 40, n) / 4.
    lats = rng.integers(-40, 40, n) / 4.
    deps = rng.integers(4, 40, n) / 2.
    for i in range(n):
        pl = {q: 0 for q in ('f1', 'f2', 'k1', 'k2', 'm1', 'm2')}
        if rng.random() < (0.7 if n > 1 else 1):
            pl['f1'] = int(rng.integers(1, nsteps + 1)) if not zero else 1
            pl['k1'] = choice(rng, kinds)
            pl['m1'] = int(rng.integers(1, 4))
            if rng.random() < 0.4 and not zero:
                pl['f2'] = int(rng.integers(1, nsteps + 1))
                if pl['f2'] == pl['f1']:
                    pl['f2'] = 0
                pl['k2'] = choice(rng, kinds)
                pl['m2'] = int(rng.integers(1, 3))
        plans.append(pl)
        times.append(t0 if (i == 0 or zero) else t0 + dt * int(rng.integers(0, 3)) * (rng.random() < 0.3))
        st = dict(nstep=0, a=0., b=0, c=0., d=0, acc=0., lon=lons[i], lat=lats[i], depth=deps[i], time=times[i], tag=i)
        st.update({q: pl[q] for q in ('f1', 'f2', 'm1', 'm2')})
        starts.append(st)
    thr = abs(dt) * 0.75
    kw = {q: np.array([pl[q] for pl in plans], dtype=VARS[q][0]) for q in ('f1', 'f2', 'k1', 'k2', 'm1', 'm2')}
    log = []

    def snap(p):
        return {w: (float(getattr(p, w)) if w in ('a', 'c', 'acc', 'lon', 'lat', 'depth', 'time') else int(getattr(p, w))) for w in WATCH}

    def mk(code, action):
        def handler(particle, fieldset, time):
            s = snap(particle)
            log.append((code, s, float(time), fieldset is fs))
            for q in (1, 2):
                if particle.nstep + 1 == getattr(particle, 'f%d' % q) and getattr(particle, 'm%d' % q) > 0:
                    setattr(particle, 'm%d' % q, getattr(particle, 'm%d' % q) - 1)
            if action == 'delete':
                particle.delete()
            elif action == 'shift':
                particle.lon += 8
                particle.b += 100
        return handler

    recovery = {getattr(sc.ErrorCode, c): mk(c, act) for c, act in handlers.items()}
    with workdir():
        pset = P.ParticleSet(fs, pclass=pc, lon=lons, lat=lats, depth=deps, time=np.array(times), lonlatdepth_dtype=np.float64,
                             thr=np.full(n, thr), tag=np.arange(n, dtype=np.int32), **kw)
        kern = Faulty if mode == 'jit' else FaultyPy
        if zero:
            args = dict(dt=0)
            cuts = []
        else:
            args = dict(dt=dt, endtime=end)
            cuts = [end]
            if chunk is not None:
                step_ = chunk * abs(dt)
                cuts = []
                t = t0 + sign * step_
                while sign * (end - t) > 1e-9:
                    cuts.append(t)
                    t += sign * step_
                cuts.append(end)
                if rng.random() < 0.5:
                    args['output_file'] = pset.ParticleFile(name='o', outputdt=step_)
                else:
                    args['callbackdt'] = step_
        raised = None
        try:
            pset.execute(kern, recovery=recovery if (recovery or rng.random() < 0.5) else None, **args)
        except sc.KernelError as e:
            raised = e
        if 'output_file' in args:
            args['output_file'].close(delete_tempfiles=True) if raised is None and len(pset) else None
    ctx = dict(mode=mode, dt=dt, cuts=cuts, starts=times, plans=plans, handlers=handlers, zero=zero)
    got = {int(p.tag): snap(p) for p in pset}
    if len(got) != len(pset):
        rec.violation('duplicated-particle', 'a particle appears twice after recovery', **ctx)
        return
    if zero:
        check_zero(rec, starts, plans, handlers, log, got, raised, ctx)
        return
    sims = [simulate(starts[i], plans[i], dt, thr, cuts, handlers) for i in range(n)]
    abort = raised is not None or any(s[2] in ('raise', 'stop') for s in sims)
    for code, s, t, okfs in log:
        rec.event('recovery_calls')
        if t != s['time'] or not okfs:
            rec.violation('recovery-arguments', 'recovery kernel called with another time or field set than the particle\'s', time=t, state=s, **ctx)
            return
    for i in range(n):
        calls, bounds, outcome, code, reps = sims[i]
        mine = [(c, s) for c, s, _, _ in log if s['tag'] == i]
        if mine != calls[:len(mine)] or (not abort and len(mine) != len(calls)):
            k = next((j for j in range(min(len(mine), len(calls))) if mine[j] != calls[j]), min(len(mine), len(calls)))
            rec.violation('recovery-history', 'recovery calls (handler, rolled back state) differ from the fault plan', particle=i, call=k,
                          observed=mine[k:k + 1], expected=calls[k:k + 1], n_observed=len(mine), n_expected=len(calls), **ctx)
            return
        rec.event('rolled_back_states', len(mine))
        for c, _ in mine:
            rec.state(mode, c, handlers.get(c), sign, chunk, outcome)
        rec.event('repeats', reps)
        if not abort:
            if outcome == 'deleted':
                if i in got:
                    rec.violation('not-deleted', 'particle deleted by its kernel or handler is still present', particle=i, got=got[i], **ctx)
                    return
            elif got.get(i) != bounds_final(bounds, calls, plans[i], handlers):
                rec.violation('final-state', 'particle does not have the state its own history gives', particle=i, got=got.get(i),
                              expected=bounds_final(bounds, calls, plans[i], handlers), **ctx)
                return
            if not calls and not reps:
                rec.event('bystanders')
        elif i in got:
            # aborted run: the particle must be at a step boundary of its own history
            if not any(match(got[i], b) for b in bounds) and not any(match(got[i], c[1]) for c in calls) \
                    and not any(match(got[i], after(c[1], handlers[c[0]])) for c in calls):
                rec.violation('aborted-state', 'after an aborted run a particle is not in any state of its own history', particle=i, got=got[i],
                              allowed=bounds, **ctx)
                return
            rec.event('bystanders')
    if raised is not None:
        cands = {RAISES[s[3]] for s in sims if s[2] == 'raise'}
        if type(raised).__name__ not in cands:
            rec.violation('raised-type', 'error raised to the caller is not one of the unhandled errors', raised=type(raised).__name__,
                          expected=sorted(cands), message=str(raised)[:300], **ctx)
            return
        rec.event('raised_to_caller')
        rec.state('raise', mode, type(raised).__name__, sign, chunk)
    elif any(s[2] == 'raise' for s in sims) and not any(s[2] == 'stop' for s in sims):
        rec.violation('not-raised', 'an unhandled error was not raised', **ctx)
        return
    stops = [i for i in range(n) if sims[i][2] == 'stop']
    if stops and raised is None:
        rec.event('stops')
        rec.state('stop', mode, sign, chunk)
        tstop = min(sign * sims[i][1][-1]['time'] for i in stops)
        first_cut = next(c for c in cuts if sign * c > tstop + 1e-9)
        for i, s in got.items():
            if sign * s['time'] > sign * first_cut + 1e-9:
                rec.violation('stop-ignored', 'a particle was advanced past the loop in which execution was asked to stop', particle=i, got=s,
                              stop_cut=first_cut, **ctx)
                return
    rec.setsample(mode=mode, dt=dt, cuts=cuts, plans=plans, handlers=handlers, calls=[(c, s['tag'], s['time']) for c, s, _, _ in log][:10],
                  raised=type(raised).__name__ if raised else None)


def match(a, b):
    return all(a[w] == b[w] for w in WATCH if w not in ('m1', 'm2'))


def after(st, action):
    st = dict(st)
    if action == 'shift':
        st['lon'] += 8
        st['b'] += 100
    return st


def bounds_final(bounds, calls, plan, handlers):
    st = dict(bounds[-1])
    # recoveries after the last completed step cannot occur in a run that reached the end
    return st


def check_zero(rec, starts, plans, handlers, log, got, raised, ctx):
    """dt=0: the kernel runs exactly once (successfully) on every particle, whatever recoveries happen."""
    unhandled = set()
    for i, st in enumerate(starts):
        kind = plans[i]['k1'] if plans[i]['m1'] > 0 else 0
        if kind in NAMES:
            rec.event('zero_dt_faults')
            code = NAMES[kind]
            if code not in handlers and code == 'ErrorThroughSurface' and 'ErrorOutOfBounds' in handlers:
                code = 'ErrorOutOfBounds'
            if code not in handlers:
                unhandled.add(RAISES[code])
                continue
            if handlers[code] == 'delete':
                if raised is None and i in got:
                    rec.violation('not-deleted', 'particle deleted by its handler is still present (dt=0)', particle=i, **ctx)
                continue
            mine = [s for c, s, _, _ in log if s['tag'] == i]
            if raised is None and len(mine) != plans[i]['m1']:
                rec.violation('recovery-history', 'number of recovery calls differs (dt=0)', particle=i, observed=len(mine), expected=plans[i]['m1'], **ctx)
                return
            if raised is None:
                exp = dict(st)
                for _ in range(plans[i]['m1']):
                    exp = after(exp, handlers[code])
                exp = step(exp, 0)
                if not match(got[i], exp):
                    rec.violation('zero-dt-state', 'a recovered particle was not executed exactly once (dt=0)', particle=i, got=got[i], expected=exp, **ctx)
                    return
        elif raised is None or i in got:
            exp = [step(st, 0)] + ([st] if raised is not None else [])
            if not any(match(got[i], e) for e in exp):
                rec.violation('zero-dt-bystander', 'a particle without fault was not executed exactly once (dt=0)', particle=i, got=got[i], expected=exp, **ctx)
                return
            rec.event('bystanders')
    if (raised is None) != (not unhandled) or (raised is not None and type(raised).__name__ not in unhandled):
        rec.violation('raised-type', 'unexpected error type (dt=0)', raised=repr(raised)[:200], expected=sorted(unhandled), **ctx)
