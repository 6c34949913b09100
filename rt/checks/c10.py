"""C10: every release is checked by particles that remember their own first kernel call."""
import math
from collections import Counter

import numpy as np

from rt.core import rng_for
from rt.gen import choice, pclass, quiet_fieldset, workdir

RULE = ('random initial particles, release interval, run split and direction, with kernels that move, age and delete particles; '
        'non-trivial = distinct (mode, direction, splits, releases, deletion, output) combination with at least one release observed')
REQUIRED = {'releases': 60, 'delayed_first_calls': 30, 'rereleased_after_motion': 30, 'deleted': 10, 'released_at_end': 3}
ASSUMPTIONS = ['release interval, dt and run lengths are exactly representable multiples, so the schedule has no rounding ambiguity']


def scenarios(tier, seed):
    n = 700 if tier == 'quick' else 12000
    return [{'seed': seed, 'k': k} for k in range(n)]


def Rel(particle, fieldset, time):
    if particle.seen == 0:
        particle.seen = 1
        particle.t_first = time
        particle.lon_first = particle.lon
        particle.lat_first = particle.lat
        particle.dep_first = particle.depth
        particle.v_first = particle.v
    particle.age += particle.dt
    particle.lon += 0.125
    particle.lat -= 0.25
    particle.depth += 0.5
    particle.v += 2
    if math.fabs(particle.age) > particle.life:
        particle.delete()


VARS = dict(seen=(np.float32, 0.), t_first=(np.float64, 0.), lon_first=(np.float64, 0.), lat_first=(np.float64, 0.),
            dep_first=(np.float64, 0.), v_first=(np.float64, 0.), age=(np.float64, 0.), v=(np.float32, 7.), life=(np.float64, 1e9),
            w=(np.int32, 3))


def run(scn, rec):
    import parcels as P
    rng = rng_for('C10', scn['seed'], scn['k'])
    mode = choice(rng, ['jit', 'scipy'])
    with workdir():
        if rng.random() < 0.75:
            repeated(P, rng, mode, rec)
        else:
            delayed(P, rng, mode, rec)


def initial(rng, n):
    return (rng.integers(-80, 80, n) / 8., rng.integers(-80, 80, n) / 8., rng.integers(0, 40, n) / 4.)


def repeated(P, rng, mode, rec):
    pc = pclass(P, mode, **VARS)
    fs = quiet_fieldset(P)
    n = int(rng.integers(1, 5))
    lon, lat, dep = initial(rng, n)
    sign = choice(rng, [1, 1, -1])
    unit = choice(rng, [1., 0.5, 60., 3600.])
    dtn = int(rng.integers(1, 4))
    dt = sign * dtn * unit
    rep = abs(dt) * int(rng.integers(1, 5))
    t0 = choice(rng, [None, 0., 8., -16., 1024.])
    t0s = 0. if t0 is None else t0 * unit
    kw = {}
    life = np.full(n, 1e9)
    deleting = rng.random() < 0.5
    if deleting:
        life = abs(dt) * rng.integers(0, 12, n).astype(float)
        kw['life'] = life
    v0 = np.full(n, 7.)
    if rng.random() < 0.5:
        v0 = rng.integers(0, 100, n).astype(float)
        kw['v'] = v0
    w0 = np.full(n, 3)
    if rng.random() < 0.3:
        w0 = rng.integers(0, 100, n)
        kw['w'] = w0
    usedepth = rng.random() < 0.7
    if usedepth:
        kw['depth'] = dep
    else:
        dep = np.zeros(n)
    if t0 is not None:
        kw['time'] = np.full(n, t0s) if rng.random() < 0.5 else t0s
    import datetime
    repd = datetime.timedelta(seconds=rep) if rng.random() < 0.3 else rep
    pset = P.ParticleSet(fs, pclass=pc, lon=lon, lat=lat, repeatdt=repd, **kw)
    ncalls = int(rng.integers(1, 4))
    cur = t0s
    releases = [t0s]
    runs = []
    outfile = None
    for c in range(ncalls):
        nst = int(rng.integers(1, 12))
        end = cur + sign * nst * dtn * unit
        args = {'dt': dt}
        if rng.random() < 0.5 or c:
            # after the first call the earliest particle defines the start time; give the end explicitly
            args['endtime'] = end
        else:
            args['runtime'] = abs(end - cur)
        if len(pset) == 0:
            break
        if rng.random() < 0.4:
            args['output_file'] = pset.ParticleFile(name='o%d' % c, outputdt=abs(dt) * int(rng.integers(1, 4)))
        alive_times = [float(p.time) for p in pset]
        start = min(alive_times) if sign > 0 else max(alive_times)
        if abs(start - cur) > 1e-9:
            break
        pset.execute(Rel, **args)
        if 'output_file' in args:
            args['output_file'].close()
        runs.append(args.get('endtime', end))
        # model: releases at t0 + k*rep in (cur, end]
        k = 1
        while (t0s + sign * k * rep - end) * sign <= 1e-9:
            t = t0s + sign * k * rep
            if (t - cur) * sign > 1e-9:
                releases.append(t)
                if abs(t - end) < 1e-9:
                    rec.event('released_at_end', n)
            k += 1
        cur = end
        exp = Counter()
        for t in releases:
            for i in range(n):
                steps = int(round((end - t) * sign / abs(dt)))
                # deleted by the first step after which |age| > life
                if steps * abs(dt) > life[i]:
                    rec.event('deleted')
                    continue
                if steps == 0:
                    exp[(t, 0, lon[i], lat[i], dep[i], v0[i], int(w0[i]), 0.)] += 1
                else:
                    exp[(t, 1, lon[i], lat[i], dep[i], v0[i], int(w0[i]), steps * dt)] += 1
        got = Counter()
        for p in pset:
            if p.seen:
                got[(float(p.t_first), 1, float(p.lon_first), float(p.lat_first), float(p.dep_first), float(p.v_first), int(p.w), float(p.age))] += 1
                m = int(round(p.age / dt))
                if p.lon != p.lon_first + 0.125 * m or p.lat != p.lat_first - 0.25 * m or p.v != p.v_first + 2 * m:
                    rec.violation('state-mixed', 'particle variables do not match its own history', mode=mode, lon=p.lon, first=p.lon_first, steps=m)
                    return
            else:
                got[(float(p.time), 0, float(p.lon), float(p.lat), float(p.depth), float(p.v), int(p.w), float(p.age))] += 1
        ctx = dict(mode=mode, dt=dt, repeatdt=rep, t0=t0s, runs=runs, n=n, life=life)
        if got != exp:
            rec.violation('release-mismatch', 'particles present differ from the release schedule',
                          missing=list((exp - got).items())[:6], extra=list((got - exp).items())[:6], **ctx)
            return
        ids = [int(p.id) for p in pset]
        if len(set(ids)) != len(ids):
            rec.violation('duplicate-ids', 'released particles share identifiers', ids=ids, **ctx)
            return
        rec.event('releases', len(releases))
        rec.event('rereleased_after_motion', sum(1 for g in got if g[1] and g[0] != t0s))
        rec.state('rep', mode, sign, ncalls, c, len(releases), deleting, 'output_file' in args, usedepth, t0 is None)
    rec.setsample(mode=mode, dt=dt, repeatdt=rep, t0=t0s, run_ends=runs, initial_lon=lon, releases=releases, population=len(pset))


def delayed(P, rng, mode, rec):
    pc = pclass(P, mode, **VARS)
    fs = quiet_fieldset(P)
    n = int(rng.integers(1, 8))
    lon, lat, dep = initial(rng, n)
    sign = choice(rng, [1, 1, -1])
    dt = sign * choice(rng, [1., 2., 0.5, 4.])
    t0 = choice(rng, [0., 64., -32.])
    times = t0 + dt * rng.integers(0, 12, n)
    v0 = rng.integers(0, 100, n).astype(float)
    pset = P.ParticleSet(fs, pclass=pc, lon=lon, lat=lat, depth=dep, time=times, v=v0)
    start = times.min() if sign > 0 else times.max()
    cur = start
    for c in range(int(rng.integers(1, 4))):
        end = cur + dt * int(rng.integers(1, 8))
        args = {'dt': dt, 'endtime': end}
        if rng.random() < 0.5:
            args['output_file'] = pset.ParticleFile(name='d%d' % c, outputdt=abs(dt) * int(rng.integers(1, 4)))
        pset.execute(Rel, **args)
        if 'output_file' in args:
            args['output_file'].close()
        cur = end
        for i, p in enumerate(pset):
            steps = int(max(0, round((end - times[i]) / dt)))
            ctx = dict(mode=mode, dt=dt, times=times, end=end, i=i)
            if steps == 0:
                okv = p.seen == 0 and p.lon == lon[i] and p.lat == lat[i] and p.depth == dep[i] and p.v == v0[i] and p.time == times[i] and p.age == 0
            else:
                okv = (p.seen == 1 and p.t_first == times[i] and p.lon_first == lon[i] and p.lat_first == lat[i] and p.dep_first == dep[i]
                       and p.v_first == v0[i] and p.age == steps * dt and p.lon == lon[i] + .125 * steps and p.time == end)
                rec.event('delayed_first_calls')
            if not okv:
                rec.violation('delayed-release', 'particle did not start at its release time with its initial values',
                              got=dict(seen=p.seen, t_first=p.t_first, lon_first=p.lon_first, lon=p.lon, v=p.v, v_first=p.v_first, age=p.age, time=p.time),
                              expected=dict(steps=steps, lon=lon[i], v=v0[i]), **ctx)
                return
        rec.state('del', mode, sign, c, n, 'output_file' in args)
    rec.setsample(mode=mode, dt=dt, release_times=times, end=cur, ages=[float(p.age) for p in pset])
