"""C07: stepping monitor carried by the particles themselves, checked against the schedule arithmetic."""
import math

import numpy as np

from rt.core import rng_for
from rt.gen import choice, pclass, quiet_fieldset, workdir

RULE = ('a scenario is a random sequence of execute() calls (dt sign/size, run length or end time, release times, output and '
        'callback intervals, mode); non-trivial = distinct (mode, sign of dt, aligned or not, delayed, number of cuts, calls) '
        'combination in which the in-kernel monitor saw at least one step')
REQUIRED = {'steps': 200, 'particles_checked': 50, 'aligned_particles': 10, 'unaligned_particles': 5, 'callbacks': 5,
            'dt0_runs': 2, 'not_released': 1}
ASSUMPTIONS = ['times are compared with 1e-6 s absolute tolerance', 'when cuts are off the step lattice the number of steps '
               'is only bounded to within rounding of the cut positions']


def scenarios(tier, seed):
    n = 900 if tier == 'quick' else 20000
    return [{'seed': seed, 'k': k} for k in range(n)]


def StepMonitor(particle, fieldset, time):
    if particle.nstep == 0:
        particle.t_first = time
    else:
        if math.fabs(time - particle.t_expect) > 1e-6:
            particle.gaps += 1
    if math.fabs(time - particle.time) > 1e-9:
        particle.tdiff += 1
    particle.nstep += 1
    particle.t_expect = time + particle.dt
    particle.sumdt += particle.dt
    if math.fabs(particle.dt) > particle.maxdt:
        particle.maxdt = math.fabs(particle.dt)
    if particle.dt * particle.sgn < 0:
        particle.wrongsign += 1


VARS = dict(nstep=(np.float64, 0.), t_first=(np.float64, 0.), t_expect=(np.float64, 0.), sumdt=(np.float64, 0.),
            maxdt=(np.float64, 0.), gaps=(np.float64, 0.), tdiff=(np.float64, 0.), wrongsign=(np.float64, 0.),
            sgn=(np.float64, 1.), tag=(np.float64, 0.))


def is_multiple(a, b):
    r = a / b
    return abs(r - round(r)) < 1e-9


def run(scn, rec):
    import parcels as P
    rng = rng_for('C07', scn['seed'], scn['k'])
    mode = choice(rng, ['jit', 'scipy'])
    with workdir():
        _run(P, rng, mode, scn, rec)


def _run(P, rng, mode, scn, rec):
    pc = pclass(P, mode, **VARS)
    npart = int(rng.integers(1, 7))
    sign = choice(rng, [1, 1, -1])
    fs = quiet_fieldset(P)
    unit = choice(rng, [1., 0.5, 60., 0.25, 3600., 86400., 0.001])
    t0 = choice(rng, [0., 0., 10., 1000., -50., 1e6]) * unit
    style = choice(rng, ['same', 'lattice', 'random', 'nan'])
    dtn = int(rng.integers(1, 5))
    dt = sign * dtn * unit
    if style == 'same':
        times = np.full(npart, t0)
    elif style == 'lattice':
        times = t0 + sign * dtn * unit * rng.integers(0, 5, npart)
    elif style == 'random':
        times = t0 + sign * unit * np.round(rng.uniform(0, 8, npart), 3)
    else:
        times = None
    kw = {} if times is None else {'time': times}
    pset = P.ParticleSet(fs, pclass=pc, lon=np.arange(npart, dtype=float), lat=np.zeros(npart), tag=np.arange(npart, dtype=float), **kw)
    for p in pset:
        p.sgn = float(sign)
    if times is None:
        times = np.zeros(npart)      # documented default: start of the field's time axis
    kernel = pset.Kernel(StepMonitor) if rng.random() < 0.3 else StepMonitor
    ncalls = int(rng.integers(1, 4))
    cur = np.array(times, dtype=float)
    calls = []
    exp_steps = np.zeros(npart)
    lattice_ok = np.ones(npart, dtype=bool)
    maxdt = np.zeros(npart)
    released = np.zeros(npart, dtype=bool)
    for c in range(ncalls):
        start = cur.min() if sign > 0 else cur.max()
        kind = choice(rng, ['mult', 'mult', 'odd', 'zero'] if c else ['mult', 'mult', 'mult', 'odd'])
        if kind == 'zero' and rng.random() < 0.5:
            kind = 'mult'
        dtn = int(rng.integers(1, 5))
        dt = sign * dtn * unit
        runtime = dtn * unit * int(rng.integers(1, 9)) if kind == 'mult' else round(float(rng.uniform(1, 20)), 2) * unit
        end = start + sign * runtime
        args = {'dt': dt}
        if kind == 'zero':
            args['dt'] = 0.
            args['runtime'] = runtime
        elif rng.random() < 0.5:
            args['runtime'] = runtime
        else:
            args['endtime'] = end
        outputdt = None
        if kind != 'zero' and rng.random() < 0.4:
            outputdt = abs(dt) * int(rng.integers(1, 5)) if rng.random() < 0.7 else round(float(rng.uniform(1, 6)), 2) * unit
            args['output_file'] = pset.ParticleFile(name='out%d' % c, outputdt=outputdt)
        ncb = []
        cbdt = None
        if kind != 'zero' and rng.random() < 0.4:
            cbdt = abs(dt) * int(rng.integers(1, 5)) if rng.random() < 0.7 else round(float(rng.uniform(1, 6)), 2) * unit

            def cb():
                ncb.append([float(p.time) for p in pset])
            args['postIterationCallbacks'] = [cb]
            args['callbackdt'] = cbdt
        before = {int(p.tag): (float(p.nstep), float(p.sumdt), float(p.time)) for p in pset}
        pset.execute(kernel, **args)
        if 'output_file' in args:
            args['output_file'].close()
        calls.append({k: v for k, v in args.items() if k in ('dt', 'runtime', 'endtime', 'callbackdt')})
        parts = {int(p.tag): p for p in pset}
        if len(parts) != npart or len(pset) != npart:
            rec.violation('lost-particles', 'population changed without deletion', n=len(pset), npart=npart, mode=mode, calls=calls)
            return
        zero = kind == 'zero'
        if zero:
            rec.event('dt0_runs')
        for i in range(npart):
            p = parts[i]
            b = before[i]
            ctx = dict(mode=mode, call=c, calls=calls, times=times, particle=i, unit=unit, outputdt=outputdt, start=start, end=end)
            ds = float(p.nstep) - b[0]
            rec.event('particles_checked')
            rec.event('steps', ds)
            if zero:
                if ds != 1 or abs(p.time - cur[i]) > 1e-6:
                    rec.violation('dt0-not-once', 'dt=0 must run the kernel exactly once and keep time: %s steps, time %s -> %s' % (ds, cur[i], p.time), **ctx)
                    return
                continue
            dist = (end - cur[i]) * sign
            if dist <= 1e-7:         # not released within this call
                rec.event('not_released')
                if ds != 0 or abs(p.time - cur[i]) > 1e-6:
                    rec.violation('stepped-outside-life', 'particle whose time is not before the end was stepped: %s steps, time %s -> %s' % (ds, cur[i], p.time), **ctx)
                    return
                continue
            if abs(p.time - end) > 1e-6 * max(1, unit):
                rec.violation('wrong-end-time', 'particle ends at %r instead of %r' % (float(p.time), end), **ctx)
                return
            if abs((float(p.sumdt) - b[1]) - (end - cur[i])) > 1e-6 * max(1, unit):
                rec.violation('time-not-conserved', 'sum of kernel steps %r differs from elapsed time %r' % (float(p.sumdt) - b[1], end - cur[i]), **ctx)
                return
            if not released[i] and abs(p.t_first - cur[i]) > 1e-6 * max(1, unit):
                rec.violation('wrong-first-step', 'first kernel call at %r, release at %r' % (float(p.t_first), cur[i]), **ctx)
                return
            if p.gaps or p.tdiff or p.wrongsign:
                rec.violation('step-gap', 'kernel times not consecutive (gaps=%s, time!=particle.time: %s, wrong sign: %s)' % (p.gaps, p.tdiff, p.wrongsign), **ctx)
                return
            maxdt[i] = max(maxdt[i], abs(dt))
            if p.maxdt > maxdt[i] * (1 + 1e-9):
                rec.violation('step-too-long', 'step %r exceeds dt %r' % (float(p.maxdt), maxdt[i]), **ctx)
                return
            # aligned: every cut is on this particle's lattice -> exact number of steps
            aligned = is_multiple(end - cur[i], dt)
            cuts = [x for x in (outputdt, cbdt) if x is not None]
            for x in cuts:
                aligned &= is_multiple(start - cur[i], dt) and is_multiple(x, dt)
            nmin = math.ceil(dist / abs(dt) - 1e-9)
            if ds < nmin:
                rec.violation('too-few-steps', '%s steps for %s dt' % (ds, dist / abs(dt)), **ctx)
                return
            if aligned and ds != nmin:
                rec.violation('step-count', '%s kernel steps instead of %s' % (ds, nmin), **ctx)
                return
            if not aligned:
                # steps of dt, shortened only to end exactly at an output, callback or the end time
                grid = {round(dist, 7)}
                for x in cuts:
                    off = (start - cur[i]) * sign
                    j = 1
                    while off + j * x < dist:
                        if off + j * x > 0:
                            grid.add(round(off + j * x, 7))
                        j += 1
                pts = sorted(grid)
                lo = hi = 0
                prev = 0.
                for x in pts:
                    r = (x - prev) / abs(dt)
                    lo += math.ceil(r - 1e-3) if x - prev > 1e-5 * max(1, unit) else 0
                    hi += math.ceil(r + 1e-3)
                    prev = x
                if not lo <= ds <= hi:
                    rec.violation('step-count', '%s kernel steps, expected %d..%d (a step may be short only at a cut)' % (ds, lo, hi), **ctx)
                    return
            rec.event('aligned_particles' if aligned else 'unaligned_particles')
            released[i] = True
        if ncb or cbdt is not None:
            nexp = int(math.floor(runtime / cbdt + 1e-9))
            rec.event('callbacks', len(ncb))
            # an output interval finer than the callback interval does not change the callback times
            if abs(len(ncb) - nexp) > (0 if is_multiple(runtime, cbdt) or (runtime / cbdt) % 1 > 1e-6 else 1):
                rec.violation('callback-count', '%d callbacks instead of %d' % (len(ncb), nexp), mode=mode, runtime=runtime, callbackdt=cbdt, outputdt=outputdt, dt=dt)
                return
            for j, ts in enumerate(ncb):
                tcb = start + sign * (j + 1) * cbdt
                for i, t in enumerate(ts):
                    expc = tcb if (tcb - cur[i]) * sign > 0 else cur[i]
                    if abs(t - expc) > 1e-6 * max(1, unit):
                        rec.violation('callback-time', 'at callback %d (t=%r) particle time is %r' % (j, tcb, t), mode=mode, cur=cur, dt=dt, callbackdt=cbdt)
                        return
        rec.state(mode, sign, kind, style, outputdt is not None, cbdt is not None, c, unit)
        if not zero:
            cur = np.where((end - cur) * sign > 1e-7, end, cur)
        if (cur.max() - cur.min()) > 1e-7 and rng.random() < 0.2:
            break
        released |= False
    rec.setsample(mode=mode, calls=calls, release_times=times, final=[float(p.time) for p in pset], steps=[float(p.nstep) for p in pset])
