"""C05: values sampled along the time axis are compared with an exact reference of the interpolation in time.

Fields that only vary in time, each with a time axis of its own (uneven, one snapshot, dates or seconds, other time
origin than the field set) and its own treatment of times outside (error, extrapolation, period equal to or longer
than the series), built through Field(), from_data and from_xarray_dataset.  Scalars, vector fields (A, B and C grid,
two and three components, components on different time axes) and summed fields are sampled through kernels in both
modes in random order of times (every particle visits on-snapshot, between, outside and many-periods-away times, so
each search starts from the previous one) and by direct evaluation, and while running forward and backward.
"""
import datetime

import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, pclass
from rt.sampler import Sampler, VEC

RULE = ('Each sample must equal the linear interpolation of the two enclosing snapshots (the snapshot itself on a snapshot), '
        'of the reduced time for periodic fields, of the end snapshot with extrapolation, and be a time error otherwise.')
REQUIRED = {'sample:ok': 5000, 'sample:time': 500, 'mode:strict': 100, 'mode:extrap': 100, 'mode:periodic': 100, 'mode:default': 50,
            'on-snapshot': 500, 'wrapped': 1000, 'eval:direct': 300, 'ctor:Field': 10, 'ctor:from_data': 10, 'ctor:xarray': 10,
            'dates': 5, 'run:step': 300, 'vector': 500, 'summed': 200, 'origin-shifted': 5}
ASSUMPTIONS = ['Fields that are uniform in space, so that only the interpolation in time matters.',
               'Where the end of a period and its start hold different data either is accepted exactly on the boundary.']

NAMES = ['P', 'Q', 'R']


def scenarios(tier, seed):
    n = 96 if tier == 'quick' else 1600
    return [{'seed': [seed, k], 'mode': ['jit', 'scipy'][k % 2], 'part': ['axes', 'axes', 'axes', 'run'][(k // 2) % 4]} for k in range(n)]


# ---------------------------------------------------------------------------------------------------- field sets

def time_axis(rng):
    n = int(choice(rng, [1, 2, 2, 3, 4, 7, 13]))
    unit = float(choice(rng, [1., 60., 600., 3600., 86400., 86400. * 30]))
    even = rng.random() < .3
    s = [unit if even else unit * float(choice(rng, [.5, 1., 2., 3., .75, 1.125])) for _ in range(n - 1)]
    if not even and rng.random() < .3:
        s = [float(np.round(a * rng.uniform(.7, 1.3), 3)) for a in s]
    return np.concatenate(([0.], np.cumsum(s))), unit


def make_field(rng, dates, axis=None):
    t, unit = axis if axis is not None else time_axis(rng)
    mode = choice(rng, ['strict', 'extrap', 'periodic', 'periodic', 'default'])
    if len(t) == 1 and mode == 'periodic':
        mode = 'default'
    f = dict(mode=mode, unit=unit, ctor=choice(rng, ['Field', 'from_data', 'xarray']), period=None)
    # offset of the axis with respect to the reference origin; whole seconds so that dates can hold it
    f['off'] = float(choice(rng, [0., 0., unit, -2 * unit, 7200., 86400. * 365]))
    if dates:
        t = np.round(t)
        t = t + np.arange(len(t)) * (np.diff(t, prepend=-1).min() <= 0)
        f['off'] = float(np.round(f['off']))
    if mode == 'periodic':
        span = float(t[-1] - t[0])
        f['period'] = span + float(choice(rng, [0., 0., unit, .5 * unit, 3 * unit]))
        f['delta'] = bool(rng.random() < .3)
    g = np.round(rng.uniform(-4, 4, len(t)) * 64) / 64
    if f['period'] and rng.random() < .4:
        g[-1] = g[0] if f['period'] == t[-1] - t[0] else g[-1]
    f['t'], f['g'] = t.tolist(), g.astype(np.float32).tolist()
    return f


def make(rng):
    dates = bool(rng.random() < .4)
    s = dict(dates=dates, zdim=int(choice(rng, [1, 1, 2, 3])), stag=choice(rng, ['A', 'A', 'A', 'B', 'C']))
    U = make_field(rng, dates)
    if len(U['t']) == 1 and (dates or U['off']):
        U = make_field(rng, dates, axis=(np.array([0., 3600., 5400.]), 3600.))
    U['off'] = 0.
    F = {'U': U}
    for n in ['V'] + (['W'] if s['zdim'] > 1 else []):
        if s['stag'] == 'C' or rng.random() < .5:
            F[n] = dict(U, g=np.round(rng.uniform(-4, 4, len(U['g'])) * 64).astype(np.float32) / 64)
            F[n]['g'] = F[n]['g'].tolist()
        else:
            F[n] = make_field(rng, dates)
    for n in NAMES:
        F[n] = make_field(rng, dates)
        if rng.random() < .25:
            # same time axis as another field, other treatment
            o = F[choice(rng, [m for m in F if m != n])]
            F[n] = make_field(rng, dates, axis=(np.array(o['t']), o['unit']))
            F[n]['off'] = o['off']
    for n, f in F.items():
        # a single snapshot keeps its own origin: only its value is used
        if len(f['t']) == 1:
            f['off'] = 0.
            if f['ctor'] != 'Field':
                f['ctor'] = 'Field'
            if f['mode'] == 'strict':
                f['mode'] = 'extrap'
    s['F'] = F
    return s


EPOCH = np.datetime64('2001-02-03T04:00:00')


def build(P, s, rec=None):
    import xarray as xr
    z = s['zdim']
    lon, lat = np.linspace(0, 4, 5, dtype=np.float32), np.linspace(0, 3, 4, dtype=np.float32)
    dep = np.linspace(0, 10, z, dtype=np.float32)
    flds = {}
    for n, f in s['F'].items():
        t, g = np.array(f['t']), np.array(f['g'], dtype=np.float32)
        d = np.zeros((len(t), z, 4, 5), dtype=np.float32) + g[:, None, None, None]
        meth = {'A': 'linear', 'B': 'bgrid_w_velocity' if n == 'W' else 'bgrid_velocity', 'C': 'cgrid_velocity'}[s['stag']] if n in 'UVW' \
            else choice(np.random.default_rng(len(t) + ord(n[0])), ['linear', 'nearest'])
        ext = {'strict': False, 'extrap': True, 'periodic': None, 'default': None}[f['mode']]
        per = False if not f['period'] else (datetime.timedelta(seconds=f['period']) if f['delta'] else f['period'])
        kw = dict(allow_time_extrapolation=ext, time_periodic=per, mesh='flat')
        dims = {'lon': lon, 'lat': lat}
        if z > 1:
            dims['depth'] = dep
        else:
            d = d[:, 0]
        off = f['off']
        if rec is not None:
            rec.event('ctor:' + f['ctor'])
            rec.event('mode:' + f['mode'], 10)
            if off:
                rec.event('origin-shifted')
        if len(t) == 1:
            d1 = d[0]
            flds[n] = P.Field(n, d1, lon=lon, lat=lat, depth=dep if z > 1 else None, interp_method=meth, **kw)
            continue
        stamps = EPOCH + np.array((t + off) * 1000, dtype='int64').astype('timedelta64[ms]') if s['dates'] else None
        if f['ctor'] == 'Field':
            origin = P.tools.converters.TimeConverter(stamps[0]) if s['dates'] else None
            tt = t if s['dates'] else t + off
            flds[n] = P.Field(n, d, lon=lon, lat=lat, depth=dep if z > 1 else None, time=tt, time_origin=origin, interp_method=meth, **kw)
        elif f['ctor'] == 'from_data':
            dims['time'] = stamps if s['dates'] else t + off
            fs = P.FieldSet.from_data({n: d}, dims, **kw)
            flds[n] = getattr(fs, n)
        else:
            dd = ['time'] + (['depth'] if z > 1 else []) + ['lat', 'lon']
            co = {'time': stamps.astype('datetime64[ns]') if s['dates'] else t + off, 'lat': lat, 'lon': lon}
            if z > 1:
                co['depth'] = dep
            ds = xr.Dataset({n: (dd, d)}, coords=co)
            fs = P.FieldSet.from_xarray_dataset(ds, {n: n}, {k: k for k in co}, **kw)
            flds[n] = getattr(fs, n)
        flds[n].interp_method = meth
    fs = P.FieldSet(flds['U'], flds['V'], fields={n: f for n, f in flds.items() if n not in ('U', 'V')})
    if 'S' in s:
        fs.add_field(P.SummedField('S', [getattr(fs, n) for n in s['S']]), 'S')
    fs.check_complete()
    return fs


def shift(fs, s, P):
    """Seconds to add to a time of the specification (relative to EPOCH / to the axis zero) to get the time of the field set."""
    o = fs.time_origin.time_origin
    if s['dates']:
        return -float((np.datetime64(o) - EPOCH) / np.timedelta64(1, 's'))
    return -float(o)


# ----------------------------------------------------------------------------------------------------- reference

def reference(f, t):
    """Acceptable values of field f at time t (None: a time error)."""
    T = np.array(f['t'])
    g = np.array(f['g'], dtype=np.float64)
    if len(T) > 1:
        T = T + f['off']
    delta = 1e-9 * max(abs(t), 1.)
    if f['period']:
        p = f['period']
        if p > T[-1] - T[0] + 1e-9:
            T, g = np.append(T, T[0] + p), np.append(g, g[0])
        u = T[0] + (t - T[0]) % p
        us = [u]
        if u - T[0] < delta:
            us += [T[-1]]
        if T[0] + p - u < delta:
            us += [T[0]]
        return [float(np.interp(a, T, g)) for a in us]
    if t < T[0] or t > T[-1]:
        ext = f['mode'] == 'extrap' or (f['mode'] == 'default' and len(T) == 1)
        if not ext:
            return None
    return [float(np.interp(t, T, g))]


def slope(f):
    T, g = np.array(f['t']), np.array(f['g'], dtype=np.float64)
    if f['period']:
        if f['period'] > T[-1] - T[0] + 1e-9:
            T, g = np.append(T, T[0] + f['period']), np.append(g, g[0])
    return np.abs(np.diff(g) / np.diff(T)).max() if len(T) > 1 else 0.


def pick_time(rng, f):
    T = np.array(f['t']) + (f['off'] if len(f['t']) > 1 else 0.)
    span = (f['period'] or (T[-1] - T[0]) or 1000.)
    what = int(rng.integers(8))
    if what == 0 or len(T) == 1:
        t = float(choice(rng, T))
    elif what == 1:
        t = float(choice(rng, T)) + float(choice(rng, [-1., 1.])) * f['unit'] * float(choice(rng, [1e-3, 1e-2]))
    elif what in (2, 3, 4):
        t = float(rng.uniform(T[0], T[-1]))
    elif what == 5:
        t = float(choice(rng, [T[0] - rng.uniform(0, 1) * f['unit'], T[-1] + rng.uniform(0, 1) * f['unit']]))
    else:
        t = float(T[0] + rng.uniform(-40, 40) * span)
    if f['period'] and rng.random() < .7:
        t += float(rng.integers(-30, 31)) * f['period']
    elif rng.random() < .1:
        t += float(rng.integers(-30, 31)) * span
    return t


# ------------------------------------------------------------------------------------------------------ scenario

def run(scn, rec):
    import parcels as P
    rng = rng_for('c05', *scn['seed'])
    s = make(rng)
    if rng.random() < .5:
        s['S'] = [choice(rng, NAMES), choice(rng, NAMES)]
        if s['S'][0] == s['S'][1]:
            del s['S']
    fs = build(P, s, rec)
    if s['dates']:
        rec.event('dates')
    rec.state(s['stag'], s['zdim'], s['dates'], tuple(sorted((f['mode'], len(f['t']), f['ctor'], f['period'] is not None and f['period'] > f['t'][-1]) for f in s['F'].values())))
    (axes if scn['part'] == 'axes' else stepping)(P, s, fs, rng, scn, rec)


def members(s, q):
    return list(q) if q in VEC else (s['S'] if q == 'S' else [q])


def expected(s, q, t):
    refs = [reference(s['F'][m], t) for m in members(s, q)]
    if any(r is None for r in refs):
        return None
    if q in VEC:
        return refs
    if q == 'S':
        return [[a + b for a in refs[0] for b in refs[1]]]
    return refs


def judge(rec, s, q, t, v, o, mode):
    exp = expected(s, q, t)
    ms = members(s, q)
    T = [np.array(s['F'][m]['t']) + (s['F'][m]['off'] if len(s['F'][m]['t']) > 1 else 0.) for m in ms]
    edge = any(s['F'][m]['mode'] in ('strict', 'default') and not s['F'][m]['period']
               and min(abs(t - a[0]), abs(t - a[-1])) < 1e-9 * max(1., abs(t)) and t not in (a[0], a[-1]) for m, a in zip(ms, T))
    d = dict(mode=mode, quantity=q, time=t, dates=s['dates'], stag=s['stag'], zdim=s['zdim'],
             fields={m: s['F'][m] for m in ms})
    rec.event('sample:' + o)
    if q in VEC:
        rec.event('vector')
    if q == 'S':
        rec.event('summed')
    for m, a in zip(ms, T):
        if t in a:
            rec.event('on-snapshot')
        if s['F'][m]['period'] and not a[0] <= t <= a[0] + s['F'][m]['period']:
            rec.event('wrapped')
    if edge:
        return
    if exp is None or o != 'ok':
        if (exp is None) != (o == 'time') or o not in ('ok', 'time'):
            rec.violation('outcome', '%s %s at t=%r: %s, expected %s' % (mode, q, t, o, 'a time error' if exp is None else exp), **d)
        return
    for m, a, e in zip(ms if q in VEC else ms[:1], v, exp):
        mm = ms if q == 'S' else [m]
        tol = sum(2e-6 * max(1., np.abs(s['F'][k]['g']).max()) + slope(s['F'][k]) * (4e-16 * abs(t) * 8 + 1e-9) for k in mm)
        if s['stag'] != 'A' and q in VEC:
            tol *= 10
        if not any(abs(a - b) <= tol for b in e):
            rec.violation('value', '%s %s at t=%r: got %r, expected %s' % (mode, q, t, a, e), component=m, **d)
    rec.setsample(quantity=q, time=t, value=v, expected=exp, mode=mode)


def quantities(s):
    return NAMES + ['UVW' if s['zdim'] > 1 else 'UV'] + (['S'] if 'S' in s else []) + (['U', 'V'] if s['stag'] == 'A' else [])


def axes(P, s, fs, rng, scn, rec):
    sh = shift(fs, s, P)
    z = 3. if s['zdim'] > 1 else 0.
    n, rows = (20, 8) if scn['mode'] == 'jit' else (10, 5)
    safe = None
    for q in quantities(s):
        ms = [s['F'][m] for m in members(s, q)]
        # a time at which this quantity can be sampled, for the recovery
        for _ in range(300):
            t = pick_time(rng, choice(rng, ms))
            if expected(s, q, t) is not None:
                safe = (t + sh, z, 1.3, 1.6)
                break
        else:
            continue
        S = Sampler(P, fs, scn['mode'], q, n, safe, double=True)
        for _ in range(rows):
            ts = np.array([pick_time(rng, choice(rng, ms)) for _ in range(n)])
            x, y = rng.uniform(1.05, 2.95, n), rng.uniform(1.05, 1.95, n)
            vals, outs, cnt = S.row(ts + sh, np.full(n, z), y, x)
            for t, v, o in zip(ts, vals, outs):
                judge(rec, s, q, (t + sh) - sh, v, o, scn['mode'])
    for q in quantities(s):
        f = getattr(fs, q)
        if q == 'S' and not hasattr(f, '__getitem__'):
            continue
        ms = [s['F'][m] for m in members(s, q)]
        for _ in range(6):
            t = pick_time(rng, choice(rng, ms))
            try:
                v = f[t + sh, z, 1.5, 1.5]
                v = tuple(float(a) for a in v) if q in VEC else (float(v),)
                o = 'ok'
            except Exception as e:
                v, o = (), ('time' if type(e).__name__ == 'TimeExtrapolationError' else repr(e))
            rec.event('eval:direct')
            judge(rec, s, q, (t + sh) - sh, v, o, 'eval')


def stepping(P, s, fs, rng, scn, rec):
    """Sampling while the run advances, at the time of the step and at the stages of a Runge-Kutta step."""
    sh = shift(fs, s, P)
    z = 3. if s['zdim'] > 1 else 0.
    q = choice(rng, NAMES)
    f = s['F'][q]
    pc = pclass(P, scn['mode'], **{k: (np.float32, 0.) for k in ('a', 'b', 'c')}, tk=(np.float64, 0.), err=(np.int32, 0))
    src = ('def SampleStages(particle, fieldset, time):\n    particle.tk = time\n'
           '    particle.a = fieldset.%s[time, particle.depth, particle.lat, particle.lon]\n'
           '    particle.b = fieldset.%s[time + .5 * particle.dt, particle.depth, particle.lat, particle.lon]\n'
           '    particle.c = fieldset.%s[time + particle.dt, particle.depth, particle.lat, particle.lon]\n' % (q, q, q))
    n = 4
    start = np.array([pick_time(rng, f) for _ in range(n)])
    start[1:] = start[0]
    dt = float(choice(rng, [-1., 1.])) * f['unit'] * float(choice(rng, [.25, .5, .3]))
    ps = P.ParticleSet(fs, pclass=pc, lon=rng.uniform(1.1, 2.9, n), lat=rng.uniform(1.1, 1.9, n), depth=np.full(n, z), time=start + sh)
    k = ps.Kernel(mkkernel(src, 'SampleStages'))

    def late(particle, fieldset, time):
        particle.err = 1
        particle.delete()
    for _ in range(24 if scn['mode'] == 'jit' else 12):
        m = int(rng.integers(1, 4))
        ps.execute(k, runtime=abs(dt) * m, dt=dt, recovery={P.ErrorCode.ErrorTimeExtrapolation: late}, verbose_progress=False)
        if ps.size == 0:
            t = start[0]
            break
        for p in ps:
            rec.event('run:step')
            for v, frac in ((p.a, 0.), (p.b, .5), (p.c, 1.)):
                judge(rec, s, q, float(p.tk) + frac * dt - sh, (float(v),), 'ok', scn['mode'] + ' run')
        t = float(ps[0].tk)
