"""C19: dates in all calendars are converted by day-count arithmetic of the monitor's own; release, end, field and output times given in every form are
compared with it, a field whose value is the absolute time is sampled through fields with other origins, and mixed kinds of time must be rejected."""
import datetime
import math
import re

import numpy as np

from rt.core import rng_for
from rt.gen import choice, mkkernel, workdir

RULE = ('a scenario is a calendar (numbers, numpy dates or one of six model calendars), a first date (leap days, year ends, centuries), two fields with origins of '
        'their own built in one of the ways, release times and a run specified in one of the forms; non-trivial = distinct (calendar, construction, form of '
        'release, form of end) with compared instants')
REQUIRED = {'converted': 1500, 'releases': 200, 'ends': 100, 'samples': 150, 'written': 200, 'rejected': 60, 'cal_datetime64': 25, 'cal_noleap': 5, 'cal_360_day': 5,
            'cal_julian': 5, 'cal_number': 10, 'leap_day': 10, 'other_origin': 60, 'restarted': 25, 'rewritten': 25, 'form_datetime': 8, 'form_date': 1,
            'form_timedelta': 4, 'form_cftime': 20, 'form_datetime64': 8, 'form_number': 15, 'form_duration': 12, 'build_xarray': 15, 'build_netcdf': 15,
            'build_timestamps': 3, 'build_data': 5}
ASSUMPTIONS = ['dates lie between 1700 and 2250, the range in which xarray decodes dates without loss']

CALS = ['noleap', '360_day', 'all_leap', 'julian', 'proleptic_gregorian', 'standard']
MONTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def scenarios(tier, seed):
    n = 200 if tier == 'quick' else 5000
    return [{'seed': seed, 'k': k} for k in range(n)]


def leap(cal, y):
    if cal == 'noleap':
        return False
    if cal == 'all_leap':
        return True
    if cal == 'julian':
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(cal, y, m):
    if cal == '360_day':
        return 30
    return MONTH[m - 1] + (1 if m == 2 and leap(cal, y) else 0)


def ylen(cal, y):
    return 360 if cal == '360_day' else 366 if leap(cal, y) else 365


_years = {}


def year_start(cal, y):
    """days from the start of 1600 to that of y"""
    if cal not in _years:
        t, tab = 0, {}
        for k in range(1600, 2400):
            tab[k] = t
            t += ylen(cal, k)
        _years[cal] = tab
    return _years[cal][y]


def seconds(cal, c):
    y, m, d, H, M, S = c[:6]
    days = year_start(cal, y) + sum(mlen(cal, y, k) for k in range(1, m)) + d - 1
    return days * 86400 + H * 3600 + M * 60 + S


def civil(cal, s):
    days, s = divmod(int(s), 86400)
    y = 1600
    while y + 1 < 2400 and year_start(cal, y + 1) <= days:
        y += 1
    days -= year_start(cal, y)
    m = 1
    while days >= mlen(cal, y, m):
        days -= mlen(cal, y, m)
        m += 1
    return (y, m, days + 1, s // 3600, s // 60 % 60, s % 60)


def pick(rng, cal):
    y = int(choice(rng, [1700, 1800, 1900, 1999, 2000, 2001, 2004, 2100, 2200, int(rng.integers(1700, 2240))]))
    m, d = choice(rng, [(2, 28), (2, 29), (3, 1), (12, 31), (12, 30), (1, 1), (int(rng.integers(1, 13)), int(rng.integers(1, 29)))])
    if d > mlen(cal, y, m):
        d = mlen(cal, y, m)
    return (y, m, d, int(choice(rng, [0, 0, 12, 23])), int(choice(rng, [0, 0, 30, 59])), int(choice(rng, [0, 0, 59, 7])))


def iso(c):
    return '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(c)


class Calendar(object):
    """the dates of a field set: numbers, numpy dates ('datetime64') or dates of a model calendar"""
    def __init__(self, name):
        import cftime
        self.name = name
        self.sec = 'proleptic_gregorian' if name == 'datetime64' else name
        self.cls = {'noleap': cftime.DatetimeNoLeap, '360_day': cftime.Datetime360Day, 'all_leap': cftime.DatetimeAllLeap,
                    'julian': cftime.DatetimeJulian, 'proleptic_gregorian': cftime.DatetimeProlepticGregorian,
                    'standard': cftime.DatetimeGregorian}.get(name)

    def date(self, s, unit='ns', form=None):
        """the object for s seconds after 1600"""
        if self.name == 'number':
            return float(s)
        c = civil(self.sec, s)
        if form == 'datetime':
            return datetime.datetime(*c)
        if form == 'date':
            return datetime.date(*c[:3])
        if self.name == 'datetime64':
            return np.datetime64(iso(c)).astype('M8[%s]' % unit)
        return self.cls(*c)

    def array(self, ss):
        if self.name == 'number':
            return np.array(ss, dtype=float)
        if self.name == 'datetime64':
            return np.array([self.date(s) for s in ss], dtype='M8[ns]')
        return np.array([self.date(s) for s in ss], dtype=object)


def converters(rec, rng, cal):
    from parcels.tools.converters import TimeConverter
    if cal.name == 'number':
        return True
    for _ in range(6):
        a, b = seconds(cal.sec, pick(rng, cal.sec)), seconds(cal.sec, pick(rng, cal.sec))
        ua, ub = choice(rng, ['s', 'ns', 'us', 'ms']), choice(rng, ['s', 'ns', 'us', 'm'])
        if cal.name == 'datetime64' and abs(a - b) > 250 * 365 * 86400:
            continue    # differences in nanoseconds
        if ub == 'm':
            b -= b % 60
        o, d = cal.date(a, ua), cal.date(b, ub)
        tc = TimeConverter(o)
        rel = float(tc.reltime(d))
        arr = tc.reltime(cal.array([b, a]))
        back = tc.fulltime(float(b - a))
        rec.event('converted', 4)
        ok = abs(rel - (b - a)) < 1e-4 and np.allclose(arr, [b - a, 0.], rtol=0, atol=1e-4) and back == d and TimeConverter(back) == d
        ok = ok and (TimeConverter(o) < TimeConverter(d)) == (a < b) and (TimeConverter(o) >= d) == (a >= b) and (tc != d) == (a != b)
        ok = ok and (TimeConverter(o) > TimeConverter(d)) == (a > b) and (TimeConverter(o) <= d) == (a <= b)
        if civil(cal.sec, b)[1:3] == (2, 29):
            rec.event('leap_day')
        if not ok:
            rec.violation('conversion', '%s: %s relative to %s is %r s (as an array %r) instead of %r, and back %s' % (
                cal.name, d, o, rel, arr, b - a, back))
            return False
    return True


def decode(values, units, calendar, default):
    """seconds after 1600 of the values in a file"""
    m = re.match(r'(\w+) since (\d+)-(\d+)-(\d+)(?:[T ](\d+):(\d+):(\d+)(\.\d*)?)?$', units)
    if not m:
        raise ValueError(units)
    g = [int(v or 0) for v in m.groups()[1:7]]
    mul = {'seconds': 1, 'hours': 3600, 'days': 86400, 'minutes': 60}[m.group(1)]
    cal = {'gregorian': 'standard', '365_day': 'noleap', '366_day': 'all_leap'}.get(calendar, calendar)
    base = seconds('proleptic_gregorian' if cal is None else cal, g) + float(m.group(8) or 0)
    return [base + float(v) * mul for v in values], cal


def run(scn, rec):
    import parcels as P
    rng = rng_for('C19', scn['seed'], scn['k'])
    cal = Calendar(choice(rng, CALS + ['datetime64'] * 4 + ['number']))
    rec.event('cal_' + cal.name)
    if not converters(rec, rng, cal):
        return
    with workdir():
        _run(P, rec, rng, cal)


def build(P, rng, cal, how, names, start, nt, step, value, fn):
    """fields of these names with nt snapshots every step seconds; the value of each is that of the absolute time"""
    import xarray as xr
    lon = lat = np.array([0., 1., 2.])
    ss = [start + step * k for k in range(nt)]
    data = {n: np.stack([np.full((3, 3), value(n, s)) for s in ss]).astype(np.float32) for n in names}
    if how == 'data':
        dims = {'time': cal.array(ss), 'lat': lat, 'lon': lon}
        if len(names) == 2:
            return P.FieldSet.from_data(data, dims, mesh='flat')
        # U and V are needed to make a field set
        f = P.FieldSet.from_data(dict(data, U=data[names[0]], V=data[names[0]]), dims, mesh='flat')
        return getattr(f, names[0])
    coords = {'y': lat, 'x': lon}
    dd = {'time': 't', 'lat': 'y', 'lon': 'x'}
    if how == 'timestamps':
        cuts = [0, int(rng.integers(1, nt)), nt]
        files, stamps = [], []
        for i in (0, 1):
            f = '%s_%d.nc' % (fn, i)
            xr.Dataset({n: (['t', 'y', 'x'], data[n][cuts[i]:cuts[i + 1]]) for n in names}, coords=coords).to_netcdf(f)
            files.append(f)
            stamps.append(np.array([cal.date(s) for s in ss[cuts[i]:cuts[i + 1]]]))
        dd = {'lat': 'y', 'lon': 'x'}
        if len(names) == 2:
            return P.FieldSet.from_netcdf(files, {n: n for n in names}, dd, mesh='flat', timestamps=stamps, allow_time_extrapolation=False)
        return P.Field.from_netcdf(files, (names[0], names[0]), dd, mesh='flat', timestamps=stamps, allow_time_extrapolation=False)
    ds = xr.Dataset({n: (['t', 'y', 'x'], data[n]) for n in names}, coords=dict(coords, t=cal.array(ss)))
    if how == 'xarray':
        if len(names) == 2:
            return P.FieldSet.from_xarray_dataset(ds, {n: n for n in names}, dd, mesh='flat')
        return P.Field.from_xarray(ds[names[0]], names[0], dd, mesh='flat')
    cut = int(rng.integers(1, nt))
    files = []
    for i, sl in enumerate([slice(0, cut), slice(cut, nt)]):
        f = '%s_%d.nc' % (fn, i)
        enc = {}
        if cal.name != 'number':
            ref = choice(rng, [(1900, 1, 1, 0, 0, 0), (1800, 3, 1, 12, 0, 0)])
            unit = choice(rng, [('hours', 3600), ('days', 86400), ('seconds', 1), ('minutes', 60)])
            enc = {'t': {'units': unit[0] + ' since ' + iso(ref).replace('T', ' '), 'dtype': 'float64'}}
            if cal.cls is not None:
                enc['t']['calendar'] = cal.name
        ds.isel(t=sl).to_netcdf(f, encoding=enc)
        files.append(f)
    if len(names) == 2:
        return P.FieldSet.from_netcdf(files, {n: n for n in names}, dd, mesh='flat', deferred_load=bool(rng.random() < .6))
    return P.Field.from_netcdf(files, (names[0], names[0]), dd, mesh='flat', deferred_load=bool(rng.random() < .6))


def mixing(P, rec, rng, cal, fs, origin):
    """kinds of time that do not go together are rejected"""
    import cftime
    wrong = []
    if cal.name != 'datetime64':
        wrong += [np.datetime64('2000-02-01T00:00:00'), datetime.datetime(2000, 2, 1), np.datetime64('2000-02-01', 'ns')]
    if cal.name == 'number':
        wrong += [np.timedelta64(5, 'm')]
    for c, cls in (('noleap', cftime.DatetimeNoLeap), ('360_day', cftime.Datetime360Day), ('julian', cftime.DatetimeJulian)):
        if cal.name != c:
            wrong.append(cls(2000, 2, 1))
    w = choice(rng, wrong)
    for where in ('release', 'end'):
        if where == 'end' and isinstance(w, np.timedelta64):
            continue
        rec.event('rejected')
        try:
            if where == 'release':
                ps = P.ParticleSet(fs, pclass=P.ScipyParticle, lon=[1.], lat=[1.], time=[w])
                got = [float(p.time) for p in ps]
            else:
                ps = P.ParticleSet(fs, pclass=P.ScipyParticle, lon=[1.], lat=[1.], time=[origin])
                ps.execute(P.AdvectionEE, endtime=w, dt=3600., verbose_progress=False)
                got = [float(p.time) for p in ps]
        except Exception:
            continue
        rec.violation('not rejected', '%s time %r of a particle in a field set with %s times is accepted as %r' % (where, w, cal.name, got))
        return False
    return True


def _run(P, rec, rng, cal):
    H = 3600
    mode = choice(rng, ['jit', 'scipy'])
    base = 0 if cal.name == 'number' else seconds(cal.sec, pick(rng, cal.sec))
    if cal.name != 'number' and civil(cal.sec, base)[1:3] == (2, 29):
        rec.event('leap_day')
    shift = int(rng.integers(-30, 20)) * H      # the origin of P relative to that of U and V
    if cal.name == 'number':
        shift = -abs(shift) if rng.random() < .5 else shift
    step1, step2, nt = int(choice(rng, [6, 12, 24])) * H, int(choice(rng, [4, 12, 36])) * H, int(rng.integers(3, 6))

    def value(n, s):
        return (s - base) / H if n == 'P' else 0.
    gregorian = cal.name in ('standard', 'proleptic_gregorian')     # read as numpy dates from files
    hows = ['xarray'] + (['netcdf'] * 2 if not gregorian else []) + (['data'] if cal.name in ('datetime64', 'number') else []) + (['timestamps'] if cal.name != 'number' else [])
    how, how2 = choice(rng, hows), choice(rng, hows)
    rec.event('build_' + how)
    rec.event('build_' + how2)
    nt2 = max(2, int(math.ceil((step1 * (nt - 1) - shift) / step2)) + 2)
    fs = build(P, rng, cal, how, ['U', 'V'], base, nt, step1, value, 'uv')
    fs.add_field(build(P, rng, cal, how2, ['P'], base + shift, nt2, step2, value, 'p'))
    if shift:
        rec.event('other_origin')
    lo, hi = max(base, base + shift), min(base + step1 * (nt - 1), base + shift + step2 * (nt2 - 1))
    if cal.name != 'number' and 'netcdf' in (how, how2):
        lo, hi = lo + H, hi - H     # the first and last date in a file may be rounded by a microsecond
    # from_xarray and from_netcdf take the first number as the origin, from_data takes zero
    zero = base
    fs.check_complete()
    if cal.name == 'number':
        zero = float(fs.time_origin.time_origin)
        if abs(zero - base) > 0:
            rec.violation('origin', 'the origin of times from %r is %r' % (base, zero))
            return
    details = dict(mode=mode, calendar=cal.name, base=None if cal.name == 'number' else iso(civil(cal.sec, base)), shift=shift, steps=(step1, step2),
                   nt=(nt, nt2), how=(how, how2))
    if rng.random() < .6 and not mixing(P, rec, rng, cal, fs, float(lo - base)):
        return
    nh = int((hi - lo) // H)
    if nh < 4:
        return
    sgn = choice(rng, [1, -1])
    # release times
    forms = ['number']
    if cal.name == 'datetime64':
        forms += ['datetime64', 'datetime64', 'datetime', 'datetime', 'date', 'date', 'date', 'timedelta']
    elif cal.cls is not None:
        forms += ['cftime', 'cftime', 'cftime', 'timedelta']
    form = choice(rng, forms)
    npart = int(rng.integers(1, 4))
    same = bool(rng.random() < .4)
    rel = [int(rng.integers(0, nh // 2)) * H + (lo if sgn > 0 else lo + (nh // 2) * H) for _ in range(npart)]
    if same:
        rel = rel[:1] * npart
    if form == 'date':
        days = [s for s in range(int(lo), int(hi) - H) if s % 86400 == 0] if (hi - lo) < 40 * 86400 else []
        if not days:
            form = 'datetime'
        else:
            rel = [int(choice(rng, days)) for _ in range(npart)]
    rec.event('form_' + form)

    def given(s, form):
        if form == 'number':
            return float(s - base)
        if form == 'timedelta':
            u = choice(rng, ['s', 'm', 'h', 'ns'])
            d = int(s - base)
            if d % {'s': 1, 'ns': 1, 'm': 60, 'h': 3600}[u]:
                u = 's'
            return np.timedelta64(d, 's').astype('m8[%s]' % u)
        if form in ('datetime', 'date'):
            return cal.date(s, form=form)
        return cal.date(s, unit=choice(rng, ['s', 'ns', 'us']))
    arg = [given(s, form) for s in rel]
    if rng.random() < .3 and npart > 1 and len(set(rel)) == 1:
        arg = arg[0]
    elif rng.random() < .3 and form in ('number', 'datetime64'):
        arg = np.array(arg)
    details.update(release=[str(a) for a in arg] if not np.isscalar(arg) and isinstance(arg, (list, np.ndarray)) else str(arg), form=form)
    base_cls = P.JITParticle if mode == 'jit' else P.ScipyParticle
    pc = type('MonP', (base_cls,), {'p': P.Variable('p', dtype=np.float64, initial=-1.), 'tt': P.Variable('tt', dtype=np.float64, initial=-1.)})
    ps = P.ParticleSet(fs, pclass=pc, lon=[1.] * npart, lat=[1.] * npart, time=arg)
    got = [float(p.time) for p in ps]
    for s, g in zip(rel, got):
        rec.event('releases')
        if abs(g - (s - base)) > 1e-3:
            rec.violation('release time', 'released at %r s instead of %r s after the origin' % (got, [v - base for v in rel]), **details)
            return
    # the run
    start = min(rel) if sgn > 0 else max(rel)
    room = int(((hi if sgn > 0 else lo) - start) * sgn // H)
    if room < 1:
        return
    n = int(rng.integers(1, min(room, 30) + 1))
    end = start + sgn * n * H
    if sgn < 0 and end < lo:
        return
    eforms = ['number', 'runtime', 'duration'] + (['datetime64', 'datetime'] if cal.name == 'datetime64' else ['cftime', 'cftime'] if cal.cls is not None else [])
    eform = choice(rng, eforms)
    rec.event('form_' + eform)
    kw = {}
    if eform == 'runtime':
        kw['runtime'] = float(n * H)
    elif eform == 'duration':
        kw['runtime'] = datetime.timedelta(hours=n)
    else:
        kw['endtime'] = given(end, eform)
    dt = datetime.timedelta(hours=sgn) if rng.random() < .5 else sgn * 3600.
    odt = int(choice(rng, [1, 2, 3]))
    details.update(end=str(kw), dt=str(dt), outputdt=odt, n=n)
    pf = ps.ParticleFile('out.nc', outputdt=datetime.timedelta(hours=odt) if rng.random() < .5 else odt * 3600.)
    kern = mkkernel('def Sample(particle, fieldset, time):\n    particle.p = fieldset.P[time, particle.depth, particle.lat, particle.lon]\n    particle.tt = time\n', 'Sample')
    ps.execute(kern, dt=dt, output_file=pf, verbose_progress=False, **kw)
    pf.export()
    pf.close()
    for p, s in zip(ps, rel):
        if (end - s) * sgn < 0:
            continue
        rec.event('ends')
        if abs(float(p.time) - (end - base)) > 1e-3:
            rec.violation('end time', 'ended at %r s instead of %r s after the origin' % (float(p.time), end - base), **details)
            return
        if (end - s) * sgn == 0:
            continue
        rec.event('samples')
        at = base + float(p.tt)
        if abs(float(p.p) - (at - base) / H) > 1e-4 * (1 + abs(at - base) / H):
            rec.violation('field time', 'the field sampled at %r s after the origin gives the value of %r s after it' % (float(p.tt), float(p.p) * H), **details)
            return
    # the file
    import xarray as xr
    raw = xr.open_dataset('out.nc', decode_cf=False)
    tv, attrs = raw.variables['time'].values, raw.variables['time'].attrs
    raw.close()
    if cal.name == 'number':
        off, fcal = [float(v) for v in tv.ravel()], None
        ok = attrs['units'] == 'seconds'
        inst = [base + v for v in off]
    else:
        inst, fcal = decode(tv.ravel(), attrs['units'], attrs.get('calendar'), None)
        ok = fcal == cal.name or (cal.name == 'datetime64' and fcal in ('standard', 'proleptic_gregorian', None))
    inst = np.array(inst).reshape(tv.shape)
    for i, row in enumerate(inst):
        row = [float(v) for v in row if v == v]
        rec.event('written', len(row))
        bad = [v for v in row if not (start - 1e-3 <= v * 1. <= end + 1e-3 if sgn > 0 else end - 1e-3 <= v <= start + 1e-3) or
               min(abs((v - start) / (H * odt) - round((v - start) / (H * odt))), abs(v - end), min(abs(v - s) for s in rel)) > 1e-3]
        if bad or not ok:
            rec.violation('written time', 'particle file (%r): row %d has the instants %r s after the origin; run from %r to %r' % (
                {k: attrs[k] for k in ('units', 'calendar') if k in attrs}, i, [v - base for v in row], start - base, end - base), **details)
            return
    # a restart from the file
    last = max(float(np.nanmax(inst)), -1e300) if sgn > 0 else float(np.nanmin(inst))
    rforms = ['function'] if sgn < 0 else ['default', 'function']
    if cal.name != 'number' and fs.time_origin.time_origin == cal.date(base):   # not rounded in a file
        rforms.append('date')
    rform = choice(rng, rforms)
    rec.event('restarted')
    if rform == 'default':
        rt = None
        last = float(np.nanmax(inst))
    elif rform == 'function':
        rt, last = (np.nanmin, float(np.nanmin(inst))) if rng.random() < .5 else (np.nanmax, float(np.nanmax(inst)))
    else:
        last = float(choice(rng, [v for v in inst.ravel() if v == v]))
        rt = cal.date(last)
    ps2 = P.ParticleSet.from_particlefile(fs, pclass=pc, filename='out.nc', restarttime=rt)
    g = sorted(float(p.time) for p in ps2)
    w = [last - base] * int((np.abs(inst - last) < 1e-3).sum())
    if len(g) != len(w) or any(abs(a - b) > 1e-3 for a, b in zip(g, w)):
        rec.violation('restart time', 'restarted (%s) with particles at %r instead of %r s after the origin' % (rform, g, w), **details)
        return
    # fields written to a file and read again
    if fs.U.grid.defer_load:
        fs.computeTimeChunk(float(lo - base), 1)
    if how in ('data', 'xarray'):
        rec.event('rewritten')
        fs.P.name, fs.U.name
        if not fs.P.grid.defer_load:
            fs.P.write('field', varname='P')
            f2 = P.Field.from_netcdf('fieldP.nc', ('P', 'P'), {'lon': 'nav_lon', 'lat': 'nav_lat', 'time': 'time_counter'}, mesh='flat', deferred_load=False)
            origin = f2.grid.time_origin
            first = fs.P.grid.time[0]
            okk = len(f2.grid.time_full) == len(fs.P.grid.time) and np.allclose(f2.grid.time_full, fs.P.grid.time - first, rtol=0, atol=1e-3)
            if cal.name != 'number':
                okk = okk and (gregorian or origin.calendar == fs.P.grid.time_origin.calendar)
                want = round(base + first)
                want = np.datetime64(iso(civil(cal.sec, want))) if gregorian else cal.date(want)
                okk = okk and abs(origin.reltime(want)) < 1e-3
            if not okk:
                rec.violation('field file', 'a field written and read again has the times %r after %s (%s) instead of %r after %s' % (
                    f2.grid.time_full.tolist(), origin, origin.calendar, (fs.P.grid.time - first).tolist(), None if cal.name == 'number' else cal.date(base + first)),
                    **details)
                return
    rec.state(cal.name, how, how2, form, eform, mode, rform)
    rec.setsample(**details)
