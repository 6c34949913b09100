"""C06: positions outside the data are always reported (with kind and coordinates), inside ones never; nested and summed fields.

Random field sets are sampled at positions inside, exactly on the outline, and outside in exactly one direction (by
0.1 % to 4000 % of a cell); the reference enumerates the cells and layers containing the position.  Nested fields
are checked against the first member containing the position, summed fields against the sum over members.
"""
import re

import numpy as np

from rt import fieldgen as fg
from rt.core import rng_for
from rt.gen import mkkernel
from rt.sampler import Sampler, VEC
from rt.checks.c03 import queries, outcome, brief
from rt.checks.c04 import metres

RULE = 'Every sample outside the extent must be reported with the right kind, every sample inside must succeed; nested = first member containing the position; summed = sum, failing if any member fails.'
REQUIRED = {'out:x': 150, 'out:y': 150, 'out:z': 100, 'inside-ok': 1500, 'outline-ok': 60, 'reported:oob': 300, 'reported:surface': 60,
            'default-error': 60, 'message-coordinates': 60, 'nested:first': 100, 'nested:later': 100, 'nested:none': 10, 'summed:ok': 10,
            'summed:fail': 10, 'curv-gap': 20, 'surface-fallback': 1, 'nested-vector': 20, 'summed-vector': 20}
ASSUMPTIONS = ['Curvilinear grids are smooth distortions of a regular grid.',
               'Summed members that fail in different ways may report either failure.']


def scenarios(tier, seed):
    n = 150 if tier == 'quick' else 2400
    out = []
    for k in range(n):
        part = ['single', 'nested', 'single', 'summed', 'error'][k % 5]
        q = k // 5
        out.append({'seed': [seed, k], 'part': part, 'mode': ['jit', 'scipy'][q % 2], 'stagger': 'AACABA'[(q // 2) % 6],
                    'kind': ['rz', 'cz', 'rs', 'cs', 'rz'][(q // 3) % 5], 'mesh': ['flat', 'spherical'][(q // 2) % 2]})
    return out


def spec_for(rng, scn, **kw):
    if scn['stagger'] == 'B' and scn['kind'][1] == 's':
        kw['kind'] = scn['kind'][0] + 'z'
    if scn['stagger'] != 'A':
        kw.setdefault('len1', False)
    if scn['stagger'] == 'B':
        kw['indexing'] = 'nemo'
    kw.setdefault('kind', scn['kind'])
    s = fg.make_spec(rng, scn['stagger'], mesh=scn['mesh'], **kw)
    return s


def run(scn, rec):
    import parcels as P
    rng = rng_for('c06', *scn['seed'])
    rec.event('part:' + scn['part'])
    globals()['part_' + scn['part']](P, scn, rec, rng)


def raw_units(P, fs):
    for f in fs.get_fields():
        for g in (f if isinstance(f, list) else [f]):
            if hasattr(g, 'units'):
                g.units = P.UnitConverter()


def expected(s, r, name, q):
    if s['stagger'] == 'A':
        from rt.checks.c03 import acceptable
        return acceptable(r, q, name)
    if name in VEC:
        return r.vector(name, *q)
    v, o = r.scalar(name, *q)
    return [(a,) for a in v], o


def curv_gap(rng, r):
    """Inside the bounding box, well outside the grid (None if there is no such place)."""
    for _ in range(60):
        x = float(np.float32(rng.uniform(r.lon.min(), r.lon.max())))
        y = float(np.float32(rng.uniform(r.lat.min(), r.lat.max())))
        w = .02 * min(np.ptp(r.lon), np.ptp(r.lat))
        if not any(r.cells(x + a * w, y + b * w) for a in (-1, 0, 1) for b in (-1, 0, 1)):
            q = fg.query(rng, r, 'in')
            return (q[0], q[1], y, x) if q else None
    return None


def mixed_queries(rng, r, n):
    """(query, kind) list; kind in in/edge/x/y/z/gap."""
    out = []
    while len(out) < n:
        u = rng.random()
        if u < .45:
            w = ['in', 'edge', 'near'][int(rng.integers(3))]
            q = fg.query(rng, r, w)
            if q is not None:
                out.append((q, 'edge' if w == 'edge' else 'in'))
        elif u < .9 or not r.curv or np.ptp(r.lon) > 180:
            o = fg.out_query(rng, r)
            if o is None:
                q = fg.query(rng, r, 'in')
                if q is not None:
                    out.append((q, 'in'))
            else:
                out.append((o[0], o[1][0]))
        else:
            q = curv_gap(rng, r)
            if q is not None:
                out.append((q, 'gap'))
            else:
                out.append((fg.query(rng, r, 'in'), 'in'))
                if out[-1][0] is None:
                    out.pop()
    return out


def part_single(P, scn, rec, rng):
    s = spec_for(rng, scn)
    r = fg.Ref(s)
    fs = fg.build(P, s)
    raw_units(P, fs)
    rec.state(s['kind'], s['mesh'], s.get('style'), tuple(s['shape']), s['stagger'], s['timemode'])
    names = [m for m in s['fields'] if m not in 'UVW'] + ['UVW' if 'W' in s['fields'] else 'UV']
    n, rows = (24, 4) if scn['mode'] == 'jit' else (10, 4)
    safe = fg.safe_point(s)
    qs = [mixed_queries(rng, r, n) for _ in range(rows)]
    for name in names:
        S = Sampler(P, fs, scn['mode'], name, n, safe, double=bool(rng.random() < .3))
        for row in qs:
            a = np.array([q for q, _ in row])
            vals, outs, cnt = S.row(*a.T)
            for (q, w), v, o in zip(row, vals, outs):
                judge(rec, s, r, scn['mode'], name, q, w, v, o)


def judge(rec, s, r, mode, name, q, w, v, o):
    acc, allow = expected(s, r, name, q)
    if w in 'xyz':
        rec.event('out:' + w)
    elif w == 'gap':
        rec.event('curv-gap')
    elif 'ok' in allow and o == 'ok':
        rec.event('outline-ok' if w == 'edge' else 'inside-ok')
    if o != 'ok':
        rec.event('reported:' + o)
    if o not in allow:
        rec.violation('outcome', '%s %s-grid %s: outcome %s, expected %s (%s)' % (mode, s['stagger'], name, o, sorted(allow), w),
                      field=name, kind=s['kind'], mesh=s['mesh'], style=s.get('style'), shape=s['shape'], timemode=s['timemode'],
                      query=dict(t=q[0], z=q[1], y=q[2], x=q[3]), spec=brief(s))
    rec.setsample(query=list(q), where=w, outcome=o, allowed=sorted(allow), mode=mode, field=name, kind=s['kind'])


# ------------------------------------------------------------------------------------------- nested and summed

def members(P, rng, scn, nm):
    """Field sets of nm independent A-grid specs with overlapping extents, and their references."""
    out = []
    base = None
    methods = ['linear', 'nearest', 'linear_invdist_land_tracer']
    zdim = [1, 3][int(rng.integers(2))]
    for k in range(nm):
        kind = scn['kind'] if rng.random() < .6 else 'rz'
        if kind[1] == 's':
            zdim = 3
        s = fg.make_spec(rng, 'A', kind=kind, mesh=scn['mesh'], zdim=zdim, len1=False, scale=1., methods=methods,
                         timemode=['extrap', 'extrap', 'strict'][int(rng.integers(3))], tdim=[1, 3][int(rng.integers(2))])
        # move next to the first one
        lon, lat = np.array(s['lon'], dtype=np.float32), np.array(s['lat'], dtype=np.float32)
        if s.get('style') in ('dateline', 'global', 'wide'):
            pass
        if base is None:
            base = (lon, lat)
        elif s.get('style', 'regional') == 'regional' and np.ptp(base[0]) < 180 and np.ptp(lon) < 180:
            f = float(rng.choice([.5, 1., 1.]))
            lon = np.float32((lon - lon.min()) * f + rng.uniform(base[0].min() - .3 * np.ptp(lon) * f, base[0].max() - .3 * np.ptp(lon) * f))
            lat = np.float32((lat - lat.min()) * f + rng.uniform(base[1].min() - .3 * np.ptp(lat) * f, base[1].max() - .3 * np.ptp(lat) * f))
            s['lon'], s['lat'] = lon.tolist(), lat.tolist()
        out.append(s)
    return out


def combo_queries(rng, refs, n):
    qs = []
    while len(qs) < n:
        r = refs[int(rng.integers(len(refs)))]
        if rng.random() < .75:
            q = fg.query(rng, r, 'in')
        else:
            o = fg.out_query(rng, r)
            q = o[0] if o else None
        if q is None:
            continue
        qs.append(q)
    return np.array(qs)


def part_nested(P, scn, rec, rng):
    combo(P, scn, rec, rng, 'nested')


def part_summed(P, scn, rec, rng):
    combo(P, scn, rec, rng, 'summed')


def combo(P, scn, rec, rng, kind):
    nm = int(rng.integers(2, 4))
    specs = members(P, rng, scn, nm)
    refs = [fg.Ref(s) for s in specs]
    rec.state(kind, scn['mode'], tuple((s['kind'], s['mesh'], tuple(s['shape'])) for s in specs))
    sets = []
    for s in specs:
        f = fg.build(P, s)
        raw_units(P, f)
        sets.append(f)
    scal = ['P', 'Q', 'L'][int(rng.integers(3))]
    if any(scal not in s['fields'] for s in specs):
        scal = 'P'
    has_w = all('W' in s['fields'] for s in specs) and rng.random() < .5
    comp = 'UVW' if has_w else 'UV'
    Us, Vs, Ws = ([getattr(f, c) for f in sets] if c in comp else None for c in 'UVW')
    Ts = [getattr(f, scal) for f in sets]
    for k in range(nm):
        for grp in (Us, Vs, Ws, Ts):
            if grp:
                grp[k].name = grp[k].name + str(k)
    cls = P.NestedField if kind == 'nested' else P.SummedField
    if kind == 'summed' and rng.random() < .5:

        def mk(nm_, fl):
            tot = fl[0] + fl[1]
            for f in fl[2:]:
                tot = tot + f
            return tot
    else:
        def mk(nm_, fl):
            return cls(nm_, fl)
    U, V = mk('U', Us), mk('V', Vs)
    fs = P.FieldSet(U, V)
    if has_w:
        fs.add_field(mk('W', Ws), 'W')
    fs.add_field(mk('T', Ts), 'T')
    n, rows = (16, 4) if scn['mode'] == 'jit' else (10, 3)
    # a position all members accept is not guaranteed: use one of the first member's for recovery and leave out 'repeat'
    both = [i for i in range(nm)]
    safe = None
    for _ in range(200):
        q = fg.query(rng, refs[int(rng.integers(nm))], 'in')
        if q is None:
            continue
        oks = [expected(specs[i], refs[i], comp, q)[1] == {'ok'} and expected(specs[i], refs[i], scal, q)[1] == {'ok'} for i in both]
        if (all(oks) if kind == 'summed' else oks[0] or (any(oks) and first_ok(specs, refs, scal, q))):
            safe = q
            break
    if safe is None:
        if kind == 'summed':
            rec.event('no-overlap')
            return
        safe = fg.safe_point(specs[0])
    for name in ('T', comp):
        S = Sampler(P, fs, scn['mode'], name, n, safe)
        for _ in range(rows):
            a = combo_queries(rng, refs, n)
            vals, outs, cnt = S.row(*a.T)
            for q, v, o in zip(a, vals, outs):
                m = [expected(specs[i], refs[i], comp if name == comp else scal, q) for i in range(nm)]
                (judge_nested if kind == 'nested' else judge_summed)(rec, scn, specs, name, q, v, o, m)


def first_ok(specs, refs, scal, q):
    for s, r in zip(specs, refs):
        o = expected(s, r, scal, q)[1]
        if o == {'ok'}:
            return True
        if o - {'oob', 'surface'}:
            return False
    return False


def close(v, acc, specs):
    tol = 4e-4 * 4 * 3
    return any(all(abs(a - b) <= tol for a, b in zip(v, w)) for w in acc)


def judge_nested(rec, scn, specs, name, q, v, o, m):
    allow, vals = set(), []
    for k, (acc, outc) in enumerate(m):
        allow |= outc - {'oob', 'surface'}
        if 'ok' in outc:
            vals += acc
            if k and not vals[:-len(acc) or None]:
                pass
        if not outc & {'oob', 'surface'}:
            break
        if k == len(m) - 1:
            allow |= outc & {'oob', 'surface'}
            if outc & {'oob', 'surface'}:
                allow |= {'oob'}
    rec.event('nested:' + ('first' if m[0][1] == {'ok'} else 'later' if o == 'ok' else 'none' if o in ('oob', 'surface') else o))
    if name in VEC:
        rec.event('nested-vector')
    if o not in allow:
        rec.violation('nested', '%s nested %s: outcome %s, expected %s' % (scn['mode'], name, o, sorted(allow)), query=list(q),
                      members=[sorted(x[1]) for x in m], kinds=[s['kind'] for s in specs])
    elif o == 'ok' and not close(v, vals, specs):
        rec.violation('nested', '%s nested %s: got %s, expected one of %s' % (scn['mode'], name, v, vals), query=list(q),
                      members=[[sorted(x[1]), x[0]] for x in m], kinds=[s['kind'] for s in specs])
    rec.setsample(query=list(q), outcome=o, value=v, members=[sorted(x[1]) for x in m])


def judge_summed(rec, scn, specs, name, q, v, o, m):
    allow = set()
    certain = False
    sums = [()]
    for acc, outc in m:
        allow |= outc - {'ok'}
        if 'ok' not in outc:
            certain = True
    if not certain:
        allow.add('ok')
        sums = [None]
        for acc, _ in m:
            sums = [tuple(a) if s is None else tuple(x + y for x, y in zip(s, a)) for s in sums for a in acc][:4000]
    rec.event('summed:' + ('ok' if o == 'ok' else 'fail'))
    if name in VEC:
        rec.event('summed-vector')
    if o not in allow:
        rec.violation('summed', '%s summed %s: outcome %s, expected %s' % (scn['mode'], name, o, sorted(allow)), query=list(q),
                      members=[sorted(x[1]) for x in m], kinds=[s['kind'] for s in specs])
    elif o == 'ok' and not close(v, sums, specs):
        rec.violation('summed', '%s summed %s: got %s, expected one of %s' % (scn['mode'], name, v, sums[:5]), query=list(q),
                      members=[[sorted(x[1]), x[0]] for x in m], kinds=[s['kind'] for s in specs])


# ---------------------------------------------------------------------------------------------- default errors

def part_error(P, scn, rec, rng):
    """Without a handler the error reaches the caller, of the right type and naming the coordinates."""
    s = spec_for(rng, scn, timemode='extrap')
    r = fg.Ref(s)
    fs = fg.build(P, s)
    raw_units(P, fs)
    names = [m for m in s['fields'] if m not in 'UVW'] + ['UV']
    types = {'oob': 'OutOfBoundsError', 'surface': 'ThroughSurfaceError'}
    base = P.JITParticle if scn['mode'] == 'jit' else P.ScipyParticle
    safe = fg.safe_point(s)
    for rep in range(5):
        oq = fg.out_query(rng, r)
        if oq is None:
            return
        q, d = oq
        name = names[int(rng.integers(len(names)))]
        acc, allow = expected(s, r, name, q)
        if len(allow) != 1 or not allow <= {'oob', 'surface'}:
            continue
        want = next(iter(allow))
        n = 1 if np.ndim(s['depth']) == 4 else int(rng.integers(1, 4))    # the safe position holds at one time only if levels move
        bad = int(rng.integers(n))
        pos = np.array([safe] * n, dtype=np.float64)
        pos[bad] = q
        pset = P.ParticleSet(fs, pclass=base, lon=pos[:, 3], lat=pos[:, 2], depth=pos[:, 1], time=np.full(n, q[0]))
        body = 'tmp = fieldset.%s[time, particle.depth, particle.lat, particle.lon]' % name if name not in VEC else \
            '(tu, tv) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]'
        k = pset.Kernel(mkkernel('def Sample(particle, fieldset, time):\n    %s\n' % body, 'Sample'))
        rec.event('default-error')
        rec.state('error', scn['mode'], s['kind'], s['mesh'], s['stagger'], d, want)
        if want == 'surface' and rng.random() < .5:
            # only an out-of-bounds handler: it must take the through-surface particle as well
            seen = []

            def handler(particle, fieldset, time):
                seen.append(particle.id)
                particle.delete()
            ids = [p.id for p in pset]
            try:
                pset.execute(k, runtime=0., dt=0., recovery={P.ErrorCode.ErrorOutOfBounds: handler}, verbose_progress=False)
                e = None
            except Exception as ex:
                e = ex
            rec.event('surface-fallback')
            if e is not None or seen != [ids[bad]]:
                rec.violation('fallback', '%s: through-surface particle with only an out-of-bounds handler: handled %s (expected %s), %r'
                              % (scn['mode'], seen, [ids[bad]], e), query=list(q))
            continue
        try:
            pset.execute(k, runtime=0., dt=0., verbose_progress=False)
            rec.violation('silent', '%s: position outside in %s: no error raised' % (scn['mode'], d), query=list(q), field=name, spec=brief(s))
            continue
        except Exception as e:
            msg, tn = str(e), type(e).__name__
        if tn != types[want]:
            rec.violation('error-type', '%s: position outside in %s raised %s, expected %s' % (scn['mode'], d, tn, types[want]), query=list(q))
            continue
        m = re.search(r'at \(([-+0-9.einfa]+), ([-+0-9.einfa]+), ([-+0-9.einfa]+)\)', msg)
        rec.event('message-coordinates')
        xyz = (q[3], q[2], q[1])
        if not m or any(abs(float(a) - b) > 1e-4 * max(1., abs(b)) for a, b in zip(m.groups(), xyz)):
            rec.violation('coordinates', '%s: message %r does not name the position %s' % (scn['mode'], msg[:300], xyz), query=list(q))
