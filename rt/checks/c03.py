"""C03: sampling non-staggered fields is compared with an independent float64 reference of the documented interpolation.

Random field sets (rectilinear/curvilinear, z/s/time-varying s levels, flat/spherical, date line, global, reversed
latitudes, length-1 axes; linear, nearest and land-aware methods) are sampled through kernels in both modes and through
`fieldset.F[t, z, y, x]`; every particle visits several positions one after the other, so the search starts from the
cell of the previous position.  The oracle enumerates all cells and layers containing the position and accepts the
documented value of any of them.
"""
import itertools

import numpy as np

from rt import fieldgen as fg
from rt.core import rng_for
from rt.sampler import Sampler, VEC

RULE = 'Every recorded sample must be one of the values the documented interpolation gives for a cell containing the position.'
REQUIRED = {'sample:scalar': 2000, 'sample:vector': 1000, 'method:linear': 500, 'method:nearest': 500,
            'method:linear_invdist_land_tracer': 500, 'on-node': 100, 'eval:direct': 300, 'kind:rz': 1, 'kind:rs': 1, 'kind:cz': 1,
            'kind:cs': 1, 'depth4d': 1}
ASSUMPTIONS = ['Curvilinear grids are smooth distortions of a regular grid (rotated, sheared, stretched by up to 25 %).',
               'Positions are representable in single precision; within 2e-5 of a cell edge either cell is accepted.']


def scenarios(tier, seed):
    n = 160 if tier == 'quick' else 2400
    out = []
    for k in range(n):
        out.append({'seed': [seed, k], 'kind': ['rz', 'rs', 'cz', 'cs', 'rz'][k % 5], 'mesh': ['flat', 'spherical'][(k // 5) % 2],
                    'mode': ['jit', 'scipy'][(k // 10) % 2]})
    return out


def tolerance(r, s, name, vals):
    return (3e-4 if s['kind'][1] == 's' else 1e-4) * max(r.scale, 1.)


def queries(rng, r, n, rows, mix=('in', 'in', 'edge', 'near')):
    out = []
    for _ in range(rows):
        row = []
        while len(row) < n:
            q = fg.query(rng, r, mix[int(rng.integers(len(mix)))])
            if q is not None:
                row.append(q)
        out.append(np.array(row))
    return out


def acceptable(r, q, name):
    """Value tuples and outcomes allowed for quantity `name` (scalar field or plain velocity)."""
    if name not in VEC:
        v, o = r.scalar(name, *q)
        return [(a,) for a in v], o
    comps = [r.scalar(c, *q) for c in name]
    outs = set.union(*[o for _, o in comps])
    if 'time' in outs:
        outs = {'time'}
    vals = list(itertools.islice(itertools.product(*[v for v, _ in comps]), 3000))
    return vals, outs


def run(scn, rec):
    import parcels as P
    rng = rng_for('c03', *scn['seed'])
    s = fg.make_spec(rng, 'A', kind=scn['kind'], mesh=scn['mesh'])
    r = fg.Ref(s)
    fs = fg.build(P, s)
    for f in fs.get_fields():
        if hasattr(f, 'units'):
            f.units = P.UnitConverter()
    rec.event('kind:' + s['kind'])
    if np.ndim(s['depth']) == 4:
        rec.event('depth4d')
    rec.state(s['kind'], s['mesh'], s.get('style'), tuple(s['shape']), s['timemode'], s['dyadic'])
    n, rows = (24, 4) if scn['mode'] == 'jit' else (12, 3)
    qs = queries(rng, r, n, rows)
    safe = fg.safe_point(s)
    names = [m for m in s['fields'] if m not in 'UVW'] + ['UVW' if 'W' in s['fields'] else 'UV']
    for name in names:
        S = Sampler(P, fs, scn['mode'], name, n, safe, double=bool(rng.random() < .3))
        meth = s['fields'][name if name not in VEC else 'U']['method']
        for row in qs:
            vals, outs, cnt = S.row(*row.T)
            for q, v, o in zip(row, vals, outs):
                acc, allow = acceptable(r, q, name)
                check(rec, s, r, name, meth, q, v, o, acc, allow, scn['mode'])
                if len(acc) == 1 and not r.curv and r.x > 1 and r.y > 1:
                    i, j, a, b = r.cells(q[3], q[2])[0]
                    if a in (0., 1.) and b in (0., 1.):
                        rec.event('on-node')
    # direct evaluation without a particle
    for name in names:
        f = getattr(fs, name)
        meth = s['fields'][name if name not in VEC else 'U']['method']
        for q in qs[0][:6]:
            acc, allow = acceptable(r, q, name)
            try:
                v = f[q[0], q[1], q[2], q[3]]
                v = tuple(float(a) for a in v) if name in VEC else (float(v),)
                o = 'ok'
            except Exception as e:
                o = outcome(e)
                v = ()
            rec.event('eval:direct')
            check(rec, s, r, name, meth, q, v, o, acc, allow, 'eval')


def outcome(e):
    return {'FieldOutOfBoundError': 'oob', 'FieldOutOfBoundSurfaceError': 'surface', 'TimeExtrapolationError': 'time',
            'FieldSamplingError': 'sampling'}.get(type(e).__name__, 'exception %r' % e)


def check(rec, s, r, name, meth, q, v, o, acc, allow, mode):
    rec.event('sample:' + ('vector' if name in VEC else 'scalar'))
    rec.event('method:' + meth)
    rec.event('outcome:' + o)
    desc = dict(mode=mode, field=name, method=meth, kind=s['kind'], mesh=s['mesh'], style=s.get('style'), indexing=s['indexing'],
                shape=s['shape'], query=dict(t=q[0], z=q[1], y=q[2], x=q[3]), timemode=s['timemode'], period=s['period'], dyadic=s['dyadic'])
    if o not in allow:
        rec.violation('outcome', '%s %s %s: outcome %s, expected %s' % (mode, name, meth, o, sorted(allow)), spec=brief(s), **desc)
        return
    if o != 'ok':
        return
    tol = tolerance(r, s, name, acc)
    if not any(all(abs(a - b) <= tol for a, b in zip(v, w)) for w in acc):
        rec.violation('value', '%s %s %s: got %s, expected one of %s' % (mode, name, meth, v, acc), spec=brief(s), **desc)
    rec.setsample(query=list(q), value=v, acceptable=acc, **{k: desc[k] for k in ('mode', 'field', 'method', 'kind')})


def brief(s):
    return {k: s[k] for k in ('lon', 'lat', 'depth', 'time') if np.size(s[k]) < 200}
