"""C02: the same field set, queries and search history in interpreted and in compiled mode must give the same samples and errors.

Both modes run the same sampling kernels over the same rows of positions (inside, on nodes/edges, outside in space or
time), scalar, vector, summed and nested fields on A-, B- and C-grids, with the real unit conversion.  The recorded
(value, outcome) pairs are compared; the field reference only says where the answer is ambiguous at single precision
(within 2e-5 of a cell edge), except on exactly representable rectilinear grids where even edge ties must agree.
"""
import numpy as np

from rt import fieldgen as fg
from rt.core import rng_for
from rt.sampler import Sampler, VEC
from rt.checks.c03 import brief
from rt.checks import c06

RULE = 'Every pair of samples (compiled, interpreted) at the same position, time and search history must have the same outcome and value.'
REQUIRED = {'pair:A': 1500, 'pair:B': 400, 'pair:C': 400, 'pair:exact-edge': 20, 'both:oob': 100, 'both:surface': 20, 'both:time': 20,
            'pair:summed': 100, 'pair:nested': 100, 'mixed-methods': 20, 'units': 300, 'pair:eval': 200}
ASSUMPTIONS = ['Curvilinear grids are smooth right-handed distortions of a regular grid.', 'Within 2e-5 of a cell edge (or a tie) the two modes may pick different sides unless all coordinates are exactly representable.']


def scenarios(tier, seed):
    n = 128 if tier == 'quick' else 2000
    combos = [('A', 'nemo', k) for k in ('rz', 'rs', 'cz', 'cs', 'rz', 'rz')] + [('C', 'nemo', k) for k in ('rz', 'cz', 'rs', 'cs')] + \
        [('C', 'mitgcm', 'rz')] + [('B', i, k) for i, k in (('nemo', 'rz'), ('mom5', 'rz'), ('pop', 'rz'), ('mom5', 'cz'), ('pop', 'cz'))]
    out = []
    for k in range(n):
        st, ind, kind = combos[k % 16]
        q = k // 16
        part = 'plain' if (st != 'A' or q % 4 < 2) else ['summed', 'nested'][q % 2]
        out.append({'seed': [seed, k], 'part': part, 'stagger': st, 'indexing': ind, 'kind': kind, 'mesh': ['flat', 'spherical'][(q + k) % 2]})
    return out


def run(scn, rec):
    import parcels as P
    rng = rng_for('c02', *scn['seed'])
    if scn['part'] != 'plain':
        return combos(P, scn, rec, rng)
    kw = {} if scn['stagger'] == 'A' else dict(len1=False, indexing=scn['indexing'])
    if scn['stagger'] == 'B':
        kw['zdim'] = int(rng.integers(2, 5))
    s = fg.make_spec(rng, scn['stagger'], kind=scn['kind'], mesh=scn['mesh'], **kw)
    r = fg.Ref(s)
    names = [m for m in s['fields'] if m not in 'UVW'] + ['UVW' if 'W' in s['fields'] else 'UV']
    if 'W' in s['fields'] and s['stagger'] != 'C':
        names.append('UV')
    meths = {s['fields'][c]['method'] for c in 'UVW' if c in s['fields']}
    rec.state(s['kind'], s['mesh'], s.get('style'), tuple(s['shape']), s['stagger'], s['indexing'], s['timemode'], tuple(sorted(meths)))
    safe = fg.safe_point(s)
    n, rows = 14, 3
    mixed = [c06.mixed_queries(rng, r, n) for _ in range(rows)]
    dbl = bool(rng.random() < .4)
    raw = rng.random() < .3
    S = {}
    for mode in ('jit', 'scipy'):
        fs = fg.build(P, s)
        if raw:
            c06.raw_units(P, fs)
        S[mode] = fs, {name: Sampler(P, fs, mode, name, n, safe, double=dbl) for name in names}
    for name in names:
        deg = name in VEC and s['mesh'] == 'spherical' and (not raw or s['stagger'] == 'C')
        for row in mixed:
            a = np.array([q for q, _ in row])
            res = {m: S[m][1][name].row(*a.T) for m in S}
            for k in range(n):
                q, w = row[k]
                j = (res['jit'][0][k], res['jit'][1][k])
                p = (res['scipy'][0][k], res['scipy'][1][k])
                acc, allow = c06.expected(s, r, name, q)
                rec.event('pair:' + s['stagger'])
                if not raw and s['mesh'] == 'spherical' and name in VEC:
                    rec.event('units')
                if name in VEC and len(meths) > 1 and s['stagger'] == 'A':
                    rec.event('mixed-methods')
                exact = w == 'edge' and s['kind'] == 'rz' and s['dyadic'] and dbl and len(acc) > 1
                if exact:
                    rec.event('pair:exact-edge')
                compare(rec, s, name, q, j, p, len(allow) == 1 or exact, len(acc) == 1 or exact or same(acc), r.scale, deg)
        # direct evaluation agrees with the interpreted kernel
        if not r.curv:
            for q, _ in mixed[0][:5]:
                acc, allow = c06.expected(s, r, name, q)
                f = getattr(S['jit'][0], name)
                from rt.checks.c03 import outcome
                try:
                    v = f[q[0], q[1], q[2], q[3]]
                    e = (tuple(float(x) for x in (v if name in VEC else (v,))), 'ok')
                except Exception as ex:
                    e = ((), outcome(ex))
                p = S['scipy'][1][name].row(*np.array([q] * n).T)
                rec.event('pair:eval')
                compare(rec, s, name, q, e, (p[0][0], p[1][0]), len(allow) == 1, len(acc) == 1 or same(acc), r.scale, deg, 'direct')


def same(acc):
    return all(all(abs(a - b) < 1e-9 for a, b in zip(acc[0], w)) for w in acc) if acc else False


def compare(rec, s, name, q, j, p, strict_outcome, strict_value, sc, degrees, first='compiled'):
    if j[1] == p[1]:
        rec.event('both:' + j[1])
    if j[1] != p[1]:
        if strict_outcome:
            rec.violation('outcome', '%s %s: %s, interpreted: %s' % (name, first, j, p), query=dict(zip('tzyx', q)), kind=s['kind'], mesh=s['mesh'],
                          stagger=s['stagger'], indexing=s['indexing'], style=s.get('style'), shape=s['shape'], spec=brief(s))
        return
    if j[1] != 'ok' or not strict_value:
        return
    rel = 6e-4 if s['kind'][1] == 's' or s['kind'][0] == 'c' or s['stagger'] == 'C' else 2e-4
    if degrees:
        rel, sc = 2e-3, sc / fg.DEG2M
    if len(j[0]) > 1:
        sc = max(sc, .05 * max(abs(a) for a in p[0][:2]))
    for a, b in zip(j[0], p[0]):
        tol = rel * max(abs(a), abs(b), sc)
        if not abs(a - b) <= tol:
            rec.violation('value', '%s %s: %s, interpreted: %s' % (name, first, j[0], p[0]), query=dict(zip('tzyx', q)), kind=s['kind'], mesh=s['mesh'],
                          stagger=s['stagger'], indexing=s['indexing'], style=s.get('style'), shape=s['shape'], spec=brief(s))
            return
    rec.setsample(query=list(q), compiled=j, interpreted=p, field=name, kind=s['kind'], stagger=s['stagger'])


def combos(P, scn, rec, rng):
    for _ in range(6):
        nm = int(rng.integers(2, 4))
        specs = c06.members(P, rng, scn, nm)
        refs = [fg.Ref(s) for s in specs]
        w3 = all('W' in s['fields'] for s in specs) and rng.random() < .5
        comp = 'UVW' if w3 else 'UV'
        safe = recovery_point(scn, rng, specs, refs, comp)
        if safe is not None:
            break
    else:
        rec.event('no-overlap')
        return
    cls = P.NestedField if scn['part'] == 'nested' else P.SummedField
    raw = rng.random() < .4
    n, rows = 10, 3
    qs = [c06.combo_queries(rng, refs, n) for _ in range(rows)]
    dbl = bool(rng.random() < .4)
    res = {}
    rec.state(scn['part'], comp, tuple((s['kind'], s['mesh'], tuple(s['shape'])) for s in specs))
    for mode in ('jit', 'scipy'):
        sets = [fg.build(P, s) for s in specs]
        if raw:
            for f in sets:
                c06.raw_units(P, f)
        grp = {c: [getattr(f, c) for f in sets] for c in comp + 'P'}
        for k in range(nm):
            for g in grp.values():
                g[k].name += str(k)
        fs = P.FieldSet(cls('U', grp['U']), cls('V', grp['V']))
        if w3:
            fs.add_field(cls('W', grp['W']), 'W')
        fs.add_field(cls('T', grp['P']), 'T')
        for name in ('T', comp):
            S = Sampler(P, fs, mode, name, n, safe, double=dbl)
            res[mode, name] = [S.row(*a.T) for a in qs]
    s0 = dict(specs[0], kind='cs')
    for name in ('T', comp):
        deg = name in VEC and scn['mesh'] == 'spherical' and not raw
        for ri, a in enumerate(qs):
            for k in range(n):
                q = tuple(a[k])
                m = [c06.expected(specs[i], refs[i], comp if name == comp else 'P', q) for i in range(nm)]
                rec.event('pair:' + scn['part'])
                rec.event('pair:A')
                strict = all(len(o) == 1 for _, o in m)
                single = all(len(v) <= 1 or same(v) for v, _ in m)
                errs = {next(iter(o)) for _, o in m} - {'ok'}
                j, p = res['jit', name][ri], res['scipy', name][ri]
                compare(rec, s0, name, q, (j[0][k], j[1][k]), (p[0][k], p[1][k]), strict and len(errs) <= 1, single, max(r.scale for r in refs), deg)


def recovery_point(scn, rng, specs, refs, comp):
    """A position all members accept (summed fields) or the first one accepts (nested)."""
    safe = fg.safe_point(specs[0])
    if scn['part'] == 'nested':
        return safe
    for _ in range(200):
        if all(all(expected_in(specs, refs, nmn, safe)) for nmn in ('P', comp)):
            return safe
        q = None
        while q is None:
            q = fg.query(rng, refs[int(rng.integers(len(refs)))], 'in')
        safe = q
    return None


def expected_in(specs, refs, name, q):
    return [c06.expected(s, r, name, q)[1] == {'ok'} for s, r in zip(specs, refs)]
