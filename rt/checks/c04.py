"""C04: sampling C- and B-grids is compared with an independent reference built from face fluxes and model indexing.

For C-grids the reference turns the four (six) stored face values of the cell into face fluxes, interpolates the
fluxes and divides by the metric of the cell; for B-grids, tracers and vertical velocities it takes the corners,
faces and levels that the declared indexing convention prescribes.  On top of that every C-grid case is probed on
the faces of a cell: the recorded velocity times the face normal must be the stored face value, and the divergence
of the recorded flow must be the stored flux balance of the cell.
"""
import math

import numpy as np

from rt import fieldgen as fg
from rt.core import rng_for
from rt.sampler import Sampler, VEC
from rt.checks.c03 import outcome, queries, brief

RULE = 'Every recorded sample equals the value given by the stored faces/corners/centres of a cell containing the position.'
REQUIRED = {'sample:C:UV': 600, 'sample:C:UVW': 600, 'sample:C:T': 600, 'sample:B:UV': 300, 'sample:B:UVW': 300, 'sample:B:T': 300,
            'index:nemo': 1, 'index:mitgcm': 1, 'index:mom5': 1, 'index:pop': 1, 'face-normal': 300, 'divergence': 50, 'kind:cs': 1,
            'mesh:spherical': 1, 'mesh:flat': 1, 'mom5-top': 10}
ASSUMPTIONS = ['Curvilinear grids are smooth right-handed distortions of a regular grid.',
               'MITgcm indexing is exercised on z-level grids; staggered grids share one grid object between U, V and W.']


def scenarios(tier, seed):
    n = 96 if tier == 'quick' else 1600
    combos = [('C', 'nemo', k) for k in ('rz', 'cz', 'rs', 'cs')] + [('C', 'mitgcm', k) for k in ('rz', 'rz')] \
        + [('B', i, k) for i in ('nemo', 'mom5', 'pop') for k in ('rz', 'cz')]
    out = []
    for k in range(n):
        st, ind, kind = combos[k % len(combos)]
        q = k // len(combos)
        out.append({'seed': [seed, k], 'stagger': st, 'indexing': ind, 'kind': kind, 'mesh': ['flat', 'spherical'][q % 2],
                    'mode': ['jit', 'scipy'][(q // 2) % 2], 'deep': bool((q // 4) % 2 == 0)})
    return out


def run(scn, rec):
    import parcels as P
    rng = rng_for('c04', *scn['seed'])
    kw = {}
    if scn['kind'][1] == 'z':
        kw['zdim'] = int(rng.integers(2, 5)) if (scn['deep'] or scn['indexing'] in ('mom5', 'pop')) else 1
    s = fg.make_spec(rng, scn['stagger'], kind=scn['kind'], mesh=scn['mesh'], indexing=scn['indexing'], len1=False, **kw)
    r = fg.Ref(s)
    fs = fg.build(P, s)
    for f in fs.get_fields():
        if hasattr(f, 'units'):
            f.units = P.UnitConverter()
    rec.event('index:' + s['indexing'])
    rec.event('kind:' + s['kind'])
    rec.event('mesh:' + s['mesh'])
    rec.state(s['stagger'], s['indexing'], s['kind'], s['mesh'], tuple(s['shape']), s['timemode'])
    n, rows = (24, 4) if scn['mode'] == 'jit' else (10, 3)
    names = ['T', 'UV'] + (['UVW'] if 'W' in s['fields'] else [])
    safe = fg.safe_point(s)
    qs = queries(rng, r, n, rows)
    for name in names:
        S = Sampler(P, fs, scn['mode'], name, n, safe, double=bool(rng.random() < .5))
        for row in qs:
            vals, outs, _ = S.row(*row.T)
            for q, v, o in zip(row, vals, outs):
                check(rec, s, r, name, q, v, o, scn['mode'])
    if s['stagger'] == 'C':
        probe_faces(P, rec, rng, s, r, fs, scn['mode'], safe)


def metres(s, q):
    """Factor turning recorded C-grid velocities into m/s (they come out in degrees/s on the sphere)."""
    return (fg.DEG2M * math.cos(math.radians(q[2])), fg.DEG2M, 1.) if s['mesh'] == 'spherical' and s['stagger'] == 'C' else (1., 1., 1.)


def check(rec, s, r, name, q, v, o, mode):
    rec.event('sample:%s:%s' % (s['stagger'], name))
    rec.event('outcome:' + o)
    if name in VEC:
        acc, allow = r.vector(name, *q)
        f = metres(s, q)
        v = tuple(a * b for a, b in zip(v, f))
    else:
        acc, allow = r.scalar(name, *q)
        acc = [(a,) for a in acc]
    if s['indexing'] == 'mom5' and r.z > 1 and q[1] < r.depth.ravel()[0]:
        rec.event('mom5-top')
    desc = dict(mode=mode, field=name, stagger=s['stagger'], indexing=s['indexing'], kind=s['kind'], mesh=s['mesh'], style=s.get('style'),
                shape=s['shape'], query=dict(t=q[0], z=q[1], y=q[2], x=q[3]), timemode=s['timemode'], period=s['period'])
    if o not in allow:
        rec.violation('outcome', '%s %s-grid %s: outcome %s, expected %s' % (mode, s['stagger'], name, o, sorted(allow)), spec=brief(s), **desc)
    elif o == 'ok':
        ok = any(all(abs(a - b) <= 5e-4 * max(max(abs(c) for c in w), r.scale) for a, b in zip(v, w)) for w in acc)
        if not ok:
            rec.violation('value', '%s %s-grid(%s) %s: got %s, expected one of %s' % (mode, s['stagger'], s['indexing'], name, v, acc),
                          spec=brief(s), **desc)
        rec.setsample(query=list(q), value=v, acceptable=acc, **{k: desc[k] for k in ('mode', 'field', 'stagger', 'indexing', 'kind')})


def probe_faces(P, rec, rng, s, r, fs, mode, safe):
    """Normal velocity on cell faces equals the stored value; the 2-D flow's divergence is the cell's flux balance."""
    t = float(r.time[int(rng.integers(len(r.time)))])
    kk = int(rng.integers(max(r.z - 1, 1)))
    tn = list(r.time).index(t)
    if s['period'] and tn == len(r.time) - 1:
        tn, t = 0, float(r.time[0])
    ju, iv, _ = r._faces(0, 0)
    probes = []
    for _ in range(12):
        i, j = int(rng.integers(r.x - 1)), int(rng.integers(r.y - 1))
        px, py = r.corners(i, j)

        def at(a, b):
            ph = np.array([(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b])
            return float(ph @ px), float(ph @ py)
        e = float(rng.uniform(.1, .9))
        U, V = r.data['U'][tn, kk], r.data['V'][tn, kk]
        for (a, b, c0, c1, val, sgn) in [(0., e, 0, 3, U[j + ju, i], 1), (1., e, 1, 2, U[j + ju, i + 1], 1),
                                         (e, 0., 0, 1, V[j, i + iv], -1), (e, 1., 3, 2, V[j + 1, i + iv], -1)]:
            # step inside by 1e-3 of a cell so that both search directions find this cell
            h = 2e-3
            a, b = min(max(a, h), 1 - h), min(max(b, h), 1 - h)
            x, y = at(a, b)
            if r.sph and (x > r.lon.max() or x < r.lon.min()):
                x = x - 360 if x > r.lon.max() else x + 360
            sc = np.array([fg.DEG2M * math.cos(math.radians(y)), fg.DEG2M]) if r.sph else np.ones(2)
            tang = np.array([px[c1] - px[c0], py[c1] - py[c0]]) * sc
            tang = tang / np.linalg.norm(tang)
            nrm = np.array([tang[1], -tang[0]]) * sgn
            probes.append((x, y, nrm, val))
    z = 0.
    zs = []
    for x, y, _, _ in probes:
        if r.z > 1:
            cs = r.cells(x, y)
            if not cs:
                return
            col = r.column(*cs[0], t)
            z = .5 * (col[kk] + col[kk + 1])
        zs.append(z)
    m = len(probes)
    S = Sampler(P, fs, mode, 'UV', m, safe, double=True)
    vals, outs, _ = S.row([t] * m, zs, [p[1] for p in probes], [p[0] for p in probes])
    k = 0
    big = max(np.abs(r.data['U']).max(), np.abs(r.data['V']).max())
    for c in range(0, m, 4):
        for (x, y, nrm, val), v, o in zip(probes[c:c + 4], vals[c:c + 4], outs[c:c + 4]):
            if o != 'ok':
                continue
            f = metres(s, (t, 0., y, x))
            vn = v[0] * f[0] * nrm[0] + v[1] * f[1] * nrm[1]
            rec.event('face-normal')
            # 2e-3 of a cell away from the face: allow the variation over that distance and of the metric
            if abs(vn - val) > .03 * big:
                rec.violation('face-normal', '%s: normal velocity %.6g next to a face that stores %.6g' % (mode, vn, val), x=x, y=y, t=t, kind=s['kind'],
                              mesh=s['mesh'], indexing=s['indexing'], shape=s['shape'], spec=brief(s))
            k += 1
    if r.curv or r.sph:
        return
    # divergence on flat rectilinear cells: du/dx + dv/dy from differences of recorded velocities
    for _ in range(6):
        i, j = int(rng.integers(r.x - 1)), int(rng.integers(r.y - 1))
        dx, dy = r.lon[i + 1] - r.lon[i], r.lat[j + 1] - r.lat[j]
        x, y = r.lon[i] + dx * rng.uniform(.3, .7), r.lat[j] + dy * rng.uniform(.3, .7)
        U, V = r.data['U'][tn, kk], r.data['V'][tn, kk]
        want = (U[j + ju, i + 1] - U[j + ju, i]) / dx + (V[j + 1, i + iv] - V[j, i + iv]) / dy
        if r.z > 1:
            cs = r.cells(x, y)
            col = r.column(*cs[0], t)
            z = .5 * (col[kk] + col[kk + 1])
            if r.depth.ndim > 1:
                ok = True
                for a, b in ((-.2, 0), (.2, 0), (0, -.2), (0, .2)):
                    cs = r.cells(x + a * dx, y + b * dy)
                    cc = r.column(*cs[0], t)
                    ok &= min(cc[kk], cc[kk + 1]) < z < max(cc[kk], cc[kk + 1])
                if not ok:
                    continue
        pts = [(x - .2 * dx, y), (x + .2 * dx, y), (x, y - .2 * dy), (x, y + .2 * dy)]
        S2 = Sampler(P, fs, mode, 'UV', 4, safe, double=True)
        v, o, _ = S2.row([t] * 4, [z] * 4, [p[1] for p in pts], [p[0] for p in pts])
        if set(o) != {'ok'}:
            continue
        rec.event('divergence')
        got = (v[1][0] - v[0][0]) / (.4 * dx) + (v[3][1] - v[2][1]) / (.4 * dy)
        if abs(got - want) > 2e-3 * big * (1 / dx + 1 / dy):
            rec.violation('divergence', '%s: divergence %.6g, flux balance of the cell %.6g' % (mode, got, want), x=x, y=y, kind=s['kind'],
                          indexing=s['indexing'], spec=brief(s))
