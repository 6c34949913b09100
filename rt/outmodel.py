"""A small simulation with output, run for real and in a model: used by C11 and C12."""
import math

import numpy as np

from rt.gen import choice, pclass, quiet_fieldset


def Grow(particle, fieldset, time):
    particle.n += 1
    particle.age += math.fabs(particle.dt)
    particle.lon += 0.25 * particle.dt
    particle.lat += 0.5
    particle.depth += 0.125
    particle.vf += 1.5
    particle.vd -= 0.25
    particle.vi += 2
    particle.o1 += 1
    particle.o2 -= 1
    particle.hid += 1
    if particle.n >= particle.life:
        particle.delete()


VARS = dict(n=(np.int32, 0), age=(np.float64, 0.), vf=(np.float32, 1.), vd=(np.float64, 2.), vi=(np.int32, 3), o1=(np.float32, 10., 'once'),
            o2=(np.int32, 20, 'once'), hid=(np.float32, 30., False), life=(np.int32, 10**6, False))
STEPVARS = ['n', 'age', 'lon', 'lat', 'depth', 'vf', 'vd', 'vi', 'time']


def step(s, h):
    s['n'] += 1
    s['age'] += abs(h)
    s['lon'] += 0.25 * h
    s['lat'] += .5
    s['depth'] += .125
    s['vf'] += 1.5
    s['vd'] -= .25
    s['vi'] += 2
    s['o1'] += 1
    s['o2'] -= 1
    s['hid'] += 1
    s['time'] += h


class Sim(object):
    """Random plan; run_real() executes parcels, the model predicts the records of the output file."""

    def __init__(self, P, rng, mode, name='out', once=None, ondelete=None, dtype=None, repeat=True):
        self.P, self.rng, self.mode, self.name = P, rng, mode, name
        self.once = once if once is not None else rng.random() < 0.5
        self.ondelete = ondelete if ondelete is not None else rng.random() < 0.15
        self.dtype = dtype or choice(rng, [np.float32, np.float64])
        self.sign = choice(rng, [1, 1, 1, -1])
        self.dt = self.sign * choice(rng, [1., 2., .5, 60.])
        self.aligned = rng.random() < 0.7
        m = int(rng.integers(1, 5))
        self.outdt = abs(self.dt) * (m if self.aligned else m + choice(rng, [.5, .25, -.5]))
        self.n = int(rng.integers(1, 6))
        self.t0 = choice(rng, [0., 0., 16., -64.]) * abs(self.dt)
        spread = rng.integers(0, 8, self.n) if (self.aligned and rng.random() < 0.6) else np.zeros(self.n, int)
        self.rep = None
        if repeat and self.aligned and rng.random() < 0.3:
            self.rep = abs(self.dt) * int(rng.integers(1, 6))
            spread = np.zeros(self.n, int)
        self.starts = self.t0 + self.dt * spread
        self.life = np.where(rng.random(self.n) < 0.4, rng.integers(1, 14, self.n), 10**6)
        self.lon0 = rng.integers(-64, 64, self.n) / 4.
        self.lat0 = rng.integers(-64, 64, self.n) / 4.
        self.dep0 = rng.integers(0, 64, self.n) / 4.
        self.vf0 = rng.integers(0, 64, self.n) / 2.
        ncalls = int(rng.integers(1, 4))
        self.lens = [int(rng.integers(1, 13)) for _ in range(ncalls)]
        self.cbdt = abs(self.dt) * int(rng.integers(1, 4)) if (self.aligned and rng.random() < .25) else None
        self.hide = choice(rng, [None, None, 'vf', 'vd', 'lat'])
        self.addlater = bool(self.aligned and self.rep is None and rng.random() < .25)
        self.alive, self.records, self.onces = [], {}, {}
        self.lasttime = None
        self.batches = []       # ((execute call, signed time, 0 deletion/1 output), ids recorded) per write (for interruption checks)
        self.call = 0
        self.outputs = 0

    def pclass(self):
        v = dict(VARS)
        if not self.once:
            v['o1'] = (np.float32, 10., False)
            v['o2'] = (np.int32, 20, False)
        return pclass(self.P, self.mode, **v)

    def make(self, fs=None):
        self.fs = fs if fs is not None else quiet_fieldset(self.P, lo=-1e5, hi=1e5)
        self.pc = self.pclass()
        kw = {}
        if self.rep:
            kw['repeatdt'] = self.rep
        self.pset = self.P.ParticleSet(self.fs, pclass=self.pc, lon=self.lon0, lat=self.lat0, depth=self.dep0, time=self.starts, vf=self.vf0,
                                       life=self.life.astype(np.int32), lonlatdepth_dtype=self.dtype, **kw)
        if self.hide:
            self.pset.set_variable_write_status(self.hide, False)
        self.born(self.pset, self.starts)

    def born(self, pset, starts):
        for i, p in enumerate(pset):
            self.alive.append(self.newborn(int(p.id), starts[i], i))

    def newborn(self, ident, start, i):
        return dict(id=ident, lon=self.lon0[i], lat=self.lat0[i], depth=self.dep0[i], time=float(start), n=0, age=0., vf=self.vf0[i], vd=2., vi=3,
                    o1=10., o2=20., hid=30., life=int(self.life[i]))

    def file(self, **kw):
        return self.pset.ParticleFile(name=self.name, outputdt=self.outdt, write_ondelete=self.ondelete, **kw)

    # ---- model -------------------------------------------------------------------------------------------------
    def rec(self, s, regular=True):
        self.records.setdefault(s['id'], []).append({k: s[k] for k in STEPVARS})
        self.onces.setdefault(s['id'], (s['o1'], s['o2']))
        return s['id']

    def write(self, T):
        if self.lasttime == T or self.ondelete:
            if not self.ondelete:
                return
            return
        done = [self.rec(s) for s in self.alive if abs(s['time'] - T) <= abs(self.dt) / 2]
        self.lasttime = T
        self.outputs += 1
        self.batches.append(((self.call, self.sign * T, 1), done))

    def execute_model(self, endtime, release):
        """release(t) -> ids of new particles released at t"""
        sg = self.sign
        start = min(sg * s['time'] for s in self.alive) * sg
        if self.rep and not hasattr(self, 'repstart'):
            self.repstart = start
        self.write(start)
        evs = set()
        k = 1
        outs = set()
        while sg * (endtime - (start + sg * k * self.outdt)) > -1e-9:
            outs.add(start + sg * k * self.outdt)
            k += 1
        evs |= outs
        rels = set()
        if self.rep:
            k = 1
            while sg * (endtime - (self.repstart + sg * k * self.rep)) > -1e-9:
                t = self.repstart + sg * k * self.rep
                if sg * (t - start) > 1e-9:
                    rels.add(t)
                k += 1
        evs |= rels
        cb = self.cbdt or min([self.outdt] + ([self.rep] if self.rep else []))
        k = 1
        while sg * (endtime - (start + sg * k * cb)) > -1e-9:
            evs.add(start + sg * k * cb)
            k += 1
        evs.add(endtime)
        for E in sorted(evs, key=lambda t: sg * t):
            dead = []
            for s in self.alive:
                while sg * (E - s['time']) > 1e-9:
                    step(s, sg * min(abs(self.dt), abs(E - s['time'])))
                    if s['n'] >= s['life']:
                        dead.append(s)
                        break
            if dead:
                self.batches.append(((self.call, sg * E, 0), [self.rec(s) for s in dead]))
                self.alive = [s for s in self.alive if s not in dead]
            if E in rels:
                for i in range(self.n):
                    self.alive.append(self.newborn(None, E, i))
                self.name_new(release)
            if E in outs:
                self.write(E)
        self.write(endtime)

    def name_new(self, release):
        for s in self.alive:
            if s['id'] is None:
                s['id'] = release()

    # ---- both ----------------------------------------------------------------------------------------------------
    def run(self, pfile, between=None):
        """Runs all execute calls; released particles get consecutive identifiers (checked against the real set)."""
        for c, ln in enumerate(self.lens):
            if len(self.alive) == 0:
                break
            cur = min(self.sign * s['time'] for s in self.alive) * self.sign
            end = cur + ln * self.dt
            kw = {}
            if self.cbdt:
                kw = dict(callbackdt=self.cbdt, postIterationCallbacks=[lambda: None])
            self.call = c
            nid = [int(self.pset.collection.pclass.lastID)]
            self.pset.execute(Grow, endtime=end, dt=self.dt, output_file=pfile, **kw)

            def release():
                nid[0] += 1
                return nid[0] - 1
            self.execute_model(end, release)
            if between:
                between(c)
            if self.addlater and c == 0 and self.alive:
                k = self.rng.integers(1, 4)
                st = np.full(self.n, end + self.dt * k)
                new = self.P.ParticleSet(self.fs, pclass=self.pc, lon=self.lon0, lat=self.lat0, depth=self.dep0, time=st, vf=self.vf0,
                                         life=self.life.astype(np.int32), lonlatdepth_dtype=self.dtype)
                self.born(new, st)
                self.pset.add(new)
        return end

    def prefix(self, key, inclusive):
        """Records and once-values after all writes before (or up to) the write with this key."""
        pos, records = {}, {}
        for k, ids in self.batches:
            if k < key or (inclusive and k == key):
                for i in ids:
                    records.setdefault(i, []).append(self.records[i][pos.get(i, 0)])
                    pos[i] = pos.get(i, 0) + 1
        return records

    def expected_vars(self):
        vs = {'trajectory', 'time', 'lon', 'lat', 'z', 'n', 'age', 'vf', 'vd', 'vi'}
        if self.once:
            vs |= {'o1', 'o2'}
        if self.hide:
            vs.discard(self.hide)
        return vs

    def check_file(self, path, records=None, onces=None):
        """Compares a netCDF output file with the model; returns (None, n_records) or (problem, details)."""
        import netCDF4
        records = self.records if records is None else records
        onces = self.onces if onces is None else onces
        ds = netCDF4.Dataset(path)
        try:
            ds.set_auto_mask(False)
            names = set(ds.variables)
            if names != self.expected_vars():
                return 'variables', dict(got=sorted(names), expected=sorted(self.expected_vars()))
            traj = np.asarray(ds['trajectory'][:])
            tim = np.asarray(ds['time'][:])
            ids = sorted(records)
            if traj.shape[0] != len(ids):
                return 'trajectories', dict(got=traj.shape[0], expected=len(ids), ids=ids)
            cols = {v: np.asarray(ds[('z' if v == 'depth' else v)][:]) for v in STEPVARS if v != self.hide}
            nrec = 0
            rowids = []
            for r in range(traj.shape[0]):
                valid = np.isfinite(tim[r])
                nv = int(valid.sum())
                if nv == 0 or not valid[:nv].all():
                    return 'gap', dict(row=r, time=tim[r])
                rid = set(traj[r][:nv].tolist())
                if len(rid) != 1:
                    return 'mixed-row', dict(row=r, ids=traj[r].tolist())
                ident = rid.pop()
                rowids.append(ident)
                if ident not in records:
                    return 'unknown-id', dict(id=ident, expected=ids)
                exp = records[ident]
                got = [{v: float(cols[v][r, k]) for v in cols} for k in range(nv)]
                want = [{v: (float(np.float32(e[v])) if v not in ('time', 'lon', 'lat', 'depth') else float(e[v])) for v in cols} for e in exp]
                if got != want:
                    k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                    return 'records', dict(id=ident, n_got=len(got), n_expected=len(want), at=k, got=got[k:k + 1], expected=want[k:k + 1],
                                           times_got=[g['time'] for g in got], times_expected=[w['time'] for w in want])
                for v in cols:
                    if np.isfinite(cols[v][r, nv:]).any():
                        return 'stray-value', dict(id=ident, var=v, row=cols[v][r])
                if self.once:
                    for j, v in enumerate(['o1', 'o2']):
                        g = float(np.asarray(ds[v][:])[r])
                        if g != onces[ident][j]:
                            return 'once', dict(id=ident, var=v, got=g, expected=onces[ident][j])
                nrec += nv
            if len(set(rowids)) != len(rowids):
                return 'duplicate-trajectory', dict(ids=rowids)
            return None, nrec
        finally:
            ds.close()

    def describe(self):
        return dict(mode=self.mode, dt=self.dt, outputdt=self.outdt, starts=self.starts, life=self.life, steps_per_call=self.lens, repeatdt=self.rep,
                    callbackdt=self.cbdt, once=self.once, write_ondelete=self.ondelete, hidden=self.hide, addlater=self.addlater,
                    lonlatdepth=self.dtype.__name__, name=self.name)
