"""C09: random histories of collection operations on several particle sets, compared after every operation with plain Python lists."""
import numpy as np

from rt.core import rng_for
from rt.gen import choice, pclass, quiet_fieldset, workdir

RULE = ('histories of 25-60 operations (create, add, remove by index/list/mask/ID/object, kernel deletion, assignment, look-ups, iteration) over '
        'several sets; non-trivial = distinct (operation, argument form, set size class, sortedness) observed and compared')
REQUIRED = {'ops': 5000, 'compared_particles': 20000, 'lookups': 1000, 'kernel_deletions': 100, 'adds': 200, 'removed': 1000, 'missing_id': 30}
ASSUMPTIONS = ['adding a set places its particles, in order, either after or before the existing ones',
               'a look-up of several identifiers may return them in any order; identifiers not in the set may be ignored or rejected']
FIELDS = ['id', 'lon', 'lat', 'depth', 'time', 'p', 'q', 'r', 'steps', 'kill']


def scenarios(tier, seed):
    n = 500 if tier == 'quick' else 3000
    return [{'seed': seed, 'k': k} for k in range(n)]


def Live(particle, fieldset, time):
    particle.steps += 1
    particle.lon += 0.5
    if particle.kill > 0:
        particle.delete()


VARS = dict(p=(np.float32, 5.), q=(np.float64, -1.), r=(np.int32, 0), steps=(np.int32, 0), kill=(np.float32, 0.))


class Bad(Exception):
    pass


def snap(p):
    return {f: float(getattr(p, f)) for f in FIELDS}


class Machine(object):
    def __init__(self, P, rng, rec, mode):
        self.P, self.rng, self.rec, self.mode = P, rng, rec, mode
        self.fs = quiet_fieldset(P)
        self.sets = []      # (pset, model list, lasttime)
        self.seen = set()
        self.uniq = 0.
        self.trace = []
        self.pc = [pclass(P, mode, **VARS), pclass(P, mode, **VARS)]

    def fail(self, key, msg, **kw):
        self.rec.violation(key, msg, mode=self.mode, trace=self.trace[-12:], **kw)
        raise Bad()

    def create(self, dtype=None):
        rng = self.rng
        n = int(choice(rng, [0, 1, 1, 2, 3, 4, 6]))
        c = 0
        dtype = dtype or choice(rng, [np.float32, np.float64])
        lon, lat, dep = rng.integers(-80, 80, n) / 8., rng.integers(-80, 80, n) / 8., rng.integers(0, 80, n) / 8.
        q = self.uniq + np.arange(n)
        self.uniq += n
        r = rng.integers(0, 1000, n)
        kw = {}
        given_p = rng.random() < 0.5 and n > 0
        if given_p:
            kw['p'] = rng.integers(0, 50, n) / 2.
        self.trace.append(('create', n, dtype.__name__))
        pset = self.P.ParticleSet(self.fs, pclass=self.pc[c], lon=lon, lat=lat, depth=dep, time=np.zeros(n), q=q, r=r.astype(np.int32),
                                  lonlatdepth_dtype=dtype, **kw)
        model = []
        got = [snap(p) for p in pset]
        if len(got) != n:
            self.fail('create-size', 'new set has the wrong size', got=len(got), expected=n)
        for i in range(n):
            d = dict(id=got[i]['id'], lon=lon[i], lat=lat[i], depth=dep[i], time=0., p=kw['p'][i] if given_p else 5., q=q[i], r=float(r[i]), steps=0., kill=0.)
            if d != got[i]:
                self.fail('create-values', 'new particle does not have the given values', got=got[i], expected=d)
            if d['id'] in self.seen:
                self.fail('id-reused', 'a new particle got an identifier that was used before', id=d['id'], created=n)
            self.seen.add(d['id'])
            model.append(d)
        self.sets.append([pset, model, c])
        self.note('create', n)

    def note(self, op, n, form=None):
        self.rec.event('ops')
        self.rec.state(op, form, min(n, 3), self.mode)

    def compare(self):
        for k, (pset, model, _) in enumerate(self.sets):
            got = [snap(p) for p in pset]
            if got != model or len(pset) != len(model) or pset.size != len(model):
                bad = next((i for i in range(min(len(got), len(model))) if got[i] != model[i]), None)
                self.fail('contents', 'set %d differs from the list model' % k, n_got=len(got), len=len(pset), n_expected=len(model), at=bad,
                          got=got[bad] if bad is not None else [g['id'] for g in got], expected=model[bad] if bad is not None else [m['id'] for m in model])
            for d, a in pset.collection.data.items():
                if a.shape[0] != len(model):
                    self.fail('ragged', 'variable %s has another length than the set' % d, n=a.shape[0], expected=len(model))
            self.rec.event('compared_particles', len(model))
            c = pset.collection
            for m in model:
                try:
                    q = float(c.get_single_by_ID(np.int64(m['id'])).q)
                except (ValueError, IndexError) as e:
                    q = repr(e)
                if q != m['q']:
                    self.fail('lookup', 'look-up of a present identifier did not return its particle', id=m['id'], got=q, expected=m['q'], ids=[x['id'] for x in model])
            if model:
                ids = [np.int64(m['id']) for m in model]
                got = sorted(float(p.q) for p in c.get_multi_by_IDs(ids))
                if got != sorted(m['q'] for m in model):
                    self.fail('lookup', 'look-up of all identifiers did not return all particles', got=got, ids=ids)
            self.rec.event('lookups', len(model) + 1)

    def pick(self, nonempty=False):
        c = [s for s in self.sets if s[1] or not nonempty]
        return choice(self.rng, c) if c else None

    def merge(self):
        """Several new sets merged in random order, so that identifiers interleave."""
        self.sets = self.sets[-2:]
        k = len(self.sets)
        dtype = choice(self.rng, [np.float32, np.float64])
        for _ in range(int(self.rng.integers(2, 5))):
            self.create(dtype)
        new = self.sets[k:]
        self.rng.shuffle(new)
        for b in new[1:]:
            self.add(new[0], b)
            self.compare()

    def add(self, a=None, b=None):
        if a is None:
            a, b = self.pick(), self.pick()
        if a is b or a[2] != b[2] or ({m['id'] for m in a[1]} & {m['id'] for m in b[1]}):
            return
        if a[0].collection.lonlatdepth_dtype != b[0].collection.lonlatdepth_dtype and a[1]:
            return
        if not a[1] and a[0].collection.lonlatdepth_dtype != b[0].collection.lonlatdepth_dtype:
            return
        form = choice(self.rng, ['add', 'iadd', 'coll'])
        self.trace.append(('add', form, [m['id'] for m in a[1]], [m['id'] for m in b[1]]))
        if form == 'add':
            a[0].add(b[0])
        elif form == 'iadd':
            ps = a[0]
            ps += b[0]
            if ps is not a[0]:
                self.fail('iadd', 'incremental add returned another object')
        else:
            a[0].collection.add_same(b[0].collection)
        new = [dict(m) for m in b[1]]
        ids = [float(p.id) for p in a[0]]
        if ids == [m['id'] for m in new + a[1]]:
            a[1][:] = new + a[1]
        else:
            a[1].extend(new)
        self.rec.event('adds')
        self.note('add', len(a[1]), form)

    def remove(self):
        s = self.pick(nonempty=True)
        if s is None:
            return
        pset, model, _ = s
        n = len(model)
        rng = self.rng
        form = choice(rng, ['idx', 'negidx', 'np32', 'list', 'array', 'bool', 'id', 'ids', 'idsarr', 'idsdict', 'obj', 'isub', 'removeidx', 'removelist', 'dup', 'idsmissing'])
        m = int(rng.integers(1, n + 1))
        sel = [int(x) for x in rng.choice(n, m, replace=False)]
        i = sel[0]
        one = form in ('idx', 'negidx', 'np32', 'id', 'obj', 'isub', 'removeidx')
        gone = {i} if one else set(sel)
        self.trace.append(('remove', form, sel if not one else i, n, [x['id'] for x in model]))
        c = pset.collection
        ids = [np.int64(model[j]['id']) for j in sel]
        if form == 'idx':
            pset.remove_indices(i)
        elif form == 'negidx':
            pset.remove_indices(i - n)
        elif form == 'np32':
            pset.remove_indices(np.int32(i))
        elif form == 'list':
            pset.remove_indices(sel)
        elif form == 'array':
            pset.remove_indices(np.array(sel))
        elif form == 'dup':
            pset.remove_indices(np.array(sel + sel[:1]))
        elif form == 'bool':
            mask = np.zeros(n, dtype=bool)
            mask[sel] = True
            pset.remove_booleanvector(mask)
        elif form == 'id':
            c.remove_single_by_ID(ids[0])
        elif form == 'ids':
            c.remove_multi_by_IDs(ids)
        elif form == 'idsmissing':
            try:
                c.remove_multi_by_IDs(ids + [np.int64(self.missing())])
            except (ValueError, KeyError, IndexError):
                gone = set()
            self.rec.event('missing_id')
        elif form == 'idsarr':
            c.remove_multi_by_IDs(np.array(ids))
        elif form == 'idsdict':
            c.remove_multi_by_IDs({k: v for k, v in enumerate(ids)})
        elif form == 'obj':
            c.remove_single_by_object(pset[i])
        elif form == 'isub':
            c -= pset[i]
        elif form == 'removeidx':
            c.remove(i)
        elif form == 'removelist':
            c.remove(sel)
        model[:] = [x for j, x in enumerate(model) if j not in gone]
        self.rec.event('removed', len(gone))
        self.note('remove', n, form)

    def missing(self):
        alive = {m['id'] for s in self.sets for m in s[1]}
        gone = [x for x in self.seen if x not in alive]
        return int(choice(self.rng, gone)) if gone and self.rng.random() < 0.7 else int(max(self.seen or [0]) + 1000)

    def kernel(self):
        s = self.pick(nonempty=True)
        if s is None:
            return
        pset, model, _ = s
        kills = 0
        for i, m in enumerate(model):
            if self.rng.random() < 0.25:
                pset[i].kill = 1.
                m['kill'] = 1.
                kills += 1
        t = max(m['time'] for m in model)
        self.trace.append(('execute', [m['id'] for m in model if m['kill']]))
        kw = {}
        if self.rng.random() < 0.3:
            kw['output_file'] = pset.ParticleFile(name='o%d' % len(self.trace), outputdt=1.)
        pset.execute(Live, endtime=t + 1, dt=1., **kw)
        new = []
        for m in model:
            nst = int(round(t + 1 - m['time']))
            if m['kill']:
                continue
            m['steps'] += nst
            m['lon'] += .5 * nst
            m['time'] = t + 1
            new.append(m)
        model[:] = new
        self.rec.event('kernel_deletions', kills)
        self.note('execute', len(model), bool(kw))

    def assign(self):
        s = self.pick(nonempty=True)
        if s is None:
            return
        i = int(self.rng.integers(len(s[1])))
        v = float(self.rng.integers(0, 1000))
        name = choice(self.rng, ['p', 'q', 'r', 'lon'])
        how = choice(self.rng, ['idx', 'iter', 'id'])
        self.trace.append(('assign', name, how, i))
        if how == 'idx':
            setattr(s[0][i], name, v)
        elif how == 'id':
            setattr(s[0].collection.get_single_by_ID(np.int64(s[1][i]['id'])), name, v)
        else:
            for j, p in enumerate(s[0]):
                if j == i:
                    setattr(p, name, v)
        s[1][i][name] = v
        self.note('assign', len(s[1]), how)

    def lookup(self):
        s = self.pick(nonempty=True)
        if s is None:
            return
        pset, model, _ = s
        n = len(model)
        c = pset.collection
        rng = self.rng
        form = choice(rng, ['idx', 'neg', 'id', 'obj', 'multi_idx', 'multi_id', 'multi_id_missing', 'missing', 'reversed', 'data_indices', 'subset', 'attr'])
        sel = [int(x) for x in rng.choice(n, int(rng.integers(1, n + 1)), replace=False)]
        i = sel[0]
        self.trace.append(('lookup', form, sel, [x['id'] for x in model]))
        want = [model[i]]
        if form == 'idx':
            got = [snap(pset[i])]
        elif form == 'neg':
            got = [snap(pset[i - n])]
        elif form == 'id':
            got = [snap(c.get_single_by_ID(np.int64(model[i]['id'])))]
        elif form == 'obj':
            got = [snap(c.get_single_by_object(pset[i]))]
        elif form == 'multi_idx':
            got, want = [snap(p) for p in c.get_multi_by_indices(sel)], [model[j] for j in sel]
        elif form == 'subset':
            got, want = [snap(p) for p in pset.indexed_subset(sel)], [model[j] for j in sel]
        elif form in ('multi_id', 'multi_id_missing'):
            ids = [np.int64(model[j]['id']) for j in sel]
            if form == 'multi_id_missing':
                ids.insert(int(rng.integers(0, len(ids) + 1)), np.int64(self.missing()))
                self.rec.event('missing_id')
            try:
                got = sorted((snap(p) for p in c.get_multi_by_IDs(choice(rng, [ids, np.array(ids)]))), key=lambda d: d['id'])
            except (ValueError, KeyError, IndexError) as e:
                if form == 'multi_id':
                    self.fail('lookup', 'look-up of present identifiers failed', error=repr(e), ids=ids)
                got = None
            want = sorted((model[j] for j in sel), key=lambda d: d['id'])
            if got is None:
                got = want
        elif form == 'missing':
            ident = np.int64(self.missing())
            if ident in [m['id'] for m in model]:
                return
            try:
                p = c.get_single_by_ID(ident)
                self.fail('lookup-missing', 'look-up of an absent identifier returned a particle', id=int(ident), got=snap(p))
            except (ValueError, KeyError, IndexError):
                self.rec.event('missing_id')
            return
        elif form == 'reversed':
            got, want = [snap(p) for p in reversed(c)], model[::-1]
        elif form == 'data_indices':
            v = model[i]['r']
            got = [int(x) for x in pset.data_indices('r', v)]
            want = [j for j in range(n) if model[j]['r'] == v]
        else:
            got = [float(x) for x in pset.q]
            want = [m['q'] for m in model]
        if got != want:
            self.fail('lookup', 'look-up (%s) returned other particles than asked for' % form, got=got[:4], expected=want[:4])
        self.rec.event('lookups')
        self.note('lookup', n, form)


def run(scn, rec):
    import parcels as P
    rng = rng_for('C09', scn['seed'], scn['k'])
    mode = choice(rng, ['jit', 'scipy'])
    with workdir():
        m = Machine(P, rng, rec, mode)
        try:
            m.create()
            nops = int(rng.integers(25, 60))
            for _ in range(nops):
                op = choice(rng, ['create', 'add', 'merge', 'remove', 'remove', 'kernel', 'assign', 'lookup', 'lookup', 'lookup'])
                if op == 'create' and len(m.sets) >= 5:
                    m.sets.pop(int(rng.integers(len(m.sets))))
                getattr(m, op)()
                m.compare()
            rec.setsample(mode=mode, trace=m.trace[:15], sizes=[len(s[1]) for s in m.sets])
        except Bad:
            pass
