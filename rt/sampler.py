"""Run sampling kernels through ParticleSet.execute and record value or error kind per query."""
import numpy as np

from rt.gen import mkkernel

VEC = {'UV': ('a', 'b'), 'UVW': ('a', 'b', 'c')}


def kernel_source(q):
    loc = '[particle.qt, particle.qz, particle.qy, particle.qx]'
    if q in VEC:
        body = '(%s) = fieldset.%s%s' % (', '.join('t%s' % v for v in VEC[q]), q, loc)
        body += ''.join('\n    particle.%s = t%s' % (v, v) for v in VEC[q])
    else:
        body = 'particle.a = fieldset.%s%s' % (q, loc)
    return 'def Sample_%s(particle, fieldset, time):\n    %s\n    particle.n += 1\n' % (q, body)


class Sampler(object):
    """One particle per column of queries; rows are visited one after the other by the same particle."""

    def __init__(self, P, fs, mode, quantity, n, safe, double=False, start=None):
        self.P, self.fs, self.q, self.mode = P, fs, quantity, mode
        base = P.JITParticle if mode == 'jit' else P.ScipyParticle
        ct = np.float64 if double else np.float32
        ns = {}
        for v, dt in [('qx', ct), ('qy', ct), ('qz', ct), ('qt', np.float64), ('a', np.float32), ('b', np.float32),
                      ('c', np.float32), ('n', np.int32), ('err', np.int32), ('num', np.int32)]:
            ns[v] = P.Variable(v, dtype=dt, initial=0, to_write=False)
        self.pc = type('SampleP', (base,), ns)
        self.safe = safe
        lon, lat, dep = (start if start is not None else (np.full(n, safe[3]), np.full(n, safe[2]), np.full(n, safe[1])))
        self.pset = P.ParticleSet(fs, pclass=self.pc, lon=lon, lat=lat, depth=dep, time=np.zeros(n),
                                  lonlatdepth_dtype=ct)
        self.num = np.arange(n)
        self.kernel = self.pset.Kernel(mkkernel(kernel_source(quantity), 'Sample_' + quantity))
        EC = P.ErrorCode
        S = self

        def handler(code):
            def recover(particle, fieldset, time):
                particle.err = code
                particle.num += 1
                if particle.num > 20:
                    raise AssertionError('the recovery point %r of %s cannot be sampled (code %d)' % (S.safe, S.q, code))
                particle.qt, particle.qz, particle.qy, particle.qx = S.safe
            return recover
        self.rec = {EC.ErrorOutOfBounds: handler(1), EC.ErrorThroughSurface: handler(2), EC.ErrorTimeExtrapolation: handler(3),
                    EC.ErrorInterpolation: handler(4), EC.Error: handler(5)}

    def row(self, t, z, y, x):
        """Sample one query per particle: (list of value tuples, list of outcome names)."""
        ps = self.pset
        ids = [p.id for p in ps] if not hasattr(self, '_ids') else self._ids
        self._ids = ids
        for i, p in enumerate(ps):
            p.qt, p.qz, p.qy, p.qx = t[i], z[i], y[i], x[i]
            p.a = p.b = p.c = -777.
            p.n = p.num = 0
            p.err = 0
        ps.execute(self.kernel, runtime=0., dt=0., recovery=self.rec, verbose_progress=False)
        vals, outs, ns = [], [], []
        for p in ps:
            outs.append(['ok', 'oob', 'surface', 'time', 'sampling', 'error'][int(p.err)])
            vals.append((float(p.a), float(p.b), float(p.c))[:len(VEC.get(self.q, 'a'))])
            ns.append(int(p.n))
        return vals, outs, ns
