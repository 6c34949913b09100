"""Shared generators: small field sets and particle classes."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(prefix='s')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def quiet_fieldset(P, u=0., v=0., xdim=4, ydim=4, lo=-1e6, hi=1e6, mesh='flat', extra=None, **kw):
    """Uniform flow on a big flat box, no time axis (extrapolation allowed)."""
    lon = np.linspace(lo, hi, xdim, dtype=np.float32)
    lat = np.linspace(lo, hi, ydim, dtype=np.float32)
    data = {'U': np.full((ydim, xdim), u, dtype=np.float32), 'V': np.full((ydim, xdim), v, dtype=np.float32)}
    if extra:
        data.update(extra)
    return P.FieldSet.from_data(data, {'lon': lon, 'lat': lat}, mesh=mesh, **kw)


def pclass(P, mode, **variables):
    """Particle class with extra variables: name=(dtype, initial[, to_write])."""
    base = P.JITParticle if mode == 'jit' else P.ScipyParticle
    ns = {}
    for name, spec in variables.items():
        kw = {}
        if len(spec) > 2:
            kw['to_write'] = spec[2]
        ns[name] = P.Variable(name, dtype=spec[0], initial=spec[1], **kw)
    return type('MonP', (base,), ns)


def choice(rng, xs):
    return xs[int(rng.integers(len(xs)))]


_NMOD = [0]


def mkkernel(src, name):
    """A kernel function whose source lies in a file of its own, as a user's script would have it."""
    import importlib.util
    _NMOD[0] += 1
    mod = 'monk_%d_%d' % (os.getpid(), _NMOD[0])
    path = os.path.join(tempfile.gettempdir(), mod + '.py')
    with open(path, 'w') as f:
        f.write('import math\nimport numpy as np\nfrom parcels import *  # noqa\nimport parcels.rng as ParcelsRandom\nimport random\n\n\n' + src + '\n')
    spec = importlib.util.spec_from_file_location(mod, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return getattr(m, name)
