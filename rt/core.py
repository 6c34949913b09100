"""Scenario recorder shared by all checks."""
import hashlib
import json
import os
import sys
import types

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RT_REPO', '/repo')
JOBS = int(os.environ.get('RT_JOBS', '8'))


def import_parcels():
    """Import parcels from /repo, silencing its logger; tolerate a missing generated version file."""
    if not os.path.exists(os.path.join(REPO, 'parcels', '_version.py')) and 'parcels._version' not in sys.modules:
        m = types.ModuleType('parcels._version')
        m.version = '2.2.2'
        sys.modules['parcels._version'] = m
    import parcels
    assert os.path.realpath(parcels.__file__).startswith(REPO + '/'), parcels.__file__
    import logging
    from parcels.tools.loggers import logger
    logger.setLevel(logging.ERROR)
    return parcels


def rng_for(*key):
    """Deterministic numpy Generator for a key made of ints/strings."""
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (int, str)) or x is None:
        return x
    return repr(x)


class Rec(object):
    """Collects what the monitors observed in one scenario."""

    def __init__(self):
        self.counts = {}
        self.states = set()
        self.viol = []
        self.sample = None
        self.findings = set()

    def event(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def violation(self, key, msg, **details):
        if len(self.viol) < 5:
            self.viol.append({'key': key, 'msg': str(msg)[:2000], 'details': jsonable(details)})

    def finding(self, key):
        """A monitored run hit a listed known finding (by mechanism)."""
        self.findings.add(key)

    def setsample(self, **kw):
        if self.sample is None:
            self.sample = jsonable(kw)


class Inconclusive(Exception):
    pass
