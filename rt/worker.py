"""Worker process: runs scenarios of one check and streams what was observed."""
import faulthandler
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

from rt.core import Rec, Inconclusive, import_parcels, jsonable


def main():
    modname, specfile, outfile = sys.argv[1:4]
    spec = json.load(open(specfile))
    out = open(outfile, 'a', buffering=1)

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()

    faulthandler.register(signal.SIGUSR1)   # the driver asks where a scenario hangs
    scratch = spec['scratch']
    tmp = tempfile.mkdtemp(prefix='w', dir=scratch)
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = tmp
    os.chdir(tmp)
    mod = importlib.import_module('rt.checks.' + modname)
    if getattr(mod, 'IMPORT_PARCELS', True):
        try:
            import_parcels()
        except Exception:
            emit({'status': 'importfail', 'tb': traceback.format_exc()})
            return 1
    for i, scn in spec['scenarios']:
        emit({'i': i, 'status': 'start', 't': time.time()})
        rec = Rec()
        t0 = time.time()
        status = 'done'
        try:
            mod.run(scn, rec)
        except Inconclusive as e:
            status = 'inconclusive'
            rec.event('inconclusive:' + str(e)[:80])
        except (MemoryError, OSError) as e:
            if isinstance(e, MemoryError) or e.errno in (28, 12, 24, 11):
                status = 'inconclusive'
                rec.event('inconclusive:%s' % type(e).__name__)
            else:
                rec.violation('unexpected-exception:%s' % type(e).__name__, traceback.format_exc()[-1800:])
        except Exception as e:
            rec.violation('unexpected-exception:%s' % type(e).__name__, traceback.format_exc()[-1800:])
        emit({'i': i, 'status': status, 'wall': time.time() - t0, 'viol': rec.viol, 'counts': rec.counts,
              'states': sorted(rec.states), 'sample': jsonable(rec.sample), 'findings': sorted(rec.findings)})
    emit({'status': 'end'})
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)  # skip interpreter teardown (ctypes libraries, netCDF handles)
