"""Runs one check: fans scenarios out over worker processes, collates, confirms and reports.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 3: inconclusive (error of the check).
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from rt.core import JOBS, VERIF


class Worker(object):
    def __init__(self, mod, modname, scns, scratch, tag):
        self.scns = scns
        self.spec = os.path.join(scratch, 'spec%s.json' % tag)
        self.out = os.path.join(scratch, 'out%s.jsonl' % tag)
        self.log = os.path.join(scratch, 'log%s.txt' % tag)
        json.dump({'scenarios': scns, 'scratch': scratch}, open(self.spec, 'w'))
        open(self.out, 'w').close()
        env = dict(os.environ)
        env['CC'] = os.path.join(VERIF, 'rt', 'cc.sh')
        env['RT_CACHE'] = os.path.join(scratch, 'cc')
        env.update(getattr(mod, 'ENV', {}))
        if hasattr(mod, 'env_for_worker'):
            env.update(mod.env_for_worker(scratch, tag))
        self.p = subprocess.Popen([sys.executable, '-m', 'rt.worker', modname, self.spec, self.out],
                                  stdout=open(self.log, 'w'), stderr=subprocess.STDOUT, env=env, cwd=VERIF,
                                  start_new_session=True, stdin=subprocess.DEVNULL)
        self.pos = 0
        self.cur = None
        self.cur_t = time.time()
        self.results = {}
        self.ended = False
        self.importfail = None

    def poll(self):
        with open(self.out) as f:
            f.seek(self.pos)
            while True:
                line = f.readline()
                if not line.endswith('\n'):
                    break
                self.pos = f.tell()
                d = json.loads(line)
                if d['status'] == 'start':
                    self.cur, self.cur_t = d['i'], time.time()
                elif d['status'] == 'end':
                    self.ended, self.cur = True, None
                elif d['status'] == 'importfail':
                    self.importfail = d['tb']
                else:
                    self.results[d['i']] = d
                    self.cur, self.cur_t = None, time.time()
        return self.p.poll()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def where(self):
        """Python stack of the worker, from its log."""
        try:
            n = os.path.getsize(self.log)
            os.kill(self.p.pid, signal.SIGUSR1)
            time.sleep(.5)
            with open(self.log, errors='replace') as f:
                f.seek(n)
                return f.read()[:1500]
        except OSError:
            return ''

    def logtail(self, n=4000):
        try:
            s = open(self.log, errors='replace').read()
            for mark in ('runtime error: ', 'ERROR: AddressSanitizer'):
                if mark in s:
                    k = s.rindex(mark)
                    return s[s.rfind('\n', 0, k) + 1:][:n]
            return s[-n:]
        except OSError:
            return ''


def run_set(mod, modname, scns, scratch, tag, jobs, deadline, stop_on_violation=True):
    """Returns (results, crashes): crashes are (i, kind, detail)."""
    limit = getattr(mod, 'SCENARIO_TIMEOUT', 90)
    results, crashes = {}, []
    queues = [list(scns[k::jobs]) for k in range(jobs)]
    workers = []
    gen = 0
    for k, q in enumerate(queues):
        if q:
            workers.append(Worker(mod, modname, q, scratch, '%s_%d_%d' % (tag, k, gen)))
    stop_at = None
    while workers:
        time.sleep(0.05)
        now = time.time()
        nxt = []
        for w in workers:
            rc = w.poll()
            hang = w.cur is not None and now - w.cur_t > limit
            late = now > deadline or (stop_at and now > stop_at)
            if rc is None and not hang and not late:
                nxt.append(w)
                continue
            if rc is None:
                where = w.where() if hang else ''
                w.kill()
                w.poll()
            results.update(w.results)
            if w.importfail:
                crashes.append((-1, 'import', w.importfail))
                continue
            if w.ended or (late and not hang and rc is None):
                continue
            cur = w.cur
            if cur is None:   # died outside a scenario
                crashes.append((-1, 'died', w.logtail()))
                continue
            if hang:
                crashes.append((cur, 'hang', 'scenario did not finish within %d s; it was at\n%s' % (limit, where)))
            else:
                crashes.append((cur, 'crash', 'worker ended with status %s\n%s' % (rc, w.logtail())))
            done = set(w.results) | {cur}
            rest = [s for s in w.scns if s[0] not in done]
            if rest and len(crashes) < 12 and not late:
                gen += 1
                nxt.append(Worker(mod, modname, rest, scratch, '%s_r_%d' % (tag, gen)))
        workers = nxt
        if stop_on_violation and stop_at is None:
            if crashes or any(r['viol'] for w in workers for r in w.results.values()) or any(r['viol'] for r in results.values()):
                stop_at = time.time() + 45
    return results, crashes


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    opts = sys.argv[3:]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    modname = prop.lower()
    mod = importlib.import_module('rt.checks.' + modname)
    scratch = tempfile.mkdtemp(prefix='rtchk_%s_' % prop)
    os.makedirs(os.path.join(scratch, 'cc'))
    try:
        return run(prop, tier, seed, mod, modname, scratch, t0, opts)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(prop):
    try:
        allf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except OSError:
        return {}
    return {f['key']: f for f in allf['findings'] if f['property'] == prop and f['status'] == 'known'}


def run(prop, tier, seed, mod, modname, scratch, t0, opts):
    replay = None
    if opts and opts[0] == '--replay':
        replay = json.load(open(opts[1]))
        scns = [replay['scenario']]
    else:
        scns = mod.scenarios(tier, seed)
        if opts and opts[0] == '--only':
            scns = [scns[int(x)] for x in opts[1].split(',')]
    scns = list(enumerate(scns))
    deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
    jobs = getattr(mod, 'JOBS', JOBS)
    results, crashes = run_set(mod, modname, scns, scratch, 'm', jobs, deadline)
    known = known_findings(prop)
    bad = []
    counts, states, samples, inconcl, hit = {}, set(), [], 0, set()
    slow = []
    for i, r in sorted(results.items()):
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        states.update(r['states'])
        hit.update(r['findings'])
        slow.append((r['wall'], i))
        if r['status'] == 'inconclusive':
            inconcl += 1
        if r['sample'] and len(samples) < 6:
            samples.append(r['sample'])
        for v in r['viol']:
            if v['key'] in known:
                hit.add(v['key'])
            else:
                bad.append((i, v))
    for i, kind, detail in crashes:
        if i < 0:
            print('worker failure (%s):\n%s' % (kind, detail))
            if kind == 'import':
                bad.append((-1, {'key': 'import-failure', 'msg': detail, 'details': {}}))
            continue
        bad.append((i, {'key': kind, 'msg': detail, 'details': {}}))
    if os.environ.get('RT_VERBOSE'):
        for wll, i in sorted(slow)[-5:]:
            print('slow: %.1fs scenario %d %s' % (wll, i, json.dumps(scns[i][1])[:200]))
        print(json.dumps(counts, indent=1, sort_keys=True))
        for i, v in bad[:int(os.environ.get('RT_VERBOSE'))]:
            print('BAD', i, json.dumps(scns[i][1])[:300], '\n', v['key'], v['msg'][:1500], json.dumps(v['details'])[:1500])

    # confirm each kind of violation in a fresh process (alone, then with the scenarios that ran before it)
    confirmed, unconfirmed = [], []
    seen = set()
    for i, v in bad:
        if v['key'] in seen or len(confirmed) >= 4:
            continue
        seen.add(v['key'])
        if i < 0:
            confirmed.append((i, v))
            continue
        ok = False
        for n, lst in enumerate(([scns[i]], [s for s in scns[i % jobs::jobs] if s[0] <= i])):
            r2, c2 = run_set(mod, modname, lst, scratch, 'c%d_%d_%d' % (i, n, len(seen)), 1, min(time.time() + 240, t0 + 860) if tier == 'quick' else time.time() + 1200,
                             stop_on_violation=False)
            if (i in r2 and any(x['key'] == v['key'] for x in r2[i]['viol'])) or any(c[0] == i for c in c2):
                ok = True
                break
        (confirmed if ok else unconfirmed).append((i, v))

    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known.get(k, {}).get('what', k)))
    missing = []
    if not replay and not opts:
        for name, mn in getattr(mod, 'REQUIRED', {}).items():
            if counts.get(name, 0) < mn:
                missing.append('%s=%d<%d' % (name, counts.get(name, 0), mn))
        for k, f in known.items():
            if k not in hit and f.get('always', True):
                print('note: listed finding %s was not observed in this run' % k)
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': len(results), 'distinct_nontrivial': len(states), 'rule': mod.RULE,
                       'samples': samples or [{'note': 'no sample'}], 'events': counts,
                       'scenarios_planned': len(scns), 'inconclusive_scenarios': inconcl,
                       'known_findings_hit': sorted(hit)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(confirmed)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s seed=%d: %d/%d scenarios, %d distinct states, %.1f s' % (prop, tier, seed, len(results), len(scns), len(states), time.time() - t0))
    print('events: ' + ', '.join('%s=%d' % kv for kv in sorted(counts.items())))
    if confirmed:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (i, v) in enumerate(confirmed):
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'index': i, 'scenario': scns[i][1] if i >= 0 else None,
                       'violation': v, 'how': 'run.sh %s %s --replay %s' % (prop, tier, path)}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] %s' % (v['key'], v['msg'][:1500]))
            print('  details: %s' % json.dumps(v['details'])[:1500])
        return 1
    if unconfirmed:
        print('INCONCLUSIVE: %d violation(s) did not reproduce: %s' % (len(unconfirmed), unconfirmed[:2]))
        return 3
    if missing or (len(results) < len(scns) * 0.5) or inconcl > len(scns) * 0.2 or any(c[0] < 0 for c in crashes):
        print('INCONCLUSIVE: monitors not reached: %s; %d/%d scenarios; %d inconclusive' % (missing, len(results), len(scns), inconcl))
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
