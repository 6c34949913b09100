"""usage: cmp_tests.py OUT.json  -- compares a test.sh result with the baseline"""
import json, sys
r = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
def passed(d):
    for k in ('stable_pass', 'passed', 'pass', 'stable'):
        if isinstance(d, dict) and k in d:
            return set(d[k])
    raise SystemExit('keys: %s' % list(d))
missing = passed(b) - passed(r)
print('baseline', len(passed(b)), 'not passing now:', sorted(missing))
sys.exit(bool(missing))
