"""Run harness cases on the real code with concrete inputs.

usage: replay.py JOBS.json OUT.json     (a list of jobs)
       replay.py VIOLATION.json         (one reported violation)
"""
import contextlib
import io
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from symex import harness                      # noqa: E402
from symex.cases import load_cases             # noqa: E402


def run_job(world, job, cases):
    case = cases[job['case']]
    env = harness.RealEnv(job['model'], world)
    out = dict(error=None, aborted=False)
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), \
                contextlib.redirect_stderr(buf):
            warnings.simplefilter('ignore')
            case.fn(env, **case.kw)
    except harness.AssumptionFailed:
        out['aborted'] = True
    except harness.StopHarness:
        pass
    except Exception as ex:
        out['error'] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
        out['tb'] = traceback.format_exc(limit=-5)
    out['failed'] = env.failed
    out['checked'] = len(env.checked)
    out['observed'] = env.observed
    return out


def main(argv):
    with open(argv[0]) as f:
        jobs = json.load(f)
    single = isinstance(jobs, dict)
    if single:
        jobs = [jobs]
    world = harness.RealWorld()
    res = []
    cache = {}
    for j in jobs:
        k = (j['check'], j.get('tier', 'quick'))
        if k not in cache:
            cache[k] = {c.name: c for c in load_cases(*k)}
        r = run_job(world, j, cache[k])
        res.append(r)
        if len(argv) > 1:
            with open(argv[1] + '.part', 'a') as f:
                f.write(json.dumps(r) + '\n')
    if single:
        print(json.dumps(dict(case=jobs[0]['case'],
                              model=jobs[0]['model']), indent=1))
        r = res[0]
        for lab, why in r['failed']:
            print('FAILED on the real code: %s (%s)' % (lab, why))
        if r['error']:
            print('EXCEPTION on the real code: ' + r['error'])
            print(r['tb'])
        bad = bool(r['failed'] or r['error'])
        if not bad:
            print('the violation does not occur')
        return 1 if bad else 0
    with open(argv[1], 'w') as f:
        json.dump(res, f)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
