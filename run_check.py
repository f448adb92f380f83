"""Decide one property:  run_check.py C01 [quick|thorough]"""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable
BUDGET = {'quick': 420, 'thorough': 3000}


def _worker(a):
    check, tier, name, deadline, ns = a
    from symex import symenv
    from symex.cases import load_cases
    case = [c for c in load_cases(check, tier) if c.name == name][0]
    try:
        return symenv.explore(check, case, deadline, ns)
    except BaseException as ex:          # the machinery itself failed
        traceback.print_exc()
        return dict(case=name, crash='%s: %s' % (type(ex).__name__, ex))


def replay_jobs(jobs, procs=8, timeout=240):
    """run jobs on the real code; a list of results (None: no answer)"""
    if not jobs:
        return []
    n = min(procs, max(1, (len(jobs) + 3) // 4))
    tmp = tempfile.mkdtemp(prefix='vreplay')
    out = [None] * len(jobs)
    try:
        ps = []
        for k in range(n):
            idx = list(range(k, len(jobs), n))
            jf, of = (os.path.join(tmp, '%d.%s' % (k, s))
                      for s in ('in', 'out'))
            with open(jf, 'w') as f:
                json.dump([jobs[i] for i in idx], f)
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                     OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            p = subprocess.Popen(
                [PY, os.path.join(HERE, 'symex', 'replay.py'), jf, of],
                cwd=tmp, env=e, stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE)
            ps.append((p, idx, of))
        end = time.time() + timeout
        for p, idx, of in ps:
            try:
                err = p.communicate(timeout=max(1, end - time.time()))[1]
            except subprocess.TimeoutExpired:
                p.kill()
                err = b'timeout'
                p.communicate()
            if p.returncode and os.environ.get('SYMEX_TB'):
                sys.stderr.write(err.decode()[-3000:])
            if os.path.exists(of + '.part'):
                with open(of + '.part') as f:
                    for i, line in zip(idx, f):
                        out[i] = json.loads(line)
            for i in idx:
                if out[i] is None:
                    out[i] = dict(dead=(err or b'').decode()[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def load_known(pid):
    """known findings: (case, label) pairs of this property"""
    ks = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    d = dict(x.split('=', 1) for x in line.split()[1:4])
                    ks.append((d['case'], d['label'], line.strip()))
    return ks


def obs_match(exp, got):
    from symex.harness import plain_close
    if [n for n, _ in exp] != [n for n, _ in got]:
        return 'different observations'
    for (n, a), (_, b) in zip(exp, got):
        if not plain_close(a, b):
            return '%s: encoded %r, real %r' % (n, a, b)
    return None


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2:] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from symex.cases import load_cases
    cases = load_cases(pid, tier)
    if only:
        cases = [c for c in cases if any(o in c.name for o in only)]
    deadline = t0 + BUDGET[tier]
    ns = 6 if tier == 'quick' else 12
    args = [(pid, tier, c.name, deadline, ns) for c in cases]
    args.sort(key=lambda a: -next(
        c.opts.get('cost', 1) for c in cases if c.name == a[2]))
    procs = min(8, len(args))
    if procs > 1 and not os.environ.get('SYMEX_SERIAL'):
        ctx = mp.get_context('fork')
        import symex.symenv  # noqa: F401  (before forking)
        symex.symenv.SHARED = ctx.Array('d', 2)
        with ctx.Pool(procs, maxtasksperchild=4) as pool:
            async_ = [pool.apply_async(_worker, (a,)) for a in args]
            res = []
            for a, r in zip(args, async_):
                try:
                    res.append(r.get(max(1, deadline + 60 - time.time())))
                except mp.TimeoutError:
                    res.append(dict(case=a[2], crash='no answer in time'))
            pool.terminate()
    else:
        res = [_worker(a) for a in args]

    # -- replay on the real code --------------------------------------------
    jobs, ref = [], []
    for r in res:
        for ci, c in enumerate(r.get('candidates', ())):
            for m in c['models']:
                jobs.append(dict(check=pid, tier=tier, case=r['case'],
                                 model=m))
                ref.append((r, 'cand', ci))
        for si, s in enumerate(r.get('samples', ())):
            jobs.append(dict(check=pid, tier=tier, case=r['case'],
                             model=s['model']))
            ref.append((r, s['kind'], si))
    t1 = time.time()
    rep = replay_jobs(jobs, timeout=300 if tier == 'quick' else 900)
    replay_s = time.time() - t1
    violations, inconc, validated, mism = [], {}, 0, []
    seen = set()

    def note(why, case, n=1):
        k = '%s: %s' % (case, why)
        inconc[k] = inconc.get(k, 0) + n

    confirmed = set()
    for j, (r, kind, i), o in zip(jobs, ref, rep):
        if o.get('dead') is not None:
            note('no answer from the real code (%s)' % o['dead'][-200:],
                 r['case'])
            continue
        bad = list(o['failed'])
        if o['aborted']:
            # an assumption after the check in question does not matter
            lab = r['candidates'][i]['label'] if kind == 'cand' else None
            bad = [b for b in bad if b[0] == lab]
            if not bad:
                continue
        if o['error']:
            bad.append(('exception:' + o['error'].split(':')[0],
                        o['error'] + '\n' + o.get('tb', '')))
        if bad:
            if kind == 'cand':
                confirmed.add((r['case'], i))
            for label, why in bad:
                if (r['case'], label) in seen:
                    continue
                seen.add((r['case'], label))
                violations.append(dict(
                    check=pid, tier=tier, case=r['case'], label=label,
                    why=why, model=j['model'], found=kind))
        elif kind == 'path':
            m = obs_match(s_exp(r, i), o['observed'])
            if m:
                mism.append(dict(case=r['case'], why=m, model=j['model']))
                note('encoding differs from the real code: %s' % m[:300],
                     r['case'])
            else:
                validated += 1
    for r in res:
        if 'crash' in r:
            note('crash: ' + r['crash'], r['case'])
            continue
        for k, v in r['inconclusive'].items():
            note(k, r['case'], v)
        for ci, c in enumerate(r['candidates']):
            if (r['case'], ci) not in confirmed:
                note('counterexample for %s not confirmed by the real code '
                     '(%s)' % (c['label'], c['why']), r['case'])
                if os.environ.get('SYMEX_TB'):
                    print(c.get('tb', ''), c['models'][0])

    ok = [r for r in res if 'crash' not in r]
    tot = lambda k: sum(r[k] for r in ok)       # noqa: E731
    known = load_known(pid)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    new, listed = [], []
    for v in violations:
        k = [x for x in known if x[0] == v['case'] and x[1] == v['label']]
        (listed if k else new).append(v)
    for n, v in enumerate(new):
        p = os.path.join(rdir, '%s-%d.json' % (pid, n))
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        v['path'] = p
    import importlib
    mod = importlib.import_module('checks.' + pid.lower())
    funcs = sorted({f for r in ok for f in r['funcs']})
    bounds = getattr(mod, 'BOUNDS', '')
    assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    decided = tot('completed') if ok else 0
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('branches'),
            traces_validated_against_impl=validated,
            samples=[dict(case=r['case'], input=s['model'],
                          observed=s['expect'])
                     for r in ok for s in r['samples'][:1]
                     if s['kind'] == 'path'][:4],
            obligations=tot('obligations'), discharged=tot('discharged'),
            discharged_by_simplifier=tot('syntactic'),
            queries=tot('queries'), solver_s=round(tot('solver_s'), 2),
            max_query_s=max([r['max_query_s'] for r in ok] or [0]),
            paths_completed=decided,
            paths_outside_assumptions=tot('aborted'),
            paths_unsupported=tot('unsupported'),
            cases=len(cases), functions_encoded=funcs, bounds=bounds,
            inconclusive=inconc, replayed_on_real_code=len(jobs),
            replay_s=round(replay_s, 2),
            solver='z3 %s' % z3version(), exhaustive=False,
            per_case=[{k: r[k] for k in (
                'case', 'paths', 'branches', 'obligations', 'queries',
                'solver_s', 'wall_s')} for r in ok]),
        assumptions=assumptions + [
            'floats are exact reals unless a case says otherwise',
            'numpy, scipy, scikit-learn are replaced by models whose '
            'agreement with the real libraries is sampled on every run'],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths (%d completed), %d obligations, '
          '%d discharged, %d queries, solver %.1fs, %d traces validated, '
          '%.1fs' % (pid, tier, len(cases), tot('paths'), decided,
                     tot('obligations'), tot('discharged'), tot('queries'),
                     tot('solver_s'), validated, time.time() - t0))
    for k, n in sorted(inconc.items()):
        print('INCONCLUSIVE x%d %s' % (n, k))
    for v in listed:
        print('KNOWN-FINDING: property=%s case=%s %s' % (
            pid, v['case'], v['label']))
    for v in new:
        print('  %s / %s: %s\n    input %s' % (
            v['case'], v['label'], v['why'].split('\n')[0][:300],
            json.dumps(v['model'])[:600]))
    for v in new[:5]:
        print('VIOLATION property=%s replay=%s' % (pid, v['path']))
    if new:
        return 1
    if decided == 0:
        return 2
    return 0


def s_exp(r, i):
    return r['samples'][i]['expect']


def z3version():
    from symex.core import z3
    return z3.get_version_string()


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
