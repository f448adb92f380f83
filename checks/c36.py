"""C36: experiment scripts pass options and scores through unchanged."""
import argparse
import logging
import os
import shutil
import sys
import tempfile
from symex.cases import Case
from .docs import Doc
from .files import Files

BOUNDS = ('init_info: the four methods with every hyper-parameter, seed '
          '(given or not), iteration limit (given or not), domain, fold '
          'number, scheme; the command line: every single option in its '
          'short and long form, and all together; load_data: 1 to 3 events '
          'with every score in the given domain, or four levels of scores '
          'for an estimated domain, with and without time stamps; a test '
          'file loaded after the training file.')
NOTE = ('the command line is parsed by the real argparse from literal '
        'arguments: those cases are enumerated, all others symbolic.')

METHODS = {
    'pmf': ('exp_recsys_sp', 'kamrecsys.score_predictor', 'PMF', {}),
    'plsam': ('exp_recsys_sp', 'kamrecsys.score_predictor',
              'MultinomialPLSA', {'use_expectation': True}),
    'plsamm': ('exp_recsys_sp', 'kamrecsys.score_predictor',
               'MultinomialPLSA', {'use_expectation': False}),
    'lpmf': ('exp_recsys_if', 'kamrecsys.item_finder', 'LogisticPMF', {}),
}


def equal(env, a, b, label):
    """equal attribute values of two models"""
    if isinstance(b, dict):
        env.check(isinstance(a, dict) and set(a) == set(b), label)
        for k in b:
            equal(env, a.get(k), b[k], '%s: %s' % (label, k))
    elif b is None or isinstance(b, (str, bool)):
        env.check(a is b or a == b, label)
    elif isinstance(b, (list, tuple)):
        env.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            equal(env, x, y, label)
    else:
        env.check(a is not None, label)
        if a is not None:
            env.eq(a, b, label)


def built(env, method, inf, C, k, tol, alpha, maxiter, seed):
    """the recommender of the information is the one of the options"""
    script, mod, cls, more = METHODS[method]
    cls = getattr(env.load(mod), cls)
    env.check(inf['model']['recommender'] is cls, 'class of the method')
    kw = dict(more, k=k, tol=tol, random_state=seed)
    if cls.__name__ == 'MultinomialPLSA':
        kw['alpha'] = alpha
    else:
        kw['C'] = C
    if maxiter is not None:
        kw['maxiter'] = maxiter
    got = env.runs('recommender', inf['model']['recommender'],
                   **inf['model']['options'])
    equal(env, vars(got), vars(cls(**kw)), 'recommender')


def conditions(env, inf, dom, stamp, scheme, fold):
    c = inf['condition']
    env.eq(list(c['score_domain']), list(dom), 'score domain')
    env.check(c['has_timestamp'] is stamp, 'time stamps')
    env.check(c['scheme'] == scheme, 'scheme')
    env.eq(c['n_folds'], fold, 'number of folds')


def h_init(env, method, maxiter, seed, scheme, stamp):
    S = env.load(METHODS[method][0])
    C, k = env.real('C', 0, 100), env.int('k', 1, 50)
    tol, alpha = env.real('tol', 0, 1), env.real('alpha', 0, 10)
    it = env.int('maxiter', 0, 10 ** 6) if maxiter else None
    rs = env.int('seed', 0, 2 ** 31) if seed else None
    dom = [env.real('d%d' % i, -10, 10) for i in range(3)]
    fold = env.int('fold', 1, 100)
    fs = [Doc(env, 'in', {}), Doc(env, 'test', {}),
          Doc(env, 'out', write=True)]
    opt = argparse.Namespace(
        infile=fs[0], testfile=fs[1], outfile=fs[2], method=method,
        validation=scheme, fold=fold, fold_no=None, domain=dom,
        timestamp=stamp, C=C, k=k, alpha=alpha, tol=tol, maxiter=it,
        rseed=rs, verbose=True)
    inf = env.runs('init_info', S.init_info, opt)
    built(env, method, inf, C, k, tol, alpha, it, rs)
    conditions(env, inf, dom, stamp, scheme, fold)
    env.check(inf['training']['file'] is fs[0], 'training file')
    env.check(inf['test']['file'] is fs[1], 'test file')
    env.check(inf['condition']['out_file'] is fs[2], 'output file')


def h_unknown(env, script):
    S = env.load(script)
    m = env.choice('method', ['', 'PMF', 'lpmf' if script.endswith('sp')
                              else 'pmf'])
    env.raises(TypeError, 'unknown method', S.init_info, argparse.Namespace(
        infile=None, testfile=None, outfile=None, method=m,
        validation='cv', fold=2, domain=[0, 0, 0], timestamp=True, C=1, k=1,
        alpha=1, tol=1, maxiter=1, rseed=1))


# the options: forms, arguments, where they end up
OPTIONS = {
    'test': (('-t', '--test'), ('TEST',)),
    'validation': (('-v', '--validation'), ('cv',)),
    'fold': (('-f', '--fold'), ('8',)),
    'no': (('-n', '--fold-no'), ('2',)),
    'domain': (('-d', '--domain'), ('0.5', '4.5', '0.25')),
    'C': (('-C', '--lambda'), ('0.375',)),
    'k': (('-k', '--dim'), ('6',)),
    'alpha': (('--alpha',), ('0.75',)),
    'tol': (('--tol',), ('0.0625',)),
    'maxiter': (('--maxiter',), ('17',)),
    'rseed': (('--rseed',), ('123',)),
    'stamp': (('--timestamp',), ()),
    'nostamp': (('--no-timestamp',), ()),
    'quiet': (('-q', '--quiet'), ()),
}


def h_command(env, method, given, form, named, zero=False):
    """main called with command line arguments"""
    script = METHODS[method][0]
    U = env.load('exp_recsys_util')
    d = tempfile.mkdtemp(prefix='kamvf')
    old_task, old_argv = U.do_task, sys.argv
    got = []
    try:
        U.do_task = lambda info, load_data, target_fold=None: got.append(
            (info, load_data, target_fold))
        S = env.load(script)
        old = getattr(S, 'do_task', None)
        if old is not None:
            S.do_task = U.do_task
        paths = {}
        for n in ('in', 'TEST', 'out'):
            paths[n] = os.path.join(d, n)
            open(paths[n], 'w').close()
        argv = [script + '.py']
        if method != {'exp_recsys_sp': 'pmf'}.get(script, 'lpmf') or \
                form == 1:
            argv += [('-m', '--method')[form], method]
        for o in given:
            forms, args = OPTIONS[o]
            argv.append(forms[min(form, len(forms) - 1)])
            argv += ['0' if zero and len(args) == 1 and
                     a[-1].isdigit() else paths.get(a, a) for a in args]
        if named:
            argv += [('-i', '--in')[form], paths['in'],
                     ('-o', '--out')[form], paths['out']]
        else:
            argv[1:1] = [paths['in'], paths['out']]
        sys.argv = argv
        logging.disable(logging.CRITICAL)
        env.runs('main', S.main)
        if old is not None:
            S.do_task = old
    finally:
        logging.disable(logging.NOTSET)
        U.do_task, sys.argv = old_task, old_argv
        shutil.rmtree(d)
    env.check(len(got) == 1, 'one task')
    inf, load, target = got[0]
    has = set(given)

    def val(o, x, default):
        return default if o not in has else 0 if zero else x
    built(env, method, inf, val('C', 0.375, 0.01), val('k', 6, 1),
          val('tol', 0.0625, 1e-05), val('alpha', 0.75, 1.0),
          val('maxiter', 17, None), val('rseed', 123, None))
    conditions(env, inf, (0.5, 4.5, 0.25) if 'domain' in has else (0, 0, 0),
               'nostamp' not in has,
               'cv' if 'validation' in has else 'holdout',
               val('fold', 8, 5))
    env.check(target == val('no', 2, None) and (target is None) == (
        'no' not in has), 'target fold')
    env.check(load is S.load_data, 'loads by its own function')
    for n, f, used in (('in', inf['training']['file'], True),
                       ('TEST', inf['test']['file'], 'test' in has),
                       ('out', inf['condition']['out_file'], True)):
        env.check((f is not None and f.name == paths[n]) if used else
                  f is None, 'file: ' + n)
        if f is not None:
            f.close()


def h_load(env, script, n, stamp, domain, second=0):
    fs = Files(env)
    try:
        load(env, fs, script, n, stamp, domain, second)
    finally:
        fs.close()


def load(env, fs, script, n, stamp, domain, second):
    np = env.np
    S = env.load(script)
    sets = []
    for j, m in enumerate([n, second] if second else [n]):
        rows, scores = [], []
        for i in range(m):
            if domain is None:
                s = env.choice('s%d_%d' % (j, i), [1, 2, 3.5, -1]) \
                    if j == 0 else env.choice('s%d_%d' % (j, i), [2, 1])
            else:
                s = env.real('s%d_%d' % (j, i), domain[0], domain[1])
            scores.append(s)
            rows.append(([env.int('u%d_%d' % (j, i), 1, 99),
                          env.int('i%d_%d' % (j, i), 1, 99)]
                         if m < 3 else [(5, 2, 5)[i], 7 - i]) + [s] +
                        ([env.int('t%d_%d' % (j, i), 0, 10 ** 9)]
                         if stamp else []))
        fs.add('set%d' % j, rows)
        sets.append((rows, scores))
    if domain is None:
        lev = sorted(set(sets[0][1]))
        env.assume(len(lev) > 1)
        want = [lev[0], lev[-1], min(b - a for a, b in zip(lev, lev[1:]))]
    else:
        want = list(domain)
    inf = {'condition': {'has_timestamp': stamp,
                         'score_domain': list(domain or (0., 0., 0.))}}
    for j, (rows, scores) in enumerate(sets):
        d = env.runs('load_data', S.load_data, fs.open('set%d' % j), inf)
        env.eq(int(d.n_events), len(rows), 'number of events')
        ev = d.to_eid_event(d.event)
        for i, r in enumerate(rows):
            env.eq(list(ev[i]), r[:2], 'event')
            if stamp:
                env.eq(d.event_feature['timestamp'][i], r[3], 'time stamp')
            if script == 'exp_recsys_if':
                mid = (want[0] + want[1]) / 2.0
                env.check((d.score[i] == 1) == (scores[i] > mid),
                          'binarised at the middle')
                env.check(env.Or(d.score[i] == 0, d.score[i] == 1),
                          'a binary score')
            else:
                env.eq(d.score[i], scores[i], 'score')
        env.check((d.event_feature is not None) == stamp, 'features')
        got = inf['condition']['score_domain']
        env.eq([got[i] for i in range(3)], want, 'recorded domain')
        dom = [0, 1, 1] if script == 'exp_recsys_if' else want
        env.eq([d.score_domain[i] for i in range(3)], dom,
               'domain of the data')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for m in sorted(METHODS):
        for it in (True, False):
            for seed in (True, False):
                out.append(Case('init-%s-%s-%s' % (m, it, seed), h_init,
                                dict(method=m, maxiter=it, seed=seed,
                                     scheme='cv' if it else 'holdout',
                                     stamp=seed)))
        for form in (0, 1):
            for named in (True, False):
                everything = [o for o in sorted(OPTIONS) if o != 'stamp']
                sets = [(), everything] + [
                    (o,) for o in sorted(OPTIONS)]
                if deep:
                    sets += [(a, b) for a in sorted(OPTIONS)
                             for b in sorted(OPTIONS) if a < b and
                             not a + b == 'nostampstamp']
                out.append(Case('main-zero-%s-%d-%s' % (m, form, named),
                                h_command, dict(
                                    method=m, given=('no', 'C', 'alpha',
                                                     'tol', 'maxiter',
                                                     'rseed', 'fold'),
                                    form=form, named=named, zero=True)))
                for given in sets:
                    if named and not deep and 0 < len(given) < 4:
                        continue
                    out.append(Case('main-%s-%d-%s-%s' % (
                        m, form, named, '+'.join(given)[:30]), h_command,
                        dict(method=m, given=tuple(given), form=form,
                             named=named)))
    for s in ('exp_recsys_sp', 'exp_recsys_if'):
        out.append(Case('unknown-' + s[-2:], h_unknown, dict(script=s)))
        for stamp in (True, False):
            for dom in ((1., 5., 1.), (0., 1., 0.5), (-2., 3., 2.5),
                        (2., 0.5 + 2, 0.25)):
                for n in (1, 2) + ((3,) if deep else ()):
                    out.append(Case('load-%s-%s-%d-%s' % (
                        s[-2:], dom, n, stamp), h_load, dict(
                            script=s, n=n, stamp=stamp, domain=dom),
                        cost=9 ** n))
            for n, k in ((2, 0), (2, 1), (3, 0)) + (
                    ((2, 2),) if deep else ()):
                if n == 3 and stamp and not deep:
                    continue
                out.append(Case('auto-%s-%d-%d-%s' % (s[-2:], n, k, stamp),
                                h_load, dict(script=s, n=n, stamp=stamp,
                                             domain=None, second=k),
                                cost=30 * 9 ** (n - 1)))
            out.append(Case('given-%s-%s' % (s[-2:], stamp), h_load, dict(
                script=s, n=1, stamp=stamp, domain=(1., 5., 0.5),
                second=1), cost=30))
    return out
