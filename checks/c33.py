"""C33: merging and summarising fold results loses nothing."""
import argparse
from symex.cases import Case
from . import c31
from .docs import Doc

BOUNDS = ('up to 4 one-fold files in every order with every fold numbers out '
          'of 0..11, 0 to 3 test events each, with and without event '
          'features; statistics of one or up to 3 folds of up to 3 '
          'predictions (item finders: 4 in total), every score and '
          'prediction, three score domains; folds of a real cross-validation '
          'run one by one, merged and summarised.')
ASSUMPTIONS = ('the files of a merge hold one fold each, as documented; real '
               'arithmetic instead of floating point; in the end-to-end '
               'cases the recommender is a stand-in.')

PARTS = ('event', 'true', 'predicted', 'mask')


def fold_doc(env, f, n, feature, tag):
    """a result file of fold f"""
    p = {'event': {f: [[env.int('e%s_%d' % (tag, i), 0, 99),
                        env.int('i%s_%d' % (tag, i), 0, 99)]
                       for i in range(n)]},
         'true': {f: [env.real('t%s_%d' % (tag, i), 1, 5)
                      for i in range(n)]},
         'predicted': {f: [env.real('p%s_%d' % (tag, i), 1, 5)
                           for i in range(n)]},
         'mask': {f: [env.int('m%s_%d' % (tag, i), 0, 99)
                      for i in range(n)]}}
    if feature:
        p['event_feature'] = {
            k: {f: [env.int('%s%s_%d' % (k, tag, i), 0, 99)
                    for i in range(n)]} for k in ('timestamp', 'place')}
    return {
        'condition': {'out_file': 'one', 'scheme': 'cv', 'n_folds': 12,
                      'score_domain': [1.0, 5.0, 1.0]},
        'environment': {'script': {'name': 'x' + tag},
                        'system': {'cpu': env.int('cpu' + tag, 0, 9)}},
        'model': {'task_type': 'score_predictor', 'options': {'k': 3}},
        'training': {'file': 'data', 'n_events': 30,
                     'results': {f: {'final_loss': env.real(
                         'l' + tag, 0, 9), 'n_users': 3}}},
        'test': {'file': 'data', 'n_events': 30,
                 'results': {f: {'n_events': n}}},
        'prediction': p}


def merge(env, docs):
    S = env.load('exp_recsys_fold_merge')
    ins = [Doc(env, 'in%d' % i, d) for i, d in enumerate(docs)]
    out = Doc(env, 'merged', write=True)
    env.runs('do_task', S.do_task, argparse.Namespace(
        infile=ins, outfile=out, verbose=True))
    env.check(all(i.closed for i in ins) and out.closed,
              'the files are closed')
    return out.value()


def same(env, a, b, label):
    """equal JSON values"""
    if isinstance(b, dict):
        env.check(isinstance(a, dict) and set(a) == set(b), label)
        for k in b:
            same(env, a.get(k), b[k], label)
    elif isinstance(b, list):
        env.check(isinstance(a, list) and len(a) == len(b), label)
        for x, y in zip(a, b):
            same(env, x, y, label)
    elif isinstance(b, (str, bool)) or b is None:
        env.check(a is b or a == b, label)
    else:
        env.eq(a, b, label)


def h_merge(env, n, sizes, feature, fixed=None):
    """n files"""
    folds = []
    for i in range(n):
        if fixed:
            f = env.choice('f%d' % i, [x for x in fixed if x not in folds])
        else:
            v = env.int('f%d' % i, 0, 11)
            for x in folds:
                env.assume(v != int(x))
            f = str(int(v))
        folds.append(f)
    docs = [fold_doc(env, f, s, feature, 'abcd'[i])
            for i, (f, s) in enumerate(zip(folds, sizes))]
    got = merge(env, docs)
    for part in ('training', 'test'):
        env.check(set(got[part]['results']) == set(folds),
                  'the folds: ' + part)
        env.eq(got[part]['n_events'], 30, part)
        env.eq(got[part]['file'], 'data', part)
    keys = PARTS + (('event_feature',) if feature else ())
    env.check(set(got['prediction']) == set(keys), 'predictions')
    for p in PARTS:
        env.check(set(got['prediction'][p]) == set(folds), 'the folds: ' + p)
    for f, d in zip(folds, docs):
        for part in ('training', 'test'):
            same(env, got[part]['results'][f], d[part]['results'][f],
                 'results of a fold: ' + part)
        for p in PARTS:
            same(env, got['prediction'][p][f], d['prediction'][p][f],
                 'predictions of a fold: ' + p)
        if feature:
            for k in d['prediction']['event_feature']:
                same(env, got['prediction']['event_feature'][k][f],
                     d['prediction']['event_feature'][k][f],
                     'features of a fold')
        e = got['environment']['environment_fold'][f]
        for k in ('script', 'system'):
            same(env, e[k], d['environment'][k], 'environment of a fold')
    same(env, got['model'], docs[0]['model'], 'the model')
    for k in ('scheme', 'n_folds', 'score_domain'):
        same(env, got['condition'][k], docs[0]['condition'][k], k)


def summarise(env, doc, keep):
    S = env.load('stats_recsys')
    i, out = Doc(env, 'in', doc), Doc(env, 'out', write=True)
    env.runs('do_task', S.do_task, argparse.Namespace(
        infile=i, outfile=out, keepdata=keep, rseed=None))
    env.check(i.closed and out.closed, 'the files are closed')
    return out.value()


def statistics(env, task, t, p, dom):
    M, U = env.load('kamrecsys.metrics'), env.load('kamrecsys.utils')
    np = env.np
    t, p = np.array(t, dtype=float), np.array(p, dtype=float)
    s = (M.score_predictor_statistics(t, p, score_domain=dom)
         if task == 'score_predictor' else M.item_finder_statistics(t, p))
    U.json_decodable(s)
    return env.json.loads(env.json.dumps(s))


def numeric(env, a, b, label):
    """statistics equal; bins and counts by value"""
    if isinstance(b, dict):
        env.check(isinstance(a, dict) and set(a) == set(b), label)
        for k in b:
            numeric(env, a.get(k), b[k], '%s: %s' % (label, k))
    elif isinstance(b, list):
        env.check(isinstance(a, list) and len(a) == len(b), label)
        for x, y in zip(a, b):
            numeric(env, x, y, label)
    elif isinstance(b, str):
        env.check(a == b, label)
    else:
        env.eq(a, b, label)


def h_stats(env, task, sizes, dom, keep, feature=False, names=None):
    """sizes: of the folds, or a number for a file of one run"""
    binary = task == 'item_finder'

    def true(name):
        if binary:
            return env.choice(name, [0.0, 1.0])
        return env.real(name, dom[0] - 1, dom[1] + 1)
    flat = isinstance(sizes, int)
    names = names or [str(i) for i in range(1 if flat else len(sizes))]
    ts = [[true('t%d_%d' % (f, i)) for i in range(s)]
          for f, s in enumerate([sizes] if flat else sizes)]
    ps = [[env.real('p%d_%d' % (f, i), dom[0] - 1, dom[1] + 1)
           for i in range(s)] for f, s in enumerate(
               [sizes] if flat else sizes)]
    es = [[[i, f] for i in range(len(t))] for f, t in enumerate(ts)]
    pred = {}
    for k, v in (('event', es), ('true', ts), ('predicted', ps)):
        pred[k] = v[0] if flat else dict(zip(names, v))
    if feature:
        pred['event_feature'] = {'timestamp': (
            [1] * sizes if flat else {n: [f] * len(t) for f, (n, t) in
                                      enumerate(zip(names, ts))})}
    doc = {'condition': {'score_domain': list(dom), 'out_file': 'x'},
           'environment': {'system': {'a': 1}},
           'model': {'task_type': task, 'options': {'C': 0.5}},
           'training': {'n_events': 9, 'results': {'0': {'a': 1}}},
           'test': {'n_events': 5, 'results': {'0': {'b': 2}}},
           'prediction': pred}
    got = summarise(env, doc, keep)
    t, p = sum(ts, []), sum(ps, [])
    env.check(('prediction' in got) == keep,
              'predictions are kept on request only')
    if keep:
        same(env, got['prediction'], pred, 'kept predictions')
    for k in ('condition', 'environment', 'model', 'training', 'test'):
        same(env, got[k], doc[k], 'kept: ' + k)
    numeric(env, got['statistics'], statistics(env, task, t, p, dom),
            'statistics')


def h_unknown(env):
    doc = fold_doc(env, '0', 2, False, 'a')
    doc['model']['task_type'] = env.choice('task', ['ranker', '',
                                                    'scorepredictor'])
    S = env.load('stats_recsys')
    i, out = Doc(env, 'in', doc), Doc(env, 'out', write=True)
    env.raises(TypeError, 'unknown task type', S.do_task, argparse.Namespace(
        infile=i, outfile=out, keepdata=False, rseed=None))
    env.check(not out.parts, 'nothing is written')


def h_chain(env, pat, folds, feature, order):
    """folds run one by one, merged, against all of them in one run"""
    events = c31.EVENTS[pat]
    scores, stamps = c31.values(env, events)
    rec = c31.Recorder(env)
    args = (events, feature, scores, stamps)
    doc = c31.run(env, rec, *args, folds=folds, seed=7)
    ones = []
    for f in order:
        r = c31.Recorder(env)
        r.table = rec.table
        ones.append(c31.run(env, r, *args, folds=folds, seed=7, target=f))
    got = merge(env, ones)
    same(env, got['prediction'], doc['prediction'],
         'merged folds against one run')
    for k in ('n_events', 'n_users', 'n_items'):
        same(env, got['training'][k], doc['training'][k], k)
    env.check(set(got['test']['results']) == set(doc['test']['results']),
              'folds')
    a, b = summarise(env, got, False), summarise(env, doc, True)
    numeric(env, a['statistics'], b['statistics'],
            'statistics of merged folds')


def cases(tier):
    deep = tier == 'thorough'
    out = [Case('unknown', h_unknown, {})]
    for feature in (True, False):
        t = 'feature' if feature else 'plain'
        out.append(Case('merge-1-' + t, h_merge, dict(
            n=1, sizes=(2,), feature=feature)))
        out.append(Case('merge-2-' + t, h_merge, dict(
            n=2, sizes=(2, 1), feature=feature), cost=100))
        out.append(Case('merge-3-' + t, h_merge, dict(
            n=3, sizes=(1, 0, 2), feature=feature,
            fixed=('0', '1', '2', '10') if deep else ('0', '1', '2')),
            cost=30))
        out.append(Case('merge-4-' + t, h_merge, dict(
            n=4, sizes=(1, 1, 3, 1), feature=feature,
            fixed=('0', '1', '2', '3')), cost=60))
    doms = [(1, 5, 1), (0, 1, 0.5), (1, 2, 1)]
    for dom in doms:
        for sizes in (1, 2, (1,), (1, 1), (2, 1), (1, 0, 1)) + (
                (3, (1, 2), (3,)) if deep else ()):
            n = sizes if isinstance(sizes, int) else sum(sizes)
            if n > 2 and dom == (1, 5, 1):
                continue
            for keep in (True, False):
                if keep and n > 2:
                    continue
                out.append(Case('score-%s-%s%s' % (
                    dom, sizes, '-keep' if keep else ''), h_stats, dict(
                        task='score_predictor', sizes=sizes, dom=dom,
                        keep=keep, feature=keep), cost=8 ** n))
    for sizes in (1, 2, 3, (2,), (2, 1), (1, 2, 1), (1, 0, 1)):
        for keep in (True, False):
            n = sizes if isinstance(sizes, int) else sum(sizes)
            if n > 3 and keep:
                continue
            out.append(Case('find-%s%s' % (sizes, '-keep' if keep else ''),
                            h_stats, dict(
                                task='item_finder', sizes=sizes,
                                dom=(0, 1, 1), keep=keep, feature=keep),
                            cost=4 ** n))
    out.append(Case('names', h_stats, dict(
        task='score_predictor', sizes=(1, 1), dom=(1, 2, 1), keep=True,
        names=['10', '2'])))
    for pat, folds, orders in (('two', 2, ((0, 1), (1, 0))),
                               ('two', 3, ((2, 0, 1),)),
                               ('three', 2, ((1, 0),))):
        for o in orders:
            out.append(Case('chain-%s-%s' % (pat, o), h_chain, dict(
                pat=pat, folds=folds, feature=True, order=o), cost=80))
    return out
