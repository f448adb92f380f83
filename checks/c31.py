"""C31: cross-validation never tests on training events."""
from symex.cases import Case
from .docs import Doc

BOUNDS = ('2 to 6 events of one to three users (every user with two or three '
          'events), 1 to 3 folds, with and without event features; every '
          'outcome of the shuffles, every score and every prediction; every '
          'target fold; integer and string ids, with repeated events; '
          'users of either object type.')
ASSUMPTIONS = ('random generators produce a stream determined by their seed; '
               'the recommender is a stand-in whose predictions are an '
               'arbitrary function of its training events and of the event.')

EVENTS = {
    'two': [(5, 1), (5, 2)],
    'swap': [(9, 3), (2, 3), (2, 1), (9, 1)],
    'mixed': [(2, 7), (1, 7), (1, 8), (2, 7)],
    'three': [(4, 1), (4, 3), (4, 2)],
    'five': [(3, 1), (1, 1), (3, 2), (1, 5), (3, 4)],
    'six': [(3, 1), (1, 1), (2, 2), (1, 5), (3, 4), (2, 1)],
    'str': [('b', 'x'), ('a', 'y'), ('b', 'z'), ('a', 'x')],
}


class Recorder(object):
    """makes recommenders that remember what they were given

    made: the recommenders that were fitted, in that order
    """

    def __init__(self, env):
        self.env, self.made, self.table, self.scores = env, [], {}, []
        env_, rec = env, self

        class Recommender(object):
            task_type = 'score_predictor'
            explicit_ratings = True

            def __init__(self, **kw):
                self.kw, self.fits, self.asked = dict(kw), [], []

            def fit(self, data, **kw):
                if not self.fits:
                    rec.made.append(self)
                ev = data.to_eid_event(data.event)
                f = data.event_feature
                rows = [tuple(r.tolist()) for r in ev]
                self.fits.append(dict(
                    rows=rows, score=list(data.score), kw=kw,
                    feature=None if f is None else list(f['timestamp'])))
                self.fit_results_ = {'number': len(rec.made),
                                     'n_fits': len(self.fits)}

            def predict(self, ev, *a, **kw):
                self.asked.append([tuple(r.tolist()) for r in ev])
                out = []
                for r in ev:
                    k = (tuple(self.fits[-1]['rows']), tuple(r.tolist()))
                    if k not in rec.table:
                        rec.table[k] = env_.real('p%d' % len(rec.table),
                                                 -10, 10)
                    out.append(rec.table[k])
                # as a recommender does: a number for a single event
                return env_.np.squeeze(env_.np.array(out, dtype=float))
        Recommender.__name__ = 'Stand-in'
        self.cls = Recommender


def container(env, events, feature, scores, stamps, ots=None):
    np = env.np
    D = env.load('kamrecsys.data')
    d = D.EventWithScoreData(event_otypes=ots)
    ef = None
    if feature:
        ef = np.array([(t,) for t in stamps], dtype=[('timestamp', int)])
    d.set_event(np.array(events), np.array(scores, dtype=float), (1, 5, 1),
                event_feature=ef)
    return d


def info(env, rec, out, scheme, seed, folds=None, test=None):
    return {'condition': {'scheme': scheme, 'out_file': out,
                          'n_folds': folds, 'score_domain': [1, 5, 1],
                          'has_timestamp': True, 'explicit_rating': True},
            'environment': {},
            'training': {'file': Doc(env, 'train', {})},
            'test': {'file': test},
            'model': {'recommender': rec.cls, 'method': 'stand-in',
                      'options': {'C': 0.25, 'k': 3,
                                  'random_state': seed}},
            'prediction': {}}


def run(env, rec, events, feature, scores, stamps, folds, seed, target=None,
        ots=None):
    U = env.load('exp_recsys_util')
    out = Doc(env, 'out', write=True)
    inf = info(env, rec, out, 'cv', seed, folds)
    src, asked = inf['training']['file'], []

    def load(fp, i):
        env.check(fp is src, 'the training file is loaded')
        asked.append(1)
        return container(env, events, feature, scores, stamps, ots)
    kw = {} if target is None else {'target_fold': target}
    env.runs('do_task', U.do_task, inf, load, **kw)
    env.check(out.closed, 'the output file is closed')
    return out.value()


def one_fold(env, doc, f, m, events, feature, scores, stamps, rec):
    """a fold recorded in the document against what the model m saw"""
    n = len(events)
    p = doc['prediction']
    mask = p['mask'][f]
    env.check(sorted(mask) == sorted(set(mask)), 'test events are distinct')
    env.check(all(0 <= i < n for i in mask), 'test events exist')
    rest = [i for i in range(n) if i not in mask]
    env.check(len(m.fits) == 1, 'a fresh model for every fold')
    env.check(m.kw == {'C': 0.25, 'k': 3, 'random_state': 7},
              'the options')
    fit = m.fits[0]
    # the training events: all others, once each, with their own score
    tags = [(events[i], scores[i], stamps[i]) for i in rest]
    env.check(len(fit['rows']) == len(rest), 'training events: the others')
    left = list(tags)
    for j, r in enumerate(fit['rows']):
        for t in left:
            if t[0] == r:
                ok = fit['score'][j] == t[1]
                if feature:
                    ok = env.And(ok, fit['feature'][j] == t[2])
                if ok:
                    left.remove(t)
                    break
        else:
            env.check(False, 'training events: the others', str(r))
    env.check(len(m.asked) == 1, 'predicts once')
    env.check(m.asked[0] == [events[i] for i in mask],
              'predicts exactly the test events')
    env.eq([list(r) for r in p['event'][f]],
           [list(events[i]) for i in mask], 'recorded events')
    env.eq(p['true'][f], [scores[i] for i in mask], 'recorded scores')
    key = tuple(fit['rows'])
    env.eq(p['predicted'][f], [rec.table[key, events[i]] for i in mask],
           'recorded predictions')
    if feature:
        env.check(list(p['event_feature']) == ['timestamp'],
                  'recorded features')
        env.eq(p['event_feature']['timestamp'][f],
               [stamps[i] for i in mask], 'recorded features')
    else:
        env.check('event_feature' not in p, 'no features recorded')
    env.eq(doc['test']['results'][f]['n_events'], len(mask),
           'number of test events')
    env.eq(doc['training']['results'][f]['number'], rec.made.index(m) + 1,
           'results of the training')


def counts(env, doc, events):
    for s in ('training', 'test'):
        env.eq(doc[s]['n_events'], len(events), 'number of events')
        env.eq(doc[s]['n_users'], len(set(e[0] for e in events)),
               'number of users')
        env.eq(doc[s]['n_items'], len(set(e[1] for e in events)),
               'number of items')


def values(env, events):
    n = len(events)
    return ([env.real('s%d' % i, 1, 5) for i in range(n)],
            [env.int('t%d' % i, 0, 10 ** 9) for i in range(n)])


def h_cv(env, pat, folds, feature, ots=None):
    events = EVENTS[pat]
    scores, stamps = values(env, events)
    rec = Recorder(env)
    args = (events, feature, scores, stamps)
    doc = run(env, rec, *args, folds=folds, seed=7, ots=ots)
    names = [str(f) for f in range(folds)]
    for part in (doc['training']['results'], doc['test']['results'],
                 doc['prediction']['event'], doc['prediction']['true'],
                 doc['prediction']['predicted'], doc['prediction']['mask']):
        env.check(list(part) == names, 'one entry per fold')
    env.check(len(rec.made) == folds, 'a fresh model for every fold')
    for f, m in zip(names, rec.made):
        one_fold(env, doc, f, m, *args, rec=rec)
    counts(env, doc, events)
    for k in ('task_type', 'explicit_ratings'):
        env.eq(doc['model'][k], getattr(rec.cls, k), k)
    env.eq(doc['condition']['n_folds'], folds, 'number of folds')


def h_target(env, pat, folds, feature, spoil):
    """one fold alone against all of them"""
    events = EVENTS[pat]
    scores, stamps = values(env, events)
    rec = Recorder(env)
    args = (events, feature, scores, stamps)
    doc = run(env, rec, *args, folds=folds, seed=7)
    t = int(env.int('target', 0, folds - 1))
    one = Recorder(env)
    one.table = rec.table           # the same training, the same model
    if spoil:                       # another state of the generator
        env.np.random.seed(99)
        env.np.random.random_sample(3)
    alone = run(env, one, *args, folds=folds, seed=7, target=t)
    env.check(len(one.made) == 1, 'trains for one fold only')
    f = str(t)
    for part in (alone['training']['results'], alone['test']['results'],
                 alone['prediction']['event'],
                 alone['prediction']['predicted']):
        env.check(list(part) == [f], 'one entry')
    one_fold(env, alone, f, one.made[0], *args, rec=one)
    for k in ('event', 'true', 'predicted', 'mask'):
        env.eq(alone['prediction'][k][f], doc['prediction'][k][f],
               'the same fold: ' + k)
    if feature:
        env.eq(alone['prediction']['event_feature']['timestamp'][f],
               doc['prediction']['event_feature']['timestamp'][f],
               'the same fold: features')
    env.eq(alone['test']['results'][f]['n_events'],
           doc['test']['results'][f]['n_events'], 'the same fold: size')
    counts(env, alone, events)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    sizes = {'two': 3, 'swap': 2, 'mixed': 2, 'three': 2, 'five': 1,
             'six': 1, 'str': 1}
    for pat in sorted(EVENTS):
        for folds in range(1, sizes[pat] + 1 + (deep and pat != 'two')):
            for feature in (True, False):
                if folds > 1 and not feature and not deep:
                    continue
                out.append(Case('%s-%d-%s' % (
                    pat, folds, 'feature' if feature else 'plain'), h_cv,
                    dict(pat=pat, folds=folds, feature=feature),
                    cost=len(EVENTS[pat]) ** folds))
    for pat in ('two', 'three', 'six'):
        out.append(Case('reverse-' + pat, h_cv, dict(
            pat=pat, folds=1, feature=True, ots=(1, 0))))
    for pat, folds in (('two', 1), ('two', 2), ('two', 3), ('swap', 2),
                       ('three', 2)) + ((('mixed', 3), ('five', 2))
                                        if deep else ()):
        for spoil in (False, True):
            out.append(Case('target-%s-%d%s' % (
                pat, folds, '-spoilt' if spoil else ''), h_target, dict(
                    pat=pat, folds=folds, feature=not spoil, spoil=spoil),
                cost=len(EVENTS[pat]) ** folds))
    return out
