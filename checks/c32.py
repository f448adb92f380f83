"""C32: hold-out experiments record what was trained and tested."""
import datetime
from symex.cases import Case
from .c31 import Recorder, container, info
from .docs import Doc

BOUNDS = ('training and test sets of 1 to 4 events each over equal, '
          'overlapping, disjoint and reversed id sets, integer and string '
          'ids, concrete and symbolic; with and without event features on '
          'either side; users of either object type; every score, stamp and '
          'prediction.')
ASSUMPTIONS = ('the recommender is a stand-in whose predictions are an '
               'arbitrary function of its training events and of the event.')

SETS = {
    'same': ([(5, 1), (5, 2), (3, 1)], [(5, 1), (5, 2), (3, 1)]),
    'order': ([(5, 1), (5, 2), (3, 1)], [(9, 4), (3, 2), (5, 4), (3, 2)]),
    'less': ([(1, 4), (2, 5), (3, 6), (1, 5)], [(3, 4)]),
    'more': ([(7, 7)], [(8, 1), (7, 2), (1, 2)]),
    'str': ([('b', 'x'), ('a', 'y')], [('c', 'y'), ('a', 'z'), ('b', 'x')]),
}


def now():
    """the time, different from what is read before and after"""
    t = datetime.datetime.now()
    while datetime.datetime.now() <= t:
        pass
    n = datetime.datetime.now()
    while datetime.datetime.now() <= n:
        pass
    return n


def stamp(s):
    return datetime.datetime.strptime(
        s, '%Y-%m-%dT%H:%M:%S.%f' if '.' in s else '%Y-%m-%dT%H:%M:%S')


class Timed(Recorder):
    """notes when models are trained and asked"""

    def __init__(self, env):
        Recorder.__init__(self, env)
        base, self.times = self.cls, []
        times = self.times

        class Recommender(base):
            def fit(self, data, **kw):
                base.fit(self, data, **kw)
                times.append(now())

            def predict(self, ev, *a, **kw):
                out = base.predict(self, ev, *a, **kw)
                times.append(now())
                return out
        Recommender.__name__ = 'Stand-in'
        self.cls = Recommender


def sets(env, pat, sizes=None):
    if pat in SETS:
        return SETS[pat]
    kind = pat.split('-')[1]
    return tuple([tuple(env.ids('%s%d_' % (s, i), 2, kind))
                  for i in range(n)] for s, n in zip('ab', sizes))


def h(env, pat, features, ots=None, seed=3, sizes=None):
    U = env.load('exp_recsys_util')
    evs = sets(env, pat, sizes)
    sc = [[env.real('s%d_%d' % (j, i), 1, 5) for i in range(len(e))]
          for j, e in enumerate(evs)]
    st = [[env.int('t%d_%d' % (j, i), 0, 10 ** 9) for i in range(len(e))]
          for j, e in enumerate(evs)]
    rec = Timed(env)
    out = Doc(env, 'out', write=True)
    test = Doc(env, 'test', {})
    inf = info(env, rec, out, 'holdout', seed, folds=5, test=test)
    files = [inf['training']['file'], test]
    fnames = [str(f) for f in files]
    datas = [container(env, evs[j], features[j], sc[j], st[j], ots)
             for j in (0, 1)]

    def load(fp, i):
        env.check(fp in files, 'a given file is loaded')
        return datas[files.index(fp)]
    t0 = now()
    env.runs('do_task', U.do_task, inf, load)
    t1 = now()
    env.check(out.closed, 'the output file is closed')
    doc = out.value()
    # trained once, on the training file
    env.check(len(rec.made) == 1, 'one model')
    m = rec.made[0]
    env.check(m.kw == {'C': 0.25, 'k': 3, 'random_state': seed},
              'the options')
    env.check(len(m.fits) == 1, 'fitted once')
    env.check(len(m.asked) == 1, 'asked once')
    f = m.fits[0]
    env.eq([list(r) for r in f['rows']], [list(r) for r in evs[0]],
           'training events')
    env.eq(f['score'], sc[0], 'training scores')
    env.check((f['feature'] is not None) == features[0],
              'training features')
    if features[0]:
        env.eq(f['feature'], st[0], 'training features')
    env.eq([list(r) for r in m.asked[0]], [list(r) for r in evs[1]],
           'asked for the test events')
    # records
    p = doc['prediction']
    env.eq(p['event'], [list(r) for r in evs[1]], 'recorded events')
    env.eq(p['true'], sc[1], 'recorded scores')
    key = tuple(f['rows'])
    env.eq(p['predicted'], [rec.table[key, r] for r in m.asked[0]],
           'recorded predictions')
    env.check(('event_feature' in p) == features[1], 'recorded features')
    if features[1]:
        env.check(list(p['event_feature']) == ['timestamp'],
                  'recorded features')
        env.eq(p['event_feature']['timestamp'], st[1], 'recorded features')
    ut, it = (ots or (0, 1))
    for j, s in enumerate(('training', 'test')):
        env.eq(doc[s]['n_events'], len(evs[j]), 'number of events: ' + s)
        for name, t in (('n_users', ut), ('n_items', it)):
            col = [r[list(ots or (0, 1)).index(t)] for r in evs[j]]
            n = sum(1 for a in range(len(col)) if all(
                not (col[a] == col[b]) for b in range(a)))
            env.eq(doc[s][name], n, '%s: %s' % (name, s))
        env.eq(doc[s]['file'], fnames[j], 'file: ' + s)
        env.check(list(doc[s]['results']) == ['0'], 'one result: ' + s)
    tr, te = doc['training']['results']['0'], doc['test']['results']['0']
    env.eq(tr['n_fits'], 1, 'results of the fit')
    env.eq(te['n_events'], len(evs[1]), 'size of the test')
    env.check(t0 < stamp(tr['start_time']) < rec.times[0] <
              stamp(tr['end_time']) < t1, 'times of the training')
    env.check(rec.times[0] < stamp(te['start_time']) < rec.times[1] <
              stamp(te['end_time']) < t1, 'times of the test')
    env.check(stamp(tr['end_time']) <= stamp(te['start_time']),
              'training ends before the test starts')
    env.eq(doc['condition']['n_folds'], 1, 'number of folds')
    env.eq(doc['model']['options'], {'C': 0.25, 'k': 3,
                                     'random_state': seed}, 'options')
    for k in ('task_type', 'explicit_ratings'):
        env.eq(doc['model'][k], getattr(rec.cls, k), k)


def h_missing(env):
    """no test file"""
    U = env.load('exp_recsys_util')
    rec = Recorder(env)
    out = Doc(env, 'out', write=True)
    inf = info(env, rec, out, 'holdout', 3, folds=5, test=None)

    def load(fp, i):
        env.check(fp is not None, 'a given file is loaded')
        return container(env, [(1, 1)], False, [3.0], [0])
    env.raises(IOError, 'a test file is required', U.do_task, inf, load)
    env.check(not rec.made, 'nothing is trained')
    env.check(not out.parts, 'nothing is written')


def cases(tier):
    deep = tier == 'thorough'
    out = [Case('missing', h_missing, {})]
    both = [(True, True), (False, True), (True, False), (False, False)]
    for pat in sorted(SETS):
        for i, fs in enumerate(both):
            for ots in (None, (1, 0)):
                out.append(Case('%s-%d-%s' % (pat, i, ots), h, dict(
                    pat=pat, features=fs, ots=ots)))
    for kind in ('int', 'str'):
        for sizes in ((1, 1), (1, 2), (2, 1)) + (
                ((2, 2), (1, 3), (3, 1)) if deep else ()):
            out.append(Case('s-%s-%d%d' % ((kind,) + sizes), h, dict(
                pat='s-' + kind, features=(True, True), sizes=sizes),
                cost=4 ** sum(sizes)))
    return out
