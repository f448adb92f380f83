"""C03: filtering events keeps exactly the selected data, aligned."""
from symex.cases import Case
from .c01 import LAYOUTS, make, bijection

BOUNDS = ('up to 3 events (thorough: 4), every boolean mask and every index '
          'list up to length 3 (thorough: 4, with repeats, any order), given as '
          'arrays, lists or tuples; '
          'symbolic ids, scores and features; five layouts; filtering twice.')


def features(env, data, n_otypes, name='F'):
    """a feature table for every type; returns what belongs to an eid"""
    np = env.np
    for t in range(n_otypes):
        n = int(data.n_objects[t])
        kind = t % 3
        if kind == 0:
            f = env.reals('%s%d_' % (name, t), n)
        elif kind == 1:
            f = np.array([[env.real('%s%d_%d_%d' % (name, t, i, j))
                           for j in range(2)] for i in range(n)],
                         dtype=float).reshape(n, 2)
        else:
            f = env.reals('%s%d_' % (name, t), n)
        data.set_feature(t, data.eid[t].copy(), f)


def select(env, how, n, m):
    """the condition given to filter_event and the selected positions"""
    np = env.np
    if how == 'mask':
        bs = env.bools('m', n)
        sel = [i for i in range(n) if bs[i]]
        return np.array([i in sel for i in range(n)], dtype=bool), sel
    if how in ('mask-list', 'mask-tuple'):
        bs = env.bools('m', n)
        sel = [i for i in range(n) if bs[i]]
        m = [i in sel for i in range(n)]
        return (m if how == 'mask-list' else tuple(m)), sel
    if how == 'negative':
        sel = [int(env.int('x%d' % j, -n, n - 1)) for j in range(m)]
        return np.array(sel, dtype=int), [i % n for i in sel]
    ix = [env.int('x%d' % j, 0, n - 1) for j in range(m)]
    sel = [int(x) for x in ix]
    if how == 'list':
        return sel, sel
    if how == 'tuple':
        return tuple(sel), sel
    return np.array(sel, dtype=int), sel


def aligned(env, old, new, rows, sel, ots, n_otypes, scores, ef, with_f):
    """new holds exactly the selected events of old"""
    srows = [rows[i] for i in sel]
    bijection(env, new, srows, n_otypes, ots)
    env.check(new.n_events == len(sel), 'n_events')
    env.eq(list(new.event.shape), [len(sel), len(ots)], 'shape of event')
    ext = new.to_eid_event(new.event)
    for j, r in enumerate(srows):
        for e in range(len(ots)):
            env.eq(ext[j, e], r[e], 'event in external ids')
    if scores is not None:
        env.check(len(new.score) == len(sel), 'number of scores')
        for j, i in enumerate(sel):
            env.eq(new.score[j], scores[i], 'score of the event')
    if ef is not None:
        env.check(len(new.event_feature) == len(sel),
                  'number of event features')
        for j, i in enumerate(sel):
            env.eq(new.event_feature[j], ef[i], 'feature of the event')
    else:
        env.check(new.event_feature is None, 'no event feature')
    for t in range(n_otypes):
        n = int(new.n_objects[t])
        before = [old.to_iid(t, new.to_eid(t, i)) for i in range(n)]
        for a, b in zip(before, before[1:]):
            env.check(a < b, 'relative order of objects')
        if with_f:
            env.check(len(new.feature[t]) == n, 'number of feature rows')
            for i in range(n):
                env.eq(new.feature[t][i], old.feature[t][before[i]],
                       'feature row of the object')
        else:
            env.check(new.feature[t] is None, 'no object feature')


def build(env, kind, n, layout, cls, with_f, with_ef):
    np = env.np
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout, cls)
    ef = None
    if with_ef == 'plain':
        ef = env.reals('ef', n)
    elif with_ef == 'rec':
        ef = np.array([(env.int('ef%d' % i, 0, 9), env.real('eg%d' % i))
                       for i in range(n)],
                      dtype=[('timestamp', int), ('w', float)])
    scores = None
    if cls == 'EventData':
        data.set_event(ev, event_feature=ef)
    else:
        scores = env.reals('s', n, 1, 5)
        data.set_event(ev, scores, (1, 5, 1), event_feature=ef)
    if with_f:
        features(env, data, n_otypes)
    return data, rows, n_otypes, ots, scores, ef


def h(env, kind, n, m, layout, cls, how, with_f, with_ef):
    data, rows, n_otypes, ots, scores, ef = build(
        env, kind, n, layout, cls, with_f, with_ef)
    cond, sel = select(env, how, n, m)
    new = env.runs('filter_event', data.filter_event, cond)
    env.check(type(new) is type(data), 'type of the result')
    aligned(env, data, new, rows, sel, ots, n_otypes, scores, ef, with_f)
    # the source is what it was
    bijection(env, data, rows, n_otypes, ots)
    ext = data.to_eid_event(data.event)
    for i in range(n):
        for e in range(len(ots)):
            env.eq(ext[i, e], rows[i][e], 'source event')
    if scores is not None:
        env.eq(data.score, scores, 'source scores')
        env.eq(list(new.score_domain), [1, 5, 1], 'score domain')
        env.check(new.n_score_levels == 5, 'number of levels')


def twice(env, kind, n, layout, cls):
    data, rows, n_otypes, ots, scores, ef = build(
        env, kind, n, layout, cls, True, 'plain')
    cond, sel = select(env, 'mask', n, n)
    new = env.runs('first filter', data.filter_event, cond)
    bs = env.bools('second', len(sel))
    sel2 = [j for j in range(len(sel)) if bs[j]]
    new2 = env.runs('second filter', new.filter_event, env.np.array(
        [j in sel2 for j in range(len(sel))], dtype=bool))
    aligned(env, data, new2, rows, [sel[j] for j in sel2], ots, n_otypes,
            scores, ef, True)


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, fn=h, cost=1, **kw):
        cs.append(Case(name, fn, kw, cost=cost))
    for lay in LAYOUTS:
        for cls in ('EventData', 'EventWithScoreData'):
            for how in ('mask', 'index', 'list'):
                n = 3 if (lay == 'rev' and how == 'mask' and
                          cls == 'EventWithScoreData') or (
                    lay == 'ui' and how == 'mask'
                    and cls == 'EventWithScoreData') else 2
                if not q and lay != 'uiu':
                    n = 3
                if how == 'list' and lay != 'ui':
                    continue
                m = 2 if q else 3
                add('int-%s-%s-%s-%d' % (lay, cls, how, n), kind='int', n=n,
                    m=m, layout=lay, cls=cls, how=how,
                    with_f=cls != 'EventData' or lay == 'gap',
                    with_ef={'mask': 'plain', 'index': 'rec',
                             'list': None}[how], cost=5 ** n)
    add('str-ui', kind='str', n=2, m=2, layout='ui',
        cls='EventWithScoreData', how='mask', with_f=True, with_ef='rec')
    add('str-rev', kind='str', n=2, m=3, layout='rev',
        cls='EventWithScoreData', how='index', with_f=True, with_ef='plain')
    add('int-index3', kind='int', n=2, m=3, layout='ui',
        cls='EventWithScoreData', how='index', with_f=True, with_ef='plain')
    for cls in ('EventData', 'EventWithScoreData'):
        for how in ('mask-list', 'mask-tuple', 'list', 'tuple', 'negative'):
            for m in ((0, 1, 2) if how in ('list', 'tuple') else (2,)):
                if how == 'list' and m == 2:
                    continue
                add('form-%s-%s-%d' % (cls, how, m), kind='int', n=2, m=m,
                    layout='ui', cls=cls, how=how, with_f=True,
                    with_ef='plain', cost=20)
    add('twice-ui', twice, kind='int', n=2 if q else 3, layout='ui',
        cls='EventWithScoreData', cost=30)
    add('twice-rev', twice, kind='int', n=2 if q else 3, layout='rev',
        cls='EventData', cost=30)
    if not q:
        add('int-ui-4', kind='int', n=4, m=4, layout='ui',
            cls='EventWithScoreData', how='mask', with_f=True,
            with_ef='rec', cost=5000)
        add('int-uu-4', kind='int', n=3, m=4, layout='uu',
            cls='EventWithScoreData', how='index', with_f=True,
            with_ef='rec', cost=5000)
    return cs
