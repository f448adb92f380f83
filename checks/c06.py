"""C06: binarising scores thresholds every score and fixes the domain."""
from symex.cases import Case
from .c01 import make

BOUNDS = ('up to 3 events (thorough: 4); integer scores in [-20, 20] with '
          'integer domains and thresholds (scores on the threshold '
          'included), or real scores at least 0.001 away from the '
          'threshold; default threshold, zero, and any threshold.')


def h(env, n, kind, thresh, form):
    np = env.np
    D = env.load('kamrecsys.data')
    data = D.EventWithScoreData()
    ev = np.array([[i % 2, 10 + i] for i in range(n)])
    if kind == 'int':
        s = env.ints('s', n, -20, 20)
        lo = env.int('lo', -10, 10)
        w = env.int('w', 1, 10)
        t = env.int('t', -20, 20)
        arr = np.array(s) if form != 'list' else list(s)
        d = (lo, lo + w, 1)
    else:
        s = env.real_list('s', n, -20, 20)
        lo = env.real('lo', -10, 10)
        st = env.real('w', 0.1, 10)
        w = st * 4
        t = env.real('t', -20, 20)
        arr = np.array(s, dtype=float) if form != 'list' else list(s)
        d = [lo, lo + w, st]
    data.set_event(ev, arr, d)
    before = data.event.copy()
    if thresh == 'default':
        env.runs('binarize_score', data.binarize_score)
        twice = lo * 2 + w
    elif thresh == 'none':
        env.runs('binarize_score', data.binarize_score, score_thresh=None)
        twice = lo * 2 + w
    elif thresh == 'zero':
        env.runs('binarize_score', data.binarize_score,
                 0 if kind == 'int' else 0.0)
        twice = 0
    else:
        env.runs('binarize_score', data.binarize_score, t)
        twice = 2 * t
    if kind != 'int':
        for x in s:
            env.assume(env.Or(2 * x - twice > 0.001,
                              twice - 2 * x > 0.001))
    env.eq(list(data.score.shape), [n], 'one score per event')
    for i in range(n):
        env.eq(data.score[i], env.If(2 * s[i] <= twice, 0, 1),
               'score against the threshold')
    after(env, data, before)
    keep = data.score.copy()
    env.runs('again', data.binarize_score)
    env.eq(data.score, keep, 'binarising again changes nothing')
    after(env, data, before)


def after(env, data, before):
    env.eq(list(data.score_domain), [0, 1, 1], 'domain')
    env.check(data.n_score_levels == 2, 'two levels')
    env.eq(list(data.get_score_levels()), [0, 1], 'levels')
    env.eq(data.event, before, 'events in order')
    env.eq(data.digitize_score(), data.score, 'digits of binary scores')


def estimated(env, n):
    """the domain was estimated from the scores"""
    np = env.np
    D = env.load('kamrecsys.data')
    data = D.EventWithScoreData()
    s = env.ints('s', n, 0, 6)
    env.assume(s[0] != s[1])
    data.set_event(np.array([[i, 10 + i] for i in range(n)]), np.array(s))
    before = data.event.copy()
    lo = hi = s[0]
    for x in s[1:]:
        lo, hi = env.If(x < lo, x, lo), env.If(x > hi, x, hi)
    data.binarize_score()
    for i in range(n):
        env.eq(data.score[i], env.If(2 * s[i] <= lo + hi, 0, 1),
               'score against the middle of the estimated domain')
    after(env, data, before)


def cases(tier):
    q = tier == 'quick'
    cs = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for kind in ('int', 'real'):
            for th in ('default', 'none', 'zero', 'given'):
                for form in ('array', 'list'):
                    if form == 'list' and n != 2:
                        continue
                    cs.append(Case('%s-%d-%s-%s' % (kind, n, th, form), h,
                                   dict(n=n, kind=kind, thresh=th,
                                        form=form), cost=n))
    cs.append(Case('estimated-2', estimated, dict(n=2)))
    cs.append(Case('estimated-3', estimated, dict(n=3)))
    return cs
