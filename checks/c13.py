"""C13: explicit item finders accept exactly the binary data."""
from symex.cases import Case
from . import models as M

BOUNDS = ('1 to 4 (thorough: 5) events with arbitrary integer scores in '
          '[-1, 2] or real ones in [-2, 3]; ten score domains, or one of '
          'arbitrary integers in [-1, 2]; any number of score levels from '
          '1 to 4; loaded, filtered and binarised containers.')
ASSUMPTIONS = ('the optimiser is replaced by one returning an arbitrary '
               'vector.')

DOMAINS = [(0, 1, 1), (1, 5, 1), (0, 1, 0.5), (0, 2, 1), (1, 2, 1),
           (0, 1, 0.25), (0.0, 1.0, 1.0), (0, 2, 2), (-1, 1, 1),
           (-1, 0, 1), (0.5, 1.5, 1)]


def accepts(env, d, ok, fit_args={}):
    """fit succeeds exactly when ok"""
    kw = dict(C=0.5, k=1, random_state=3)
    m = M.new(env, 'LogisticPMF', **kw)
    err = None
    try:
        m.fit(d, **fit_args)
    except ValueError as ex:
        err = ex
    calls = len(env.optimizer.calls)
    env.observe('accepted', err is None)
    if err is None:
        env.check(ok, 'only binary data are accepted')
        env.check(calls == 1, 'optimised')
    else:
        env.check(env.Not(ok), 'binary data are accepted')
        env.check(calls == 0, 'nothing is optimised before refusing')


def both(env, s):
    return env.And(True, *(
        [env.Or(x == 0, x == 1) for x in s] +
        [env.Or(False, *[x == 0 for x in s]),
         env.Or(False, *[x == 1 for x in s])]))


ROWS = {1: 'one', 2: 's-ui', 3: 'grid', 4: 'late'}


def pattern(env, n):
    P = M.Pattern(env, 'late')
    P.rows = (P.rows + [[7, 7], [9, 7]])[:n]
    P.n = n
    return P


def scores(env, n, kind):
    if kind == 'int':
        return env.ints('s', n, -1, 2)
    if kind == 'bit':
        return env.ints('s', n, 0, 1)
    return env.reals('s', n, -2, 3)


def h_domain(env, n, kind, dom):
    P = pattern(env, n)
    s = scores(env, n, kind)
    d = M.container(env, P, s, dom)
    fine = tuple(dom) == (0, 1, 1)
    accepts(env, d, env.And(fine, both(env, list(s))))


def h_any(env, n, kind='bit'):
    """any domain of integers"""
    P = pattern(env, n)
    s = scores(env, n, kind)
    lo, hi = env.int('lo', -1, 2), env.int('hi', -1, 2)
    st = env.int('stride', 1, 2)
    env.assume(lo <= hi)
    d = M.container(env, P, s, (int(lo), int(hi), int(st)))
    accepts(env, d, env.And(lo == 0, hi == 1, st == 1, both(env, list(s))))


def h_levels(env, n, kind):
    """the container claims another number of levels"""
    P = pattern(env, n)
    s = scores(env, n, kind)
    d = M.container(env, P, s, (0, 1, 1))
    lv = env.int('levels', 1, 4)
    d.n_score_levels = int(lv)
    accepts(env, d, env.And(lv == 2, both(env, list(s))))


def h_assigned(env, n, kind, dom):
    """a domain set on the container, in several forms"""
    np = env.np
    P = pattern(env, n)
    s = scores(env, n, kind)
    d = M.container(env, P, s, (0, 1, 1))
    d.score_domain = np.array(dom) if env.bool('array') else tuple(dom)
    accepts(env, d, env.And(tuple(dom) == (0, 1, 1), both(env, list(s))))


def h_binarised(env, n, dom):
    np = env.np
    P = pattern(env, n)
    s = env.reals('s', n, dom[0], dom[1])
    d = M.container(env, P, s, dom)
    th = env.real('threshold', dom[0], dom[1])
    env.runs('binarize_score', d.binarize_score, th)
    hi = [x >= th for x in s]
    env.observe('binary', d.score)
    # which side equality is on is another matter
    for x in s:
        env.assume(x != th)
    accepts(env, d, env.And(env.Or(False, *hi),
                            env.Or(False, *[env.Not(c) for c in hi])))


def h_filtered(env, n):
    """what counts are the scores left by filtering"""
    np = env.np
    P = pattern(env, n)
    s = env.ints('s', n, 0, 1)
    d = M.container(env, P, s, (0, 1, 1))
    keep = [env.bool('keep%d' % j) for j in range(n)]
    keep = [bool(c) for c in keep]
    env.assume(any(keep))
    f = d.filter_event(np.array(keep, dtype=bool))
    left = [x for x, c in zip(s, keep) if c]
    accepts(env, f, both(env, left))


def h_again(env, n):
    """a refusal or success leaves nothing behind for the next fit"""
    P = pattern(env, n)
    m = M.new(env, 'LogisticPMF', C=0.5, k=1, random_state=3)
    count = 0
    for t in 'ab':
        s = env.ints(t, n, 0, 2)
        d = M.container(env, P, s, (0, 1, 1))
        try:
            m.fit(d)
            ok = True
        except ValueError:
            ok = False
        count += ok
        good = both(env, list(s))
        env.check(good if ok else env.Not(good), 'same rule every time')
        env.check(len(env.optimizer.calls) == count, 'optimised if accepted')


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, fn, **kw):
        cs.append(Case(name, fn, kw))
    top = 4 if q else 5
    for n in range(1, top + 1):
        for kind in ('int', 'real'):
            if kind == 'real' and n > (3 if q else 4):
                continue
            add('scores-%s-%d' % (kind, n), h_domain, n=n, kind=kind,
                dom=(0, 1, 1))
        add('levels-%d' % n, h_levels, n=n, kind='bit')
        add('filtered-%d' % n, h_filtered, n=n)
    for j, dom in enumerate(DOMAINS):
        add('domain-%d' % j, h_domain, n=2, kind='bit', dom=dom)
        add('assigned-%d' % j, h_assigned, n=2, kind='bit', dom=dom)
        if not q:
            add('domain-%d-real' % j, h_domain, n=3, kind='real', dom=dom)
    add('any-1', h_any, n=1)
    add('any-2', h_any, n=2)
    add('levels-real', h_levels, n=2, kind='real')
    add('again-2', h_again, n=2)
    for j, dom in enumerate([(1, 5, 1), (0, 1, 1), (1, 5, 0.5)]):
        for n in (1, 2) + (() if q else (3,)):
            add('binarised-%d-%d' % (j, n), h_binarised, n=n, dom=dom)
    return cs
