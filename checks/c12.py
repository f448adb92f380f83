"""C12: predictions depend only on the event's own selected ids."""
from symex.cases import Case
from . import models as M
from .c11 import training, unknown

BOUNDS = ('four recommenders, k = 1 or 2; 1 to 4 training events of eleven '
          'id patterns or 2 with symbolic ids, among them three-column '
          'events and columns sharing an object type; batches of up to '
          'three events with symbolic ids (known or not), and one of 300 '
          '(thorough: 1100) events; arbitrary '
          'parameters; integer, string and mixed forms of the query.')
ASSUMPTIONS = ('real arithmetic instead of floating point; the optimiser '
               'is replaced by one returning an arbitrary vector; values of '
               'the item finders are compared for predictors in [-34, 34].')


def build(env, model, P, k, ue=True, filt=False):
    if model == 'MultinomialPLSA':
        mk = M.filtered if filt else M.container
        d = mk(env, P, env.np.array([1 + i % 2 for i in range(P.n)]),
               (1, 2, 1))
        alpha = 1 if k > 1 else env.real('alpha', 0.01, 10)
        m = M.new(env, model, k=k, alpha=alpha, random_state=3, maxiter=0,
                  use_expectation=ue)
    else:
        d = training(env, model, P, filt)
        m = M.new(env, model, C=0.5, k=k, random_state=3)
    env.runs('fit', m.fit, d, **P.fit_args())
    return d, m


def flat(r):
    return r.reshape(-1)


def ids(env, P, name, only=None):
    """an event of unknown origin: each id any of a few or another one"""
    out = list(P.rows[0])
    for j in range(P.width):
        if only is not None and j not in only:
            continue
        if P.kind == 'str':
            base = sorted(set(str(r[j]) for r in P.rows))[:2]
            out[j] = env.choice('%s%d' % (name, j), base + ['qqq', '', base[0] + 'z'])
        else:
            out[j] = env.int('%s%d' % (name, j), -2, 30)
    return out


def mixed(P, j):
    """known user and unknown item, the other way round, unknown ones"""
    out = list(P.rows[-1])
    if j % 3 != 1:
        out[P.ix[1]] = unknown(P)
    if j % 3 != 0:
        out[P.ix[0]] = unknown(P)
    return out


def known(m, ot, eid):
    try:
        m.to_iid(ot, eid)
        return True
    except ValueError:
        return False


def keep_small(env, m, model, d, P):
    """stay where the logistic function is not clipped"""
    if model not in ('LogisticPMF', 'ImplicitLogisticPMF'):
        return
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    for u in range(nu + 1):
        for i in range(ni + 1):
            z = M.linear(m, u, i)
            env.assume(env.And(z >= -34, z <= 34))


def batch(env, model, pat, k, n=2, sym=1, kind='int', ue=True,
          filt=False):
    """a batch is predicted like its events one by one"""
    np = env.np
    P = M.Pattern(env, pat, kind)
    d, m = build(env, model, P, k, ue, filt)
    q = [ids(env, P, 'q%d_' % j, P.ix) if j < sym else mixed(P, j)
         for j in range(n)]
    keep_small(env, m, model, d, P)
    arr = np.array(q)
    keep = arr.copy()
    got = env.runs('predict', m.predict, arr)
    env.eq(arr, keep, 'predicting leaves the events alone')
    got = flat(got)
    env.eq(len(got), n, 'one value per event')
    for j in range(n):
        a = flat(env.runs('predict one', m.predict, np.array(q[j])))
        env.eq(len(a), 1, 'one value for one event')
        env.eq(got[j], a[0], 'batch and single prediction')
        b = flat(env.runs('predict one row', m.predict, np.array([q[j]])))
        env.eq(b[0], a[0], 'one-row batch and event')
    back = flat(env.runs('predict', m.predict, np.array(q[::-1])))
    for j in range(n):
        env.eq(back[n - 1 - j], got[j], 'order of the batch')
    lst = flat(env.runs('predict list', m.predict, q))
    env.eq(lst, got, 'list of lists')
    tup = flat(env.runs('predict tuple', m.predict, tuple(q[0])))
    env.eq(tup[0], got[0], 'tuple')


def large(env, model, pat, n):
    """a long batch repeats the values of its few different events"""
    np = env.np
    P = M.Pattern(env, pat)
    k = 2 if model == 'MultinomialPLSA' else 1
    d, m = build(env, model, P, k)
    keep_small(env, m, model, d, P)
    few = [list(r) for r in P.rows] + [mixed(P, j) for j in range(3)]
    one = [flat(env.runs('predict one', m.predict, np.array(r)))[0]
           for r in few]
    which = [(i * 7 + i // 5) % len(few) for i in range(n)]
    got = flat(env.runs('predict', m.predict,
                        np.array([few[j] for j in which])))
    env.eq(len(got), n, 'one value per event')
    env.eq([got[i] for i in range(n)], [one[j] for j in which],
           'long batch and single prediction')


def columns(env, model, pat, k, kind='int', ue=True):
    """events agreeing in the selected ids get the same prediction"""
    np = env.np
    P = M.Pattern(env, pat, kind)
    d, m = build(env, model, P, k, ue)
    a = ids(env, P, 'a', P.ix)
    b = ids(env, P, 'b', [j for j in range(P.width) if j not in P.ix])
    keep_small(env, m, model, d, P)
    for j in P.ix:
        b[j] = a[j]
    ra = flat(env.runs('predict', m.predict, np.array([a, b, a])))
    env.eq(ra[0], ra[1], 'the other columns do not matter')
    env.eq(ra[0], ra[2], 'same event, same value')
    # internal ids decide: known ones by table, all others alike
    c = list(b)
    for ot, j in ((P.ut, P.ix[0]), (P.it, P.ix[1])):
        if not known(m, ot, c[j]):
            c[j] = unknown(P)
    rc = flat(env.runs('predict', m.predict, np.array([c])))
    env.eq(rc[0], ra[0], 'unknown ids are all alike')


def rival(env, model, wide, narrow, k, kinds=('int', 'int'), ue=True):
    """two ways to give the same training pairs yield the same model

    wide: training events (n_otypes, event_otypes, event_index, rows), some
    of their ids symbolic; narrow: the same pairs otherwise."""
    np = env.np
    same = M.SameProblem(env)
    out = []
    for j, spec in enumerate((wide, narrow)):
        P = M.Pattern.__new__(M.Pattern)
        P.name, P.kind = 'rival', kinds[j]
        P.n_otypes, P.event_otypes, P.event_index, rows = spec(env)
        if kinds[j] == 'str':
            rows = [['%03d' % v for v in r] for r in rows]
        P.rows = rows
        P.n, P.width = len(rows), len(rows[0])
        P.ots = list(P.event_otypes or range(P.width))
        P.ix = list(P.event_index or (0, 1))
        P.ut, P.it = (P.ots[c] for c in P.ix)
        d, m = build(env, model, P, k, ue)
        if not j:
            keep_small(env, m, model, d, P)
        out.append((P, d, m))
    (P, d, m), (Q, e, w) = out
    same.compare(0, 1)
    env.eq(m.fit_results_['initial_loss'], w.fit_results_['initial_loss'],
           'same initial loss')
    # the same queries
    us = sorted(set(r[P.ix[0]] for r in P.rows)) + [unknown(P)]
    its = sorted(set(r[P.ix[1]] for r in P.rows)) + [unknown(P)]
    ra, rb = [], []
    for u in us:
        for i in its:
            a, b = list(P.rows[0]), list(Q.rows[0])
            a[P.ix[0]], a[P.ix[1]] = u, i
            if Q.kind == 'str' and P.kind != 'str':
                u2, i2 = ('%03d' % v if v != 77777 else 'qqq'
                          for v in (u, i))
            else:
                u2, i2 = u, i
            b[Q.ix[0]], b[Q.ix[1]] = u2, i2
            ra.append(a)
            rb.append(b)
    pa = flat(env.runs('predict', m.predict, np.array(ra)))
    pb = flat(env.runs('predict', w.predict, np.array(rb)))
    env.eq(pa, pb, 'same predictions')


PAIRS = [(4, 10), (2, 20), (4, 20)]


def plain(env):
    return 2, None, None, [list(p) for p in PAIRS]


def swapped(env):
    return 2, (1, 0), (1, 0), [[i, u] for u, i in PAIRS]


def three(env):
    """types user, item and another one"""
    return 3, None, (0, 1), [[u, i, env.int('w%d' % j, 0, 30)]
                             for j, (u, i) in enumerate(PAIRS)]


def three_x(env):
    return 3, None, (2, 1), [[env.int('w%d' % j, 0, 30), i, u]
                             for j, (u, i) in enumerate(PAIRS)]


def shuffled(env):
    return 3, (2, 0, 1), (1, 0), [[i, u, env.int('w%d' % j, 0, 30)]
                                  for j, (u, i) in enumerate(PAIRS)]


def inner(env):
    """an extra column of the user type holding known users only"""
    return 2, (0, 1, 0), (0, 1), [
        [u, i, env.If(env.bool('w%d' % j), 2, 4)]
        for j, (u, i) in enumerate(PAIRS)]


RIVALS = {'swapped': swapped, 'three': three, 'three-x': three_x,
          'shuffled': shuffled, 'inner': inner}


def cases(tier):
    q = tier == 'quick'
    cs = []
    tags = {'PMF': 'pmf-', 'LogisticPMF': 'log-',
            'ImplicitLogisticPMF': 'imp-', 'MultinomialPLSA': 'plsa-'}

    def add(name, fn, model, **kw):
        cs.append(Case(tags[model] + name, fn, dict(kw, model=model)))
    for model in tags:
        k = 2 if model == 'MultinomialPLSA' else 1
        for p in M.PATTERNS:
            if p == 'one' and model == 'LogisticPMF':
                continue
            if q and model != 'PMF' and p in ('repeat', 'star', 'late'):
                continue
            add('batch-' + p, batch, model, pat=p, k=k,
                n=3, sym=2 if not q or p == 'grid' else 1)
            add('columns-' + p, columns, model, pat=p, k=k)
        for p in ('grid', 'uiu21', 'swap'):
            add('batch-str-' + p, batch, model, pat=p, k=k, kind='str')
            add('columns-str-' + p, columns, model, pat=p, k=k, kind='str')
        add('batch-large', large, model, pat='grid', n=300 if q else 1100)
        add('batch-filtered', batch, model, pat='late', k=k, filt=True)
        if model == 'MultinomialPLSA':
            add('batch-mode', batch, model, pat='grid', k=1, ue=False)
            add('columns-mode', columns, model, pat='uiu21', k=1, ue=False)
        for r in RIVALS:
            add('same-' + r, rival, model, wide=RIVALS[r], narrow=plain,
                k=k)
        add('same-str', rival, model, wide=plain, narrow=plain, k=k,
            kinds=('int', 'str'))
        add('same-str-swapped', rival, model, wide=plain, narrow=swapped,
            k=k, kinds=('int', 'str'))
    return cs
