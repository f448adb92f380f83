"""C11: a fitted factor model predicts from the optimiser's solution."""
from symex.cases import Case
from . import models as M

BOUNDS = ('three models; 2 events with symbolic ids and 1 to 4 events with '
          'ids of eleven patterns, k = 1 or 2 (thorough: 3); every known '
          'pair, unknown users, unknown items and both; arbitrary solution '
          'vectors in [-100, 100]; for the item finders values are compared '
          'where the logistic function is not clipped (arguments in '
          '[-34, 34]), beyond that only the side of 1/2 and [0, 1].')
ASSUMPTIONS = ('real arithmetic instead of floating point; the optimiser is '
               'replaced by one returning an arbitrary vector.')


def training(env, model, P, filt=False):
    np = env.np
    mk = M.filtered if filt else M.container
    if model == 'PMF':
        return mk(env, P, env.reals('s', P.n, 1, 5))
    if model == 'LogisticPMF':
        return mk(env, P, np.array([i % 2 for i in range(P.n)], dtype=int),
                  (0, 1, 1))
    return mk(env, P, None)


def unknown(P):
    return 'qqq' if P.kind == 'str' else 77777


def h(env, model, pat, k, kind='int', n=2, filt=False, wide=False):
    np = env.np
    P = M.Pattern(env, pat, kind, n)
    d = training(env, model, P, filt)
    m = M.new(env, model, C=0.5, k=k, random_state=3)
    env.runs('fit', m.fit, d, **P.fit_args())
    call = env.optimizer.calls[-1]
    env.check(len(env.optimizer.calls) == 1, 'one optimisation')
    x = call['x']
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    M.sizes(env, m, nu, ni, k)
    # the parameters are those of the solution, each of them used
    par = [m.mu_[0]] + [m.bu_[u] for u in range(nu)] + [
        m.bi_[i] for i in range(ni)]
    par += [m.p_[u, f] for u in range(nu) for f in range(k)]
    par += [m.q_[i, f] for i in range(ni) for f in range(k)]
    env.check(len(par) == len(x), 'number of parameters')
    for v in x:
        env.check(env.Or(False, *[p == v for p in par]),
                  'every component of the solution is a parameter')
    for p in par:
        env.check(env.Or(False, *[p == v for v in x]),
                  'every parameter is a component of the solution')
    # what they predict
    us = [d.to_eid(P.ut, u) for u in range(nu)] + [unknown(P)]
    its = [d.to_eid(P.it, i) for i in range(ni)] + [unknown(P)]
    # the ids in the other columns are of no account
    fill = list(P.rows[0])
    eev, want = [], []
    for u in range(nu + 1):
        for i in range(ni + 1):
            if wide and (u, i) not in ((0, 0), (nu, 0), (0, ni), (nu, ni)):
                continue
            row = list(fill)
            row[P.ix[0]], row[P.ix[1]] = us[u], its[i]
            eev.append(row)
            z = m.mu_[0]
            if u < nu:
                z = z + m.bu_[u]
            if i < ni:
                z = z + m.bi_[i]
            if u < nu and i < ni:
                for f in range(k):
                    z = z + m.p_[u, f] * m.q_[i, f]
            want.append(z)
    sig = env.load('kamrecsys.utils').safe_sigmoid
    if model != 'PMF' and not wide:
        for z in want:
            env.assume(env.And(z >= -34, z <= 34))
    got = env.runs('predict', m.predict, np.array(eev))
    env.eq(list(got.shape), [len(eev)], 'shape of the predictions')
    for g, z in zip(got, want):
        if model == 'PMF':
            env.eq(g, z, 'prediction')
        elif wide:
            env.check(env.And(g >= 0, g <= 1), 'prediction in [0, 1]')
            env.check(env.Implies(z >= 0, g >= 0.5), 'side of 1/2')
            env.check(env.Implies(z <= 0, g <= 0.5), 'side of 1/2')
        else:
            # the two agree within 1e-15, and exactly where not clipped
            env.observe('prediction', g)
            env.check(env.Or(env.close(g, sig(np.array([z]))[0]),
                             env.close(g, env.expit(z))), 'prediction')


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, **kw):
        cs.append(Case(name, h, kw))
    for model in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF'):
        t = {'PMF': 'pmf-', 'LogisticPMF': 'log-',
             'ImplicitLogisticPMF': 'imp-'}[model]
        for p in M.PATTERNS:
            if p == 'one' and model == 'LogisticPMF':
                continue
            add(t + p + '-k1', model=model, pat=p, k=1)
            if p in ('grid', 'uiu21') or not q:
                add(t + p + '-k2', model=model, pat=p, k=2)
            if not q:
                add(t + p + '-k3', model=model, pat=p, k=3)
        add(t + 'grid-str', model=model, pat='grid', k=1, kind='str')
        add(t + 'uiu21-str', model=model, pat='uiu21', k=1, kind='str')
        add(t + 'late-filtered', model=model, pat='late', k=1, filt=True)
        for p in ('s-ui', 's-swap') + (
                ('s-uu',) if model == 'PMF' or not q else ()):
            add(t + p, model=model, pat=p, k=1, n=2)
        if model != 'PMF':
            add(t + 'wide', model=model, pat='grid', k=1, wide=True)
    return cs
