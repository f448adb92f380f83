"""C15: pLSA predicts the mean or mode of the rating distribution."""
from symex.cases import Case
from . import models as M
from .c11 import unknown
from .c14 import params

BOUNDS = ('1 to 4 training events of eleven id patterns, 2 or 3 score '
          'levels of several domains, 1 to 3 latent classes, any first '
          'responsibilities, symbolic smoothing in [0.01, 10], 0 or 1 '
          'iterations; every known pair, unknown users, unknown items and '
          'both, several events at once (the mode: one or two).')
ASSUMPTIONS = ('real arithmetic instead of floating point; Dirichlet draws '
               'are arbitrary points of the open simplex (components at '
               'least 0.001).')


def h(env, pat, k, dom, it=0, ue=True, kind='int', sc=(0, 1, 2, 0),
      default=False, inside=True, batch=False):
    np = env.np
    P = M.Pattern(env, pat, kind)
    alpha = env.real('alpha', 0.01, 10)
    nr = int(round((dom[1] - dom[0]) / dom[2])) + 1
    levels = [dom[0] + v * dom[2] for v in range(nr)]
    s = np.array([levels[sc[j] % nr] for j in range(P.n)])
    d = M.container(env, P, s, dom)
    kw = {} if default else {'use_expectation': ue}
    m = M.new(env, 'MultinomialPLSA', k=k, alpha=alpha, random_state=5,
              maxiter=it, tol=0, **kw)
    env.runs('fit', m.fit, d, **P.fit_args())
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    pz, pr, px, py = params(m, nr, nu, ni, k)
    us = [d.to_eid(P.ut, u) for u in range(nu)] + [unknown(P)]
    its = [d.to_eid(P.it, i) for i in range(ni)] + [unknown(P)]
    eev, want = [], []
    for u in range(nu + 1):
        for i in range(ni + 1):
            if not ue and (u, i) not in ((0, 0), (nu, 0), (0, ni),
                                         (nu, ni)):
                continue
            row = list(P.rows[0])
            row[P.ix[0]], row[P.ix[1]] = us[u], its[i]
            eev.append(row)
            p = []
            for v in range(nr):
                t = 0
                for z in range(k):
                    w = pz[z] * pr[z][v]
                    if u < nu:
                        w = w * px[z][u]
                    if i < ni:
                        w = w * py[z][i]
                    t = t + w
                p.append(t)
            want.append(p)
    if not ue:
        # one at a time: few enough paths
        n = len(eev)
        js = [env.choice('query', list(range(n)))]
        if batch:
            js.append((js[0] + 1) % n)
        eev, want = [eev[j] for j in js], [want[j] for j in js]
    got = env.runs('predict', m.predict, np.array(eev)).reshape(-1)
    env.eq(len(got), len(eev), 'one prediction per event')
    for g, p in zip(got, want):
        if ue:
            num = den = 0
            for v in range(nr):
                num = num + levels[v] * p[v]
                den = den + p[v]
            env.eq(g, num / den, 'mean of the rating distribution')
            # (follows from the mean; shown where that is cheap)
            if not inside:
                continue
            env.check(g >= levels[0] - 1e-9, 'within the domain')
            env.check(g <= levels[-1] + 1e-9, 'within the domain')
        else:
            env.check(env.Or(*[g == x for x in levels]), 'a rating level')
            for v in range(nr):
                for w in range(nr):
                    if v != w:
                        env.check(env.Implies(g == levels[v],
                                              p[v] >= p[w]),
                                  'most probable level')


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, **kw):
        cs.append(Case(name, h, kw, signs=True,
                       timeout=1 if name.startswith('mode') else 3))
    for p in M.PATTERNS:
        add('mean-' + p, pat=p, k=2, dom=(1, 3, 1), inside=p != 'late')
        if not q:
            add('mean-%s-it' % p, pat=p, k=2, dom=(1, 2, 1), it=1,
                inside=False)
            add('mean-%s-k3' % p, pat=p, k=3, dom=(1, 3, 1),
                inside=False)
        add('mode-' + p, pat=p, k=1, dom=(1, 3, 1), ue=False)
        if p in ('grid', 'uiu21', 'swap') or not q:
            add('mode-%s-k2' % p, pat=p, k=2, dom=(1, 2, 1), ue=False)
    for j, dom in enumerate([(0, 1, 1), (-2, 2, 2), (0.5, 1.5, 0.5),
                             (-1, -0.5, 0.25), (1, 5, 1)]):
        add('mean-dom%d' % j, pat='grid', k=1 if j > 3 else 2, dom=dom)
        add('mode-dom%d' % j, pat='grid', k=1, dom=dom, ue=False)
    add('mean-k3', pat='grid', k=3, dom=(1, 2, 1), inside=False)
    add('mean-it', pat='repeat', k=2, dom=(1, 2, 1), it=1, inside=False)
    for p in ('grid', 'uiu21') if q else M.PATTERNS:
        add('mode-two-' + p, pat=p, k=1, dom=(1, 2, 1), ue=False, batch=True)
    add('mode-two-three', pat='grid', k=1, dom=(0, 2, 1), ue=False,
        batch=True)
    add('mean-default', pat='grid', k=2, dom=(1, 2, 1), default=True)
    add('mean-str', pat='uiu21', k=2, dom=(1, 2, 1), kind='str')
    add('mode-str', pat='grid', k=1, dom=(1, 3, 1), kind='str', ue=False)
    return cs
