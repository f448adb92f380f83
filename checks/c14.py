"""C14: pLSA training performs exact smoothed EM on distributions."""
from symex.cases import Case
from . import models as M

BOUNDS = ('1 to 4 events with ids of eleven patterns and 2 events with '
          'symbolic ids, 2 or 3 score levels (symbolic scores in some '
          'cases), 1 to 3 latent classes, symbolic smoothing in [0.01, 10], '
          'arbitrary initial responsibilities; the first parameters and 1 '
          'or 2 (thorough: 4) iterations.')
ASSUMPTIONS = ('real arithmetic instead of floating point; Dirichlet draws '
               'are arbitrary points of the open simplex (components at '
               'least 0.001).')


def spec_m(env, q, P, m, sc, alpha, nr, nu, ni, k):
    """smoothed expected counts, normalised"""
    def dist(idx, size):
        out = []
        for z in range(k):
            c = []
            for v in range(size):
                t = alpha
                for j, w in enumerate(idx):
                    if w == v:
                        t = t + q[j][z]
                c.append(t)
            s = sum(c[1:], c[0])
            out.append([x / s for x in c])
        return out
    pairs = P.pairs(m)
    r = dist(sc, nr)
    x = dist([u for u, _ in pairs], nu)
    y = dist([i for _, i in pairs], ni)
    c = []
    for z in range(k):
        t = alpha
        for j in range(P.n):
            t = t + q[j][z]
        c.append(t)
    s = sum(c[1:], c[0])
    return [t / s for t in c], r, x, y


def spec_e(env, par, P, m, sc, k):
    pz, r, x, y = par
    q = []
    for j, (u, i) in enumerate(P.pairs(m)):
        w = [pz[z] * r[z][sc[j]] * x[z][u] * y[z][i] for z in range(k)]
        s = sum(w[1:], w[0])
        q.append([v / s for v in w])
    return q


def spec_loss(env, par, P, m, sc, k):
    pz, r, x, y = par
    t = 0
    for j, (u, i) in enumerate(P.pairs(m)):
        w = [pz[z] * r[z][sc[j]] * x[z][u] * y[z][i] for z in range(k)]
        t = t - env.log(sum(w[1:], w[0]))
    return t / P.n


def params(m, nr, nu, ni, k):
    return ([m.pZ_[z] for z in range(k)],
            [[m.pRgZ_[v, z] for v in range(nr)] for z in range(k)],
            [[m.pXgZ_[v, z] for v in range(nu)] for z in range(k)],
            [[m.pYgZ_[v, z] for v in range(ni)] for z in range(k)])


def fit(env, P, s, dom, k, alpha, maxiter, seed=1, **kw):
    d = M.container(env, P, s, dom)
    m = M.new(env, 'MultinomialPLSA', k=k, alpha=alpha, random_state=seed,
              maxiter=maxiter, tol=0, **kw)
    env.runs('fit', m.fit, d, **P.fit_args())
    return d, m


def same(env, a, b, label):
    for nm, p, q in zip(('latent', 'rating', 'user', 'item'), a, b):
        env.eq(p, q, label + ': ' + nm)


def h(env, pat, k, dom, sc, n, kind='int', n_events=2):
    np = env.np
    P = M.Pattern(env, pat, kind, n_events)
    alpha = env.real('alpha', 0.01, 10)
    nr = int(round((dom[1] - dom[0]) / dom[2])) + 1
    if sc is None:
        s = env.reals('s', P.n, dom[0], dom[1])
        sc = [int(v) for v in M.container(env, P, s, dom).digitize_score(s)]
    else:
        sc = [sc[j % len(sc)] for j in range(P.n)]
        s = np.array([dom[0] + v * dom[2] for v in sc])
    prev = first = None
    for it in range(n + 1):
        d, m = fit(env, P, s, dom, k, alpha, it)
        nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
        env.eq(list(m.pZ_.shape), [k], 'shape of the latent distribution')
        env.eq(list(m.pRgZ_.shape), [nr, k], 'shape of the rating one')
        env.check(m.pXgZ_.shape[0] >= nu and m.pXgZ_.shape[1] == k,
                  'shape of the user one')
        env.check(m.pYgZ_.shape[0] >= ni and m.pYgZ_.shape[1] == k,
                  'shape of the item one')
        par = params(m, nr, nu, ni, k)
        if prev is not None:
            q = spec_e(env, prev, P, m, sc, k)
            same(env, par, spec_m(env, q, P, m, sc, alpha, nr, nu, ni, k),
                 'EM step')
        for dist in [par[0]] + par[1] + par[2] + par[3]:
            env.eq(sum(dist[1:], dist[0]), 1, 'sums to one')
            for p in dist:
                env.check(p >= 0, 'non-negative')
        loss = spec_loss(env, par, P, m, sc, k)
        first = loss if first is None else first
        env.eq(m.fit_results_['initial_loss'], first, 'initial loss')
        env.eq(m.fit_results_['final_loss'], loss, 'final loss')
        prev = par


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, **kw):
        cs.append(Case(name, h, kw))
    two, three = (1, 2, 1), (1, 3, 1)
    for p in M.PATTERNS:
        add(p, pat=p, k=2, dom=two, sc=[0, 1, 1], n=1)
        if not q:
            add(p + '-3', pat=p, k=3, dom=three, sc=[0, 2, 1], n=2)
    add('grid-2', pat='grid', k=2, dom=two, sc=[0, 1, 1], n=2)
    add('repeat-k3', pat='repeat', k=3, dom=(0, 1, 0.5), sc=[2, 0, 2], n=1)
    add('grid-k1', pat='grid', k=1, dom=three, sc=[2, 0, 1], n=2)
    add('swap-str', pat='swap', k=2, dom=two, sc=[1, 0, 0], n=1, kind='str')
    add('one-scores', pat='one', k=2, dom=three, sc=None, n=1)
    add('s-ui', pat='s-ui', k=2, dom=two, sc=[0, 1], n=0 if q else 1)
    add('s-ui-scores', pat='s-ui', k=2, dom=two, sc=None,
        n=0 if q else 1)
    if not q:
        add('late-4', pat='late', k=2, dom=three, sc=[0, 1, 2, 2], n=4)
        add('grid-k3', pat='grid', k=3, dom=two, sc=[0, 1, 1], n=3)
        for p in ('s-swap', 's-uu', 's-uiu'):
            add(p, pat=p, k=2, dom=two, sc=[0, 1], n=1)
    return cs
