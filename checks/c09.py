"""C09: logistic PMF training minimises cross-entropy with its gradient."""
from symex.cases import Case
from . import models as M

BOUNDS = ('2 events with symbolic ids and 2 to 4 events with ids of ten '
          'patterns, k = 1 or 2 (thorough: 3), every choice of binary '
          'scores, symbolic C in [0, 100], symbolic parameter vectors in '
          '[-100, 100]; gradients at vectors in [-3, 3] (away from the '
          'clipping bounds of the sigmoid).')
ASSUMPTIONS = ('real arithmetic instead of floating point; exp, log and the '
               'logistic function by axioms; the optimiser is replaced by '
               'one that evaluates what it is handed at an arbitrary point '
               'and returns an arbitrary point.')


def entropy(env, m, pairs, targets):
    """summed cross-entropy of targets, with the sigmoid of the library"""
    np = env.np
    sig = env.load('kamrecsys.utils').safe_sigmoid
    e = 0
    for (u, i), t in zip(pairs, targets):
        p = sig(np.array([M.linear(m, u, i)], dtype=float))[0]
        e = e - env.log(p) if t else e - env.log(1 - p)
    return e


def h(env, pat, k, kind='int', n=2, filt=False, how='given'):
    np = env.np
    P = M.Pattern(env, pat, kind, n)
    C = env.real('C', 0, 100)
    if how == 'given':
        sc = M.binary(env, 's', P.n)
        s = np.array(sc, dtype=float if pat != 'swap' else int)
        d = (M.filtered if filt else M.container)(env, P, s, (0, 1, 1))
    else:
        s = env.reals('s', P.n, 1, 5)
        d = M.container(env, P, s)
        d.binarize_score()
        sc = [1 if x > 3 else 0 for x in s]
        env.assume(0 < sum(sc) < P.n)
    m = M.new(env, 'LogisticPMF', C=C, k=k, random_state=1)
    w = M.Watch(env, 3)
    env.runs('fit', m.fit, d, **P.fit_args())
    env.check(w.n == 1, 'one optimisation')
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    M.sizes(env, m, nu, ni, k)
    env.check(w.size == 1 + (nu + ni) * (1 + k), 'number of parameters')
    e = entropy(env, m, P.pairs(m), sc)
    env.eq(w.loss, e + C * M.penalty(m, nu, ni) / 2, 'loss')


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, **kw):
        cs.append(Case(name, h, kw))
    for p in M.PATTERNS:
        if p == 'one':
            continue
        add(p + '-k1', pat=p, k=1)
        if p in ('grid', 'repeat', 'uu', 'uiu21') or not q:
            add(p + '-k2', pat=p, k=2)
        if not q:
            add(p + '-k3', pat=p, k=3)
    add('grid-str', pat='grid', k=1, kind='str')
    add('grid-bin', pat='grid', k=1, how='binarised')
    add('star-filtered', pat='star', k=1, filt=True)
    if not q:
        add('late-filtered', pat='late', k=1, filt=True)
    for p in ('s-ui', 's-swap') + (() if q else ('s-uu', 's-uiu')):
        add(p, pat=p, k=1, n=2)
    return cs
