"""C08: PMF training minimises the stated loss with its exact gradient."""
from symex.cases import Case
from . import models as M

BOUNDS = ('2 events with symbolic ids and 1 to 4 events with ids of eleven '
          'patterns (repeated pairs, users and items without events, '
          'swapped and 3-column events, one shared type), k = 1 or 2 '
          '(thorough: 3), symbolic scores, symbolic C in [0, 100], '
          'symbolic parameter vectors in [-100, 100].')
ASSUMPTIONS = ('real arithmetic instead of floating point; the optimiser is '
               'replaced by one that evaluates what it is handed at an '
               'arbitrary point and returns an arbitrary point.')


def h(env, pat, k, kind='int', n=2, filt=False, big=False):
    np = env.np
    P = M.Pattern(env, pat, kind, n)
    s = env.reals('s', P.n, 1, 5)
    C = env.real('C', 0, 100)
    d = (M.filtered if filt else M.container)(env, P, s)
    m = M.new(env, 'PMF', C=C, k=k, random_state=1)
    w = M.Watch(env)
    env.runs('fit', m.fit, d, **P.fit_args())
    env.check(w.n == 1, 'one optimisation')
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    M.sizes(env, m, nu, ni, k)
    env.check(w.size == 1 + (nu + ni) * (1 + k), 'number of parameters')
    e = 0
    for (u, i), sc in zip(P.pairs(m), s):
        r = sc - M.linear(m, u, i)
        e = e + r * r
    env.eq(w.loss, (e + C * M.penalty(m, nu, ni)) / 2, 'loss')


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, **kw):
        cs.append(Case(name, h, kw))
    for p in M.PATTERNS:
        add(p + '-k1', pat=p, k=1)
        if p in ('grid', 'repeat', 'uu', 'uiu21') or not q:
            add(p + '-k2', pat=p, k=2)
        if not q:
            add(p + '-k3', pat=p, k=3)
    add('grid-str', pat='grid', k=1, kind='str')
    add('swap-str', pat='swap', k=2, kind='str')
    add('late-filtered', pat='late', k=1, filt=True)
    add('uu-filtered', pat='uu', k=1, filt=True)
    for p in M.SYMBOLIC:
        add(p, pat=p, k=1, n=2)
    if not q:
        for p in M.SYMBOLIC:
            add(p + '-k2', pat=p, k=2, n=2)
        add('s-ui-3', pat='s-ui', k=1, n=3)
        add('s-uu-str', pat='s-uu', k=1, n=2, kind='str')
    return cs
