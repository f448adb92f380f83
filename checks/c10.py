"""C10: implicit PMF trains on every user-item pair, seen or not."""
from symex.cases import Case
from . import models as M
from .c09 import entropy

BOUNDS = ('2 events with symbolic ids and 1 to 4 events with ids of eleven '
          'patterns, one pair up to 300 times, up to 3 users and 3 items, '
          'k = 1 or 2 (thorough: 3), '
          'symbolic C in [0, 100], symbolic parameter vectors in '
          '[-100, 100]; gradients at vectors in [-3, 3] (away from the '
          'clipping bounds of the sigmoid); four matrix formats.')
ASSUMPTIONS = ('real arithmetic instead of floating point; exp, log and the '
               'logistic function by axioms; the optimiser is replaced by '
               'one that evaluates what it is handed at an arbitrary point '
               'and returns an arbitrary point.')


def h(env, pat, k, kind='int', n=2, filt=False, score=False, grad=True):
    np = env.np
    P = M.Pattern(env, pat, kind, n)
    C = env.real('C', 0, 100)
    # scores, if any, play no part
    s = env.reals('s', P.n, 1, 5) if score else None
    d = (M.filtered if filt else M.container)(env, P, s)
    m = M.new(env, 'ImplicitLogisticPMF', C=C, k=k, random_state=1)
    w = M.Watch(env, 3)
    env.runs('fit', m.fit, d, **P.fit_args())
    env.check(w.n == 1, 'one optimisation')
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    M.sizes(env, m, nu, ni, k)
    env.check(w.size == 1 + (nu + ni) * (1 + k), 'number of parameters')
    seen = set(P.pairs(m))
    every = [(u, i) for u in range(nu) for i in range(ni)]
    e = entropy(env, m, every, [p in seen for p in every])
    env.eq(w.loss, e + C * M.penalty(m, nu, ni) / 2, 'loss')


def often(env, n):
    """pairs that occur very often count once"""
    rows = [[1, 10]] * n + [[2, env.int('item', 20, 99)]] * 2
    D = env.load('kamrecsys.data')
    d = D.EventData()
    d.set_event(env.np.array(rows))
    seen = {(0, 0), (1, 1)}
    want = [[1, 0], [0, 1]]
    got = {}

    def hook(call, x0):
        for f in ('csr', 'csc', 'lil', 'array'):
            got[f] = m.get_event_array(f)[0]
    m = M.new(env, 'ImplicitLogisticPMF', C=1, k=1, random_state=1)
    w = M.Watch(env, 3)
    env.cfg_hooks['minimize'] = lambda call, x0: (hook(call, x0),
                                                  w(call, x0))
    env.runs('fit', m.fit, d)
    for f, a in got.items():
        a = a if f == 'array' else a.toarray()
        for u in range(2):
            for i in range(2):
                env.eq(a[u, i], want[u][i], 'entry of ' + f)
    every = [(u, i) for u in range(2) for i in range(2)]
    e = entropy(env, m, every, [p in seen for p in every])
    env.eq(w.loss, e + M.penalty(m, 2, 2) / 2, 'loss')


def matrix(env, pat, kind='int', n=2, filt=False):
    """the feedback matrix, asked for while the model has its data"""
    P = M.Pattern(env, pat, kind, n)
    d = (M.filtered if filt else M.container)(env, P, None)
    got = {}

    def hook(call, x0):
        for f in ('csr', 'csc', 'lil', 'array'):
            got[f] = m.get_event_array(f)
        got['default'] = m.get_event_array()
        env.raises(TypeError, 'unknown format', m.get_event_array, 'coo?')
    env.cfg_hooks['minimize'] = hook
    m = M.new(env, 'ImplicitLogisticPMF', random_state=1)
    env.runs('fit', m.fit, d, **P.fit_args())
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    seen = set(P.pairs(m))
    want = [[1 if (u, i) in seen else 0 for i in range(ni)]
            for u in range(nu)]
    for f, (a, no) in got.items():
        env.eq([int(x) for x in no], [nu, ni], 'numbers of objects')
        if f == 'array':
            env.check(not env.sparse.issparse(a), 'a plain array')
        else:
            env.check(env.sparse.issparse(a), 'a sparse matrix')
            env.check(a.format == ('csr' if f == 'default' else f),
                      'format ' + f)
            env.check(a.nnz == len(seen), 'stored entries of ' + f)
            a = a.toarray()
        env.eq(list(a.shape), [nu, ni], 'shape of ' + f)
        for u in range(nu):
            for i in range(ni):
                env.eq(a[u, i], want[u][i], 'entry of ' + f)


def cases(tier):
    q = tier == 'quick'
    cs = []

    def add(name, fn=h, **kw):
        cs.append(Case(name, fn, kw))
    for p in M.PATTERNS:
        big = p in ('uu', 'uiu21', 'uiu02')
        add(p + '-k1', pat=p, k=1, score=p in ('swap', 'one', 'late'))
        if p in ('grid', 'repeat', 'swap') or not q:
            add(p + '-k2', pat=p, k=2)
        if not q:
            add(p + '-k3', pat=p, k=3)
        add('matrix-' + p, matrix, pat=p)
    add('grid-str', pat='grid', k=1, kind='str')
    add('repeat-filtered', pat='repeat', k=1, filt=True)
    add('matrix-filtered', matrix, pat='uiu21', filt=True)
    for n in (1, 256) if q else (1, 127, 128, 255, 256, 300):
        add('often-%d' % n, often, n=n)
    for p in ('s-ui', 's-swap', 's-uu') + (() if q else ('s-uiu',)):
        add('matrix-' + p, matrix, pat=p, n=2 if p == 's-uu' else 3)
    for p in ('s-ui',) + (() if q else ('s-swap', 's-uu', 's-uiu')):
        add(p, pat=p, k=1, n=2)
    return cs
