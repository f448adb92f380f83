"""C16: a seed makes fitting reproducible and isolated."""
from symex.cases import Case
from . import models as M
from .c11 import training, unknown

BOUNDS = ('four recommenders, k = 1 or 2, seven id patterns of 1 to 4 '
          'events (symbolic scores), seeds 0, 3 and 12345; every draw an '
          'arbitrary number determined by the seed and its place in the '
          'stream; two or three fits with fits of other models, draws from '
          'or reseeding of the global generator in between.')
ASSUMPTIONS = ('real arithmetic instead of floating point; the optimiser is '
               'replaced by one returning an arbitrary vector, the same for '
               'the fits that are compared; random generators produce a '
               'stream determined by their seed.')

PARTS = {'MultinomialPLSA': ('pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_')}
FACTORS = ('mu_', 'bu_', 'bi_', 'p_', 'q_')


def data(env, model, P):
    if model == 'MultinomialPLSA':
        return M.container(env, P, env.np.array(
            [1 + i % 2 for i in range(P.n)]), (1, 2, 1))
    return training(env, model, P)


def make(env, model, seed, k, it=0):
    if model == 'MultinomialPLSA':
        return M.new(env, model, k=k, alpha=0.5, random_state=seed,
                     maxiter=it, tol=0)
    return M.new(env, model, C=0.5, k=k, random_state=seed)


def learned(m, model):
    out = {a: getattr(m, a).copy() for a in PARTS.get(model, FACTORS)}
    r = m.fit_results_
    out['initial_loss'] = r['initial_loss']
    for n in ('n_users', 'n_items', 'n_events', 'n_parameters'):
        out[n] = int(r[n])
    if model == 'MultinomialPLSA':
        for n in ('final_loss', 'status', 'n_iterations', 'message'):
            out[n] = r[n]
    return out


class Fits:
    """counts which optimisations are compared"""

    def __init__(self, env):
        self.env, self.same = env, M.SameProblem(env)
        self.calls = []

    def fit(self, m, d, P):
        env = self.env
        n = len(env.optimizer.calls)
        env.runs('fit', m.fit, d, **P.fit_args())
        self.calls.append(n if len(env.optimizer.calls) > n else None)

    def compare(self, i, j):
        a, b = self.calls[i], self.calls[j]
        if a is not None and b is not None:
            self.same.compare(a, b)


def eq(env, a, b, what):
    for n in a:
        env.eq(a[n], b[n], what + ': ' + n)


def other(env, fits, d, P, ways=('fit', 'draws', 'seed', 'same-class')):
    """something else happens that uses random numbers"""
    what = env.choice('between', ways)
    np = env.np
    if what == 'fit':
        Q = M.Pattern(env, 'star')
        e = M.container(env, Q, np.array([2, 5, 1]), (1, 5, 1))
        fits.fit(M.new(env, 'PMF', C=0.1, k=2, random_state=None), e, Q)
    elif what == 'draws':
        np.random.normal(0.0, 1.0, (3,))
        np.random.uniform()
    elif what == 'seed':
        np.random.seed(99)
    else:
        return True
    return False


def queries(env, P, d):
    us = [d.to_eid(P.ut, 0), unknown(P)]
    its = [d.to_eid(P.it, 0), unknown(P)]
    out = []
    for u in us:
        for i in its:
            row = list(P.rows[0])
            row[P.ix[0]], row[P.ix[1]] = u, i
            out.append(row)
    return env.np.array(out)


def h_seed(env, model, pat, k, seed, again=False, it=0):
    """the same seed, on another instance or on the same one"""
    np = env.np
    P = M.Pattern(env, pat)
    d = data(env, model, P)
    fits = Fits(env)
    np.random.normal(0.0, 1.0, (2,))
    st = np.random.get_state()
    m = make(env, model, seed, k, it)
    w = m if again else make(env, model, seed, k, it)
    fits.fit(m, d, P)
    env.check(np.random.get_state() == st, 'the global generator is '
              'not touched')
    a = learned(m, model)
    if model != 'MultinomialPLSA':
        pa = None
    else:
        pa = env.runs('predict', m.predict, queries(env, P, d))
    if other(env, fits, d, P, *([('draws',)] if it else [])):
        # another instance of the class with another seed
        fits.fit(make(env, model, 8, k), d, P)
    st = np.random.get_state()
    fits.fit(w, d, P)
    env.check(np.random.get_state() == st, 'the global generator is '
              'not touched')
    fits.compare(0, len(fits.calls) - 1)
    eq(env, learned(w, model), a, 'same seed')
    if not again:
        eq(env, learned(m, model), a, 'the first model stays')
        if pa is not None:
            env.eq(env.runs('predict', w.predict, queries(env, P, d)), pa,
                   'same predictions')


def h_object(env, model, pat, k):
    """a generator object: its stream is used, as the seed's would be"""
    np = env.np
    P = M.Pattern(env, pat)
    d = data(env, model, P)
    fits = Fits(env)
    rs = np.random.RandomState(7)
    st, own = np.random.get_state(), rs.get_state()
    m = make(env, model, rs, k)
    fits.fit(m, d, P)
    a = learned(m, model)
    env.check(np.random.get_state() == st, 'the global generator is '
              'not touched')
    env.check(rs.get_state() != own, 'the given generator is used')
    w = make(env, model, 7, k)
    fits.fit(w, d, P)
    fits.compare(0, 1)
    eq(env, learned(w, model), a, 'generator and its seed')


def h_global(env, model, pat, k):
    """no seed: the stream of the global generator is used"""
    np = env.np
    P = M.Pattern(env, pat)
    d = data(env, model, P)
    fits = Fits(env)
    np.random.seed(7)
    st = np.random.get_state()
    m = make(env, model, None, k)
    fits.fit(m, d, P)
    a = learned(m, model)
    env.check(np.random.get_state() != st, 'the global generator is used')
    w = make(env, model, 7, k)
    fits.fit(w, d, P)
    fits.compare(0, 1)
    eq(env, learned(w, model), a, 'global generator and its seed')


def cases(tier):
    q = tier == 'quick'
    cs = []
    tags = {'PMF': 'pmf-', 'LogisticPMF': 'log-',
            'ImplicitLogisticPMF': 'imp-', 'MultinomialPLSA': 'plsa-'}
    for model, t in tags.items():
        k = 2 if model == 'MultinomialPLSA' else 1

        def add(name, fn, **kw):
            cs.append(Case(t + name, fn, dict(kw, model=model)))
        pats = ['grid', 'repeat', 'uiu21', 'uu']
        if not q:
            pats += ['late', 'star', 'swap', 'gap']
        for p in pats:
            for again in (False, True):
                if q and again and p not in ('grid', 'repeat'):
                    continue
                add('seed-%s%s' % (p, '-again' * again), h_seed, pat=p, k=k,
                    seed=3, again=again)
            add('object-' + p, h_object, pat=p, k=k)
            add('global-' + p, h_global, pat=p, k=k)
        for s in (0, 12345):
            add('seed%d' % s, h_seed, pat='grid', k=k, seed=s)
        if model == 'MultinomialPLSA':
            for again in (False, True):
                add('it' + '-again' * again, h_seed, pat='one', k=k,
                    seed=3, it=1, again=again)
        if not q or model == 'PMF':
            add('seed-k2', h_seed, pat='grid', k=2 + (k > 1), seed=3)
    return cs
