"""Data sets and fits shared by the recommender harnesses."""

# name: (n_otypes, event_otypes, event_index, rows of external ids)
PATTERNS = {
    'grid': (2, None, None, [(1, 10), (1, 20), (2, 10)]),
    'repeat': (2, None, None, [(3, 10), (1, 20), (3, 10)]),
    'one': (2, None, None, [(5, 7)]),
    'late': (2, None, None, [(9, 4), (2, 8), (9, 8), (2, 4)]),
    'star': (2, None, None, [(1, 3), (1, 2), (1, 1)]),
    'swap': (2, None, (1, 0), [(1, 10), (2, 10), (2, 20)]),
    'rev': (2, (1, 0), (0, 1), [(1, 10), (1, 20), (2, 20)]),
    'uu': (1, (0, 0), None, [(1, 2), (2, 3), (1, 1)]),
    'uiu02': (2, (0, 1, 0), (0, 2), [(5, 10, 2), (2, 20, 1), (2, 10, 2)]),
    'uiu21': (2, (0, 1, 0), (2, 1), [(1, 10, 5), (2, 20, 1), (7, 10, 5)]),
    'gap': (3, (2, 0), None, [(4, 6), (3, 6), (3, 5)]),
}
SYMBOLIC = {                    # symbolic ids: the same without rows
    's-ui': (2, None, None), 's-swap': (2, None, (1, 0)),
    's-uu': (1, (0, 0), None), 's-uiu': (2, (0, 1, 0), (2, 1)),
}


class Pattern:
    """events in external ids and how they are used"""

    def __init__(self, env, name, kind='int', n=2):
        self.name, self.kind = name, kind
        if name in PATTERNS:
            self.n_otypes, self.event_otypes, ix, rows = PATTERNS[name]
            if kind == 'str':
                rows = [tuple('%s%03d' % ('xyz'[j], r) for j, r in
                              enumerate(row)) for row in rows]
            self.rows = [list(r) for r in rows]
        else:
            self.n_otypes, self.event_otypes, ix = SYMBOLIC[name]
            w = len(self.event_otypes or (0, 1))
            self.rows = [env.ids('e%d_' % i, w, kind) for i in range(n)]
        self.n = len(self.rows)
        self.width = len(self.rows[0])
        self.event_index = ix
        self.ots = list(range(self.width) if self.event_otypes is None
                        else self.event_otypes)
        self.ix = list(ix or (0, 1))
        # object types of "user" and "item"
        self.ut, self.it = (self.ots[j] for j in self.ix)

    def fit_args(self):
        return {} if self.event_index is None else {
            'event_index': self.event_index}

    def pairs(self, model):
        """internal (user, item) ids of the events"""
        return [self.pair(model, r) for r in self.rows]

    def pair(self, model, row):
        return (int(model.to_iid(self.ut, row[self.ix[0]])),
                int(model.to_iid(self.it, row[self.ix[1]])))


def container(env, pat, scores=None, domain=(1, 5, 1), event_feature=None):
    D = env.load('kamrecsys.data')
    np = env.np
    ev = np.array(pat.rows)
    if scores is None:
        d = D.EventData(n_otypes=pat.n_otypes,
                        event_otypes=pat.event_otypes)
        d.set_event(ev, event_feature=event_feature)
    else:
        d = D.EventWithScoreData(n_otypes=pat.n_otypes,
                                 event_otypes=pat.event_otypes)
        d.set_event(ev, scores, domain, event_feature=event_feature)
    return d


def filtered(env, pat, scores, domain=(1, 5, 1)):
    """a container with the events of pat, got by filtering a bigger one"""
    np = env.np
    D = env.load('kamrecsys.data')
    extra = [['w000' if pat.kind == 'str' else 0] * pat.width]
    last = [['zz99' if pat.kind == 'str' else 99] * pat.width]
    ev = np.array(extra + pat.rows + last)
    m = np.array([False] + [True] * pat.n + [False], dtype=bool)
    if scores is None:
        d = D.EventData(n_otypes=pat.n_otypes,
                        event_otypes=pat.event_otypes)
        d.set_event(ev)
    else:
        d = D.EventWithScoreData(n_otypes=pat.n_otypes,
                                 event_otypes=pat.event_otypes)
        d.set_event(ev, np.array([domain[0]] + list(scores) + [domain[1]],
                                 dtype=float), domain)
    return d.filter_event(m)


def objective(call):
    """loss and gradient as functions of the parameter vector alone"""
    fun, jac, args = call['fun'], call['jac'], call['args']
    if jac is True:
        return (lambda x: fun(x, *args)[0]), (lambda x: fun(x, *args)[1])
    f = lambda x: fun(x, *args)
    return f, (lambda x: jac(x, *args)) if callable(jac) else None


MODELS = {
    'PMF': ('kamrecsys.score_predictor', 'PMF'),
    'LogisticPMF': ('kamrecsys.item_finder', 'LogisticPMF'),
    'ImplicitLogisticPMF': ('kamrecsys.item_finder', 'ImplicitLogisticPMF'),
    'MultinomialPLSA': ('kamrecsys.score_predictor', 'MultinomialPLSA'),
}


def new(env, name, **kw):
    mod, cls = MODELS[name]
    return getattr(env.load(mod), cls)(**kw)


def binary(env, name, n):
    """n scores, 0 or 1, both of them occurring"""
    s = env.ints(name, n, 0, 1)
    if n < 2:
        return s
    t = sum(s)
    env.assume(env.And(t >= 1, t <= n - 1))
    return [int(x) for x in s]


def linear(m, u, i):
    """bias and factor terms of internal user u and item i"""
    z = m.mu_[0] + m.bu_[u] + m.bi_[i]
    for f in range(int(m.k)):
        z = z + m.p_[u, f] * m.q_[i, f]
    return z


def sizes(env, m, nu, ni, k):
    """the parameters have the documented shapes, unknowns included"""
    env.eq(list(m.mu_.shape), [1], 'shape of mu_')
    env.eq(list(m.bu_.shape), [nu + 1], 'shape of bu_')
    env.eq(list(m.bi_.shape), [ni + 1], 'shape of bi_')
    env.eq(list(m.p_.shape), [nu + 1, k], 'shape of p_')
    env.eq(list(m.q_.shape), [ni + 1, k], 'shape of q_')


def penalty(m, nu, ni):
    t = 0
    for u in range(nu):
        t = t + m.bu_[u] * m.bu_[u]
        for f in range(int(m.k)):
            t = t + m.p_[u, f] * m.p_[u, f]
    for i in range(ni):
        t = t + m.bi_[i] * m.bi_[i]
        for f in range(int(m.k)):
            t = t + m.q_[i, f] * m.q_[i, f]
    return t


class Watch:
    """evaluates what is handed to the optimiser while it is called"""

    def __init__(self, env, point=None):
        self.env, self.n, self.point = env, 0, point
        self.loss = self.loss0 = None
        env.cfg_hooks['minimize'] = self

    def __call__(self, call, x0):
        env = self.env
        self.n += 1
        x = call['x']
        f, g = objective(call)
        self.size = call['n']
        keep = x.copy()
        self.loss0 = f(x0.copy())
        self.loss = f(x)
        if g is None:
            env.fail('a gradient is handed over')
            return
        env.eq(g(x).shape, (call['n'],), 'shape of the gradient')
        env.eq(x, keep, 'evaluating leaves the parameters alone')
        env.eq(f(x), self.loss, 'the loss depends on the parameters only')
        pt = x if self.point is None else env.reals(
            'pt', call['n'], -self.point, self.point)
        env.diff_check(f, g, pt, 'gradient')


class SameProblem:
    """all optimisations find the same solution; compares the problems"""

    def __init__(self, env):
        self.env, self.x, self.pt, self.seen = env, None, None, []
        env.cfg_hooks['solution'] = self.solution
        env.cfg_hooks['minimize'] = self.look

    def solution(self, call):
        if self.x is None:
            self.x = self.env.reals('sol', call['n'], -100, 100)
            self.pt = self.env.reals('pt', call['n'], -3, 3)
        if len(self.x) != call['n']:
            return None
        return self.x.copy()

    def look(self, call, x0):
        if len(self.x) != call['n']:
            self.seen.append(None)
            return
        f, g = objective(call)
        self.seen.append((f(self.pt.copy()),
                          None if g is None else g(self.pt.copy())))

    def compare(self, i, j):
        env, calls = self.env, self.env.optimizer.calls
        if not calls:
            return
        if not env.check(len(calls) > max(i, j), 'an optimisation each'):
            return
        a, b = calls[i], calls[j]
        env.eq(a['n'], b['n'], 'same number of parameters')
        env.eq(a['x0'], b['x0'], 'same start')
        if self.seen[i] and self.seen[j]:
            env.eq(self.seen[i][0], self.seen[j][0], 'same loss')
            env.eq(self.seen[i][1], self.seen[j][1], 'same gradient')
