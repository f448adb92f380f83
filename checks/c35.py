"""C35: optimiser options reach the optimiser and stay per instance."""
from symex.cases import Case
from . import models as M
from .c11 import training
from .c16 import data

BOUNDS = ('four recommenders; every combination of given and omitted '
          'iteration limit (arbitrary in 0..1000), tolerance (arbitrary in '
          '[0, 1]), method and further options; one to three instances, '
          'fitted once or twice in either order, sharing an options '
          'dictionary or not; for pLSA limits up to 4 and any tolerance.')
ASSUMPTIONS = ('real arithmetic instead of floating point; the optimiser is '
               'replaced by one returning an arbitrary result.')

TAGS = {'PMF': 'pmf-', 'LogisticPMF': 'log-', 'ImplicitLogisticPMF': 'imp-'}


def snapshot(d):
    return {k: snapshot(v) if isinstance(v, dict) else v
            for k, v in d.items()}


class Wish:
    """options of one instance, and what the optimiser has to be given"""

    def __init__(self, env, tag, shared=None):
        self.kw = kw = {}
        self.want = want = {'disp': False}
        self.method, self.tol = 'CG', None
        how = env.choice(tag + 'options', ['none', 'empty', 'limit', 'more'])
        if shared is not None:
            kw['options'] = shared
            want.update(shared)
        elif how == 'empty':
            kw['options'] = {}
        elif how == 'limit':
            kw['options'] = {'maxiter': env.int(tag + 'inner', 0, 1000)}
            want.update(kw['options'])
        elif how == 'more':
            kw['options'] = {'disp': True, 'gtol': env.real(
                tag + 'gtol', 0, 1)}
            want.update(kw['options'])
        if how != 'limit' or shared is not None:
            lim = env.choice(tag + 'limit', ['none', 'given', 'null'])
            if lim == 'given':
                kw['maxiter'] = env.int(tag + 'maxiter', 0, 1000)
                want['maxiter'] = kw['maxiter']
            elif lim == 'null':
                kw['maxiter'] = None
        if env.choice(tag + 'tol', [False, True]):
            kw['tol'] = self.tol = env.real(tag + 'tolerance', 0, 1)
        m = env.choice(tag + 'method', [None, 'BFGS', 'Newton-CG'])
        if m:
            kw['method'] = self.method = m

    def met(self, env, call):
        env.eq(call['method'], self.method, 'method')
        if self.tol is None:
            env.check(call['tol'] is None, 'tolerance')
        else:
            env.eq(call['tol'], self.tol, 'tolerance')
        got = call['options'] or {}
        env.eq(sorted(got), sorted(self.want), 'names of the options')
        for n in self.want:
            if n in got:
                env.eq(got[n], self.want[n], 'option ' + n)
        env.check(call['bounds'] is None and not call['extra'] and
                  call['callback'] is None, 'nothing else')


def h_one(env, model, pat='grid'):
    P = M.Pattern(env, pat)
    d = training(env, model, P)
    w = Wish(env, '')
    given = snapshot(w.kw)
    m = M.new(env, model, C=0.5, k=1, random_state=3, **w.kw)
    for j in range(2):
        env.runs('fit', m.fit, d, **P.fit_args())
        env.eq(len(env.optimizer.calls), j + 1, 'one optimisation per fit')
        w.met(env, env.optimizer.calls[-1])
        env.eq(w.kw, given, "the caller's options")
    env.eq(m.fit_results_['optimizer_method'], w.method, 'method reported')


def h_extra(env, model):
    """other arguments of minimize"""
    P = M.Pattern(env, 'grid')
    d = training(env, model, P)

    def cb(x):
        return None
    m = M.new(env, model, C=0.5, k=1, random_state=3, callback=cb,
              method='L-BFGS-B')
    env.runs('fit', m.fit, d)
    env.check(env.optimizer.calls[-1]['callback'] is cb, 'callback')
    env.eq(env.optimizer.calls[-1]['method'], 'L-BFGS-B', 'method')


def h_two(env, models, shared, order):
    """instances do not see each other's options"""
    P = M.Pattern(env, 'grid')
    opts = {}
    if shared == 'some':
        opts = {'gtol': env.real('gtol', 0, 1), 'maxiter': env.int(
            'limit', 0, 1000)}
    ms, ws = [], []
    keep = snapshot(opts)
    for j, model in enumerate(models):
        w = Wish.__new__(Wish)
        w.kw, w.want, w.method, w.tol = {}, {'disp': False}, 'CG', None
        if shared != 'no':
            w.kw['options'] = opts
            w.want.update(keep)
        if env.choice('limit%d' % j, [False, True]):
            w.kw['maxiter'] = w.want['maxiter'] = env.int(
                'maxiter%d' % j, 0, 1000)
        if j:
            w.kw['tol'] = w.tol = env.real('tol%d' % j, 0, 1)
        if j == len(models) - 1:
            w.kw['method'] = w.method = 'BFGS'
        ms.append(M.new(env, model, C=0.5, k=1, random_state=3, **w.kw))
        ws.append(w)
        env.eq(opts, keep, "the caller's options")
    for n, j in enumerate(order):
        d = training(env, models[j], P)
        env.runs('fit', ms[j].fit, d)
        env.eq(len(env.optimizer.calls), n + 1, 'one optimisation per fit')
        ws[j].met(env, env.optimizer.calls[-1])
        env.eq(opts, keep, "the caller's options")


def h_limit(env, sizes):
    """pLSA: limits of several instances, in either order"""
    P = M.Pattern(env, 'grid')
    d = data(env, 'MultinomialPLSA', P)
    ms = []
    for j in range(sizes):
        lim = env.int('limit%d' % j, 0, 4)
        m = M.new(env, 'MultinomialPLSA', k=1, alpha=1, random_state=3,
                  maxiter=int(lim), tol=0)
        ms.append((m, lim))
    if env.choice('order', [False, True]):
        ms.reverse()
    for m, lim in ms + ms[:1]:
        env.runs('fit', m.fit, d)
        env.eq(m.fit_results_['n_iterations'], lim, 'iterations run')


def h_defaults(env, given):
    """pLSA: the documented defaults, 100 iterations and 1e-10"""
    P = M.Pattern(env, 'one')
    d = data(env, 'MultinomialPLSA', P)
    if given == 'none':
        # stationary with one class
        m = M.new(env, 'MultinomialPLSA', k=1, alpha=1, random_state=3)
        want = 1
    elif given == 'tol':
        m = M.new(env, 'MultinomialPLSA', k=1, alpha=1, random_state=3,
                  tol=0)
        want = 100
    else:
        m = M.new(env, 'MultinomialPLSA', k=1, alpha=1, random_state=3,
                  maxiter=7)
        want = 1
    env.runs('fit', m.fit, d)
    env.eq(m.fit_results_['n_iterations'], want, 'iterations run')
    # another instance created with options does not change the defaults
    M.new(env, 'MultinomialPLSA', k=1, maxiter=3, tol=0.5)
    env.runs('fit', m.fit, d)
    env.eq(m.fit_results_['n_iterations'], want, 'iterations run again')


def h_tol(env, pat, n, small=False):
    """pLSA stops at the first relative change below the tolerance"""
    P = M.Pattern(env, pat)
    d = data(env, 'MultinomialPLSA', P)
    losses = []
    for it in range(n + 1):
        m = M.new(env, 'MultinomialPLSA', k=2, alpha=1, random_state=3,
                  maxiter=it, tol=0)
        env.runs('fit', m.fit, d, **P.fit_args())
        losses.append(m.fit_results_['final_loss'])
    tol = env.real('tol', 1e-6, 0.5)
    m = M.new(env, 'MultinomialPLSA', k=2, alpha=1, random_state=3,
              maxiter=n, tol=tol)
    env.runs('fit', m.fit, d, **P.fit_args())
    got = int(m.fit_results_['n_iterations'])
    env.observe('iterations', got)
    env.check(1 <= got <= n, 'iterations run')
    for it in range(1, n + 1):
        a, b = losses[it - 1], losses[it]
        # |a - b| < tol * |b|
        low = env.And(a - b < tol * abs(b), b - a < tol * abs(b))
        if it < got:
            env.check(env.Not(low), 'goes on above the tolerance')
        elif it == got and m.fit_results_['status'] == 0:
            env.check(low, 'stops below the tolerance')
            break


def cases(tier):
    q = tier == 'quick'
    cs = []
    for model, t in TAGS.items():
        cs.append(Case(t + 'one', h_one, dict(model=model)))
        if not q:
            cs.append(Case(t + 'one-uiu', h_one, dict(
                model=model, pat='uiu21')))
        cs.append(Case(t + 'extra', h_extra, dict(model=model)))
    names = list(TAGS)
    for sh in ('no', 'none', 'some'):
        for a in names:
            for b in names:
                if q and sh == 'none' and a != b:
                    continue
                for order in ((0, 1), (1, 0)):
                    if q and order == (1, 0) and sh != 'some':
                        continue
                    cs.append(Case('two-%s-%s%s%s' % (
                        sh, TAGS[a], TAGS[b], order[0]), h_two, dict(
                            models=(a, b), shared=sh, order=order)))
        cs.append(Case('three-%s' % sh, h_two, dict(
            models=names, shared=sh, order=(2, 0, 1, 2))))
    cs.append(Case('plsa-limit', h_limit, dict(sizes=2)))
    if not q:
        cs.append(Case('plsa-limit3', h_limit, dict(sizes=3)))
    for g in ('none', 'tol', 'limit'):
        cs.append(Case('plsa-default-' + g, h_defaults, dict(given=g)))
    cs.append(Case('plsa-tol-one', h_tol, dict(pat='one', n=1)))
    if not q:
        cs.append(Case('plsa-tol-grid', h_tol, dict(pat='grid', n=2)))
    return cs
