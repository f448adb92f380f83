"""C34: fitting results report what actually happened."""
from symex.cases import Case
from . import models as M
from .c11 import training
from .c16 import data

BOUNDS = ('four recommenders, k = 1 or 2; training sets of 1 to 7 events of '
          'twelve id patterns (two of them with symbolic ids); every '
          'success flag, status in 0..5, counts up to 1000 and final loss '
          'the optimiser may report; one or two fits of an instance; for '
          'pLSA 0 to 3 iterations.')
ASSUMPTIONS = ('real arithmetic instead of floating point; the optimiser is '
               'replaced by one returning an arbitrary result.')

MESSAGES = {
    0: 'Fitting terminated successfully.',
    1: 'Maximum number of function evaluations has been exceeded.',
    2: 'Maximum number of iterations has been exceeded.',
    3: 'Desired error not necessarily achieved due to precision loss.'}


def sized(o):
    return hasattr(o, 'shape') and isinstance(o.shape, tuple)


def holds(o, n, seen, depth=0):
    """is there an array with n entries along an axis somewhere inside?"""
    if id(o) in seen or depth > 6:
        return False
    seen.add(id(o))
    if sized(o):
        return n in o.shape
    if isinstance(o, dict):
        return any(holds(v, n, seen, depth + 1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return len(o) == n or any(holds(v, n, seen, depth + 1) for v in o)
    if type(o).__module__.startswith('kamrecsys'):
        return holds(vars(o), n, seen, depth + 1)
    return False


def no_data(env, m, d, n):
    for a in ('event', 'event_feature', 'score'):
        env.check(getattr(m, a, None) is None, 'no training %s kept' % a)
    env.check(not any(v is d for v in vars(m).values()),
              'the container is not kept')
    if n >= 7:
        env.check(not holds(m, n, set()), 'nothing of the size of the '
                  'training data is kept')


def many(env):
    """seven events of two users and three items"""
    P = M.Pattern(env, 'late')
    P.rows = [[9, 4], [2, 8], [9, 8], [2, 4], [9, 5], [2, 4], [9, 4]]
    P.n = 7
    return P


def pattern(env, name):
    return many(env) if name == 'many' else M.Pattern(env, name)


def factor(env, m, d, P, k, watch):
    call = env.optimizer.calls[-1]
    res, r = call['res'], m.fit_results_
    nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
    env.eq(r['n_users'], nu, 'number of users')
    env.eq(r['n_items'], ni, 'number of items')
    env.eq(r['n_events'], P.n, 'number of events')
    env.eq(r['n_parameters'], 1 + (nu + ni) * (1 + k),
           'number of parameters')
    env.eq(call['n'], 1 + (nu + ni) * (1 + k), 'size of the problem')
    env.eq(r['initial_loss'], watch['loss0'], 'initial loss')
    env.eq(r['final_loss'], res.fun, 'final loss')
    env.check(bool(r['success']) == bool(res.success), 'success')
    env.eq(r['status'], res.status, 'status')
    env.eq(r['message'], res.message, 'message')
    env.eq(r['n_iterations'], res.nit, 'number of iterations')
    env.eq(r['func_calls'], res.nfev, 'number of loss evaluations')
    env.eq(r['grad_calls'], res.get('njev', 0),
           'number of gradient evaluations')


def h_factor(env, model, pat, k, twice=None, method=None, feature=False):
    np = env.np
    watch = {}

    def look(call, x0):
        watch['loss0'] = M.objective(call)[0](x0.copy())
    env.cfg_hooks['minimize'] = look
    kw = {} if method is None else {'method': method}
    m = M.new(env, model, C=0.5, k=k, random_state=3, **kw)
    for j, p in enumerate([pat] + ([twice] if twice else [])):
        P = pattern(env, p)
        d = training(env, model, P)
        if feature:
            d.event_feature = np.array([1.5 * i for i in range(P.n)])
        env.runs('fit', m.fit, d, **P.fit_args())
        env.eq(len(env.optimizer.calls), j + 1, 'one optimisation per fit')
        factor(env, m, d, P, k, watch)
        no_data(env, m, d, P.n)
        env.eq(m.fit_results_['optimizer_method'], method or 'CG',
               'method')


def h_plsa(env, pat, k, it, twice=None, feature=False):
    np = env.np
    m = M.new(env, 'MultinomialPLSA', k=k, alpha=1, random_state=3,
              maxiter=it, tol=0)
    for p in [pat] + ([twice] if twice else []):
        P = pattern(env, p)
        d = data(env, 'MultinomialPLSA', P)
        if feature:
            d.event_feature = np.array([1.5 * i for i in range(P.n)])
        env.runs('fit', m.fit, d, **P.fit_args())
        nu, ni = int(d.n_objects[P.ut]), int(d.n_objects[P.it])
        r = m.fit_results_
        env.eq(r['n_users'], nu, 'number of users')
        env.eq(r['n_items'], ni, 'number of items')
        env.eq(r['n_events'], P.n, 'number of events')
        env.eq(r['n_parameters'], k * (1 + nu + ni + 2),
               'number of parameters')
        # without a tolerance the limit is always reached
        env.eq(r['n_iterations'], it, 'number of iterations')
        env.eq(r['status'], 2, 'status')
        env.check(not r['success'], 'success')
        env.eq(r['message'], MESSAGES[2], 'message')
        # the losses: those of fits stopped right away and after as many
        ref = M.new(env, 'MultinomialPLSA', k=k, alpha=1, random_state=3,
                    maxiter=0)
        env.runs('fit', ref.fit, d, **P.fit_args())
        f = ref.fit_results_
        env.eq(f['n_iterations'], 0, 'number of iterations')
        env.eq(r['initial_loss'], f['initial_loss'], 'initial loss')
        env.eq(f['final_loss'], f['initial_loss'], 'final loss, no steps')
        no_data(env, m, d, P.n)


def h_stop(env, pat, limit):
    """one latent class is stationary: stops in the first iteration"""
    m = M.new(env, 'MultinomialPLSA', k=1, alpha=1, random_state=3,
              maxiter=limit, tol=1e-6)
    P = pattern(env, pat)
    d = data(env, 'MultinomialPLSA', P)
    for _ in range(2):
        env.runs('fit', m.fit, d, **P.fit_args())
        r = m.fit_results_
        env.eq(r['n_iterations'], min(1, limit), 'number of iterations')
        env.eq(r['status'], 0 if limit else 2, 'status')
        env.check(bool(r['success']) == (limit > 0), 'success')
        env.eq(r['message'], MESSAGES[0 if limit else 2], 'message')
        env.eq(r['final_loss'], r['initial_loss'], 'final loss')


def h_status(env, ks):
    """converging in one fit and not in another"""
    m = M.new(env, 'MultinomialPLSA', k=ks[0], alpha=1, random_state=3,
              maxiter=1, tol=1e-6)
    P = M.Pattern(env, 'one')
    d = data(env, 'MultinomialPLSA', P)
    for k in ks:
        m.k = k
        env.runs('fit', m.fit, d)
        r = m.fit_results_
        gap = r['final_loss'] - r['initial_loss']
        if k == 1:
            want = 0
        else:
            size = 1e-6 * abs(r['final_loss'])
            # stay away from the tolerance
            near = env.And(gap < size * 1.01, -gap < size * 1.01)
            far = env.Or(gap > size * 0.99, -gap > size * 0.99)
            env.assume(env.Not(env.And(near, far)))
            want = 0 if near else 2
        env.eq(r['status'], want, 'status')
        env.check(bool(r['success']) == (want == 0), 'success')
        env.eq(r['message'], MESSAGES[want], 'message')
        env.eq(r['n_iterations'], 1, 'number of iterations')


def h_message(env):
    U = env.load('kamrecsys.utils')
    s = env.int('status', -3, 9)
    got = env.runs('get_fit_status_message', U.get_fit_status_message, s)
    s = int(s)
    if s in MESSAGES:
        env.eq(got, MESSAGES[s], 'message of a status')
    else:
        env.check(got not in MESSAGES.values(), 'message of unknown status')


def cases(tier):
    q = tier == 'quick'
    cs = [Case('message', h_message, {})]
    tags = {'PMF': 'pmf-', 'LogisticPMF': 'log-',
            'ImplicitLogisticPMF': 'imp-'}

    for model, t in tags.items():
        def add(name, **kw):
            cs.append(Case(t + name, h_factor, dict(kw, model=model)))
        for p in list(M.PATTERNS) + ['many']:
            if p == 'one' and model == 'LogisticPMF':
                continue
            add(p, pat=p, k=1)
            if p == 'grid' or not q:
                add(p + '-k2', pat=p, k=2)
        add('swap-twice', pat='swap', k=1, twice='late')
        add('many-twice', pat='late', k=1, twice='many', feature=True)
        add('uiu-twice', pat='uiu02', k=1, twice='uiu21')
        for x in ('BFGS', 'Nelder-Mead', 'L-BFGS-B', 'Powell'):
            add('method-' + x, pat='grid', k=1, method=x, twice='star')
        for p in ('s-ui', 's-swap'):
            if model == 'PMF' or not q:
                add(p, pat=p, k=1)
    for p in list(M.PATTERNS) + ['many']:
        cs.append(Case('plsa-' + p, h_plsa, dict(
            pat=p, k=1, it=2)))
        for lim in (0, 1, 5):
            if p in ('grid', 'swap', 'many') or not q:
                cs.append(Case('plsa-stop%d-%s' % (lim, p), h_stop,
                               dict(pat=p, limit=lim)))
    for ks in ((2, 1), (1, 2)) + (() if q else ((2, 1, 2, 1),)):
        cs.append(Case('plsa-status-%s' % ''.join(map(str, ks)), h_status,
                       dict(ks=ks)))
    cs.append(Case('plsa-k2', h_plsa, dict(pat='grid', k=2, it=1)))
    cs.append(Case('plsa-k2-one', h_plsa, dict(pat='one', k=2, it=1)))
    cs.append(Case('plsa-k3', h_plsa, dict(pat='one', k=3, it=0)))
    cs.append(Case('plsa-swap-twice', h_plsa, dict(
        pat='swap', k=1, it=3, twice='late')))
    cs.append(Case('plsa-many-twice', h_plsa, dict(
        pat='late', k=1, it=1, twice='many', feature=True)))
    return cs
