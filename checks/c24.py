"""C24: the safe sigmoid is monotone and bounded away from 0 and 1."""
from symex.cases import Case

BOUNDS = ('1 to 3 inputs, any reals in [-1e6, 1e6] or infinities, as scalar, '
          'list, or array of one or two dimensions; the logistic function is '
          'modelled by monotonicity, symmetry, range and 30-digit values at '
          'constants; float rounding outside (tolerance 1e-16 at the ends).')
DOM = 34.53


def h(env, n, form):
    np = env.np
    K = env.load('kamrecsys.utils')
    expit = env.expit
    for c in (-34.54, -34.53, 34.53, 34.54):
        expit(c)            # known values of the logistic function
    xs = env.real_list('x', n, -1e6, 1e6)
    if form == 'inf':
        xs[0] = env.choice('inf', [float('inf'), -float('inf')])
    if form == 'scalar':
        arg = xs[0]
    elif form == 'list':
        arg = list(xs)
    else:
        arg = np.array(xs, dtype=float)
        if form == '2d':
            arg = arg.reshape(-1, 1)
    keep = env.snap(arg)
    r = env.runs('safe_sigmoid', K.safe_sigmoid, arg)
    env.same(arg, keep, 'input unchanged')
    if form == 'scalar':
        rs = [r]
    else:
        env.eq(list(np.asarray(r).shape), [n, 1] if form == '2d' else [n],
               'shape')
        rs = [np.asarray(r).ravel()[i] for i in range(n)]
    for x, s in zip(xs, rs):
        env.check(env.And(s >= 1e-15 - 2e-16, s <= 1 - 1e-15 + 2e-16),
                  'within the bounds')
        if env.And(x > -DOM, x < DOM):
            env.eq(s, expit(x), 'the logistic function inside')
        if env.Or(x >= 34.54, x <= -34.54):
            t = K.safe_sigmoid(env.If(x > 0, 35.0, -35.0))
            env.eq(s, t, 'constant outside the clipping range')
        m = K.safe_sigmoid(np.array([-x], dtype=float))[0]
        env.eq(m, 1 - s, 'symmetry')
    for i in range(n):
        for j in range(i):
            env.check(env.Implies(xs[i] <= xs[j], rs[i] <= rs[j]),
                      'monotone')
            env.check(env.Implies(env.And(xs[i] - xs[j] <= -0.01,
                                          xs[j] < DOM, xs[i] > -DOM),
                                  rs[i] < rs[j]), 'strictly inside')


def cases(tier):
    cs = []
    for n in (1, 2, 3):
        for form in ('array', 'list', 'inf', '2d'):
            cs.append(Case('%s-%d' % (form, n), h, dict(n=n, form=form),
                           cost=n))
    cs.append(Case('scalar', h, dict(n=1, form='scalar')))
    return cs
