"""C17: error metrics equal their definitions and reject bad input."""
from symex.cases import Case
from .util import seq, total, stdev, mean_, absdiff, special

BOUNDS = ('1 to 4 pairs (thorough: 6) of scores, any reals in [-100, 100] or '
          'integers in [-9, 9], as arrays or lists; lengths that differ by '
          'one or two; NaN or infinities at any position of either argument.')


def inputs(env, n, form, name):
    if form == 'int':
        xs = env.ints(name, n, -9, 9)
    else:
        xs = env.real_list(name, n)
    return xs, seq(env, xs, form)


def h(env, n, ft, fp):
    M = env.load('kamrecsys.metrics')
    t, ta = inputs(env, n, ft, 't')
    p, pa = inputs(env, n, fp, 'p')
    st, sp = env.snap(ta), env.snap(pa)
    mean, sd = env.runs('mean_absolute_error', M.mean_absolute_error, ta, pa)
    ab = [absdiff(env, a, b) for a, b in zip(t, p)]
    mean_(env, mean, ab, 'mean absolute error')
    stdev(env, sd, ab, 'deviation of absolute errors')
    rmse, mean, sd = env.runs('mean_squared_error', M.mean_squared_error,
                              ta, pa)
    sq = [(a - b) * (a - b) for a, b in zip(t, p)]
    mean_(env, mean, sq, 'mean squared error')
    stdev(env, sd, sq, 'deviation of squared errors')
    env.check(rmse >= 0, 'root mean squared error is not negative')
    env.eq(rmse * rmse * n, total(env, sq) * 1.0, 'root mean squared error')
    env.same(ta, st, 'true scores unchanged')
    env.same(pa, sp, 'predicted scores unchanged')


def guard(env, n, form):
    M = env.load('kamrecsys.metrics')
    t = env.real_list('t', n)
    p = env.real_list('p', n)
    bad = special(env, 'bad')
    i = env.choice('where', list(range(2 * n)))
    (t if i < n else p)[i % n] = bad
    t, p = seq(env, t, form), seq(env, p, form)
    env.raises(ValueError, 'non-finite: absolute', M.mean_absolute_error,
               t, p)
    env.raises(ValueError, 'non-finite: squared', M.mean_squared_error, t, p)


def lengths(env, n, form):
    M = env.load('kamrecsys.metrics')
    m = env.choice('m', [n + 1, n + 2])
    t = seq(env, env.real_list('t', n), form)
    p = seq(env, env.real_list('p', m), form)
    for f in (M.mean_absolute_error, M.mean_squared_error):
        env.raises(ValueError, 'lengths', f, t, p)
        env.raises(ValueError, 'lengths', f, p, t)


def cases(tier):
    cs = []
    top = 4 if tier == 'quick' else 6
    forms = [('array', 'array'), ('list', 'array'), ('int', 'array'),
             ('array', 'list')]
    for n in range(1, top + 1):
        for ft, fp in forms if n < top else forms[:1]:
            cs.append(Case('%d-%s-%s' % (n, ft, fp), h,
                           dict(n=n, ft=ft, fp=fp), cost=n * 3))
    for form in ('array', 'list'):
        for n in (1, 2, 3):
            cs.append(Case('guard-%s-%d' % (form, n), guard,
                           dict(n=n, form=form)))
            cs.append(Case('lengths-%s-%d' % (form, n), lengths,
                           dict(n=n, form=form)))
    return cs
