"""C19: variance with Gamma prior equals its formula on valid data."""
from symex.cases import Case
from .util import seq, total, special

BOUNDS = ('0 to 4 values (thorough: 6), any reals in [-100, 100], integers '
          'or non-finite at up to two places; array (one or two dimensions), '
          'list or tuple; prior parameters any reals in [1e-8, 10].')


def formula(env, xs, a, b):
    n = len(xs)
    sq = total(env, [x * x for x in xs])
    s = total(env, xs)
    return (2 * b + sq - s * s / n) / (2 * a + n)


def h(env, n, form, pri, bad):
    np = env.np
    M = env.load('kamrecsys.metrics')
    if form == 'int':
        xs = env.ints('x', n, -50, 50)
    else:
        xs = env.real_list('x', n)
    kw = {}
    a = b = 1e-8
    if pri:
        a = kw['a'] = env.real('a', 1e-8, 10)
        b = kw['b'] = env.real('b', 1e-8, 10)
    ok = list(xs)
    for j in range(bad):
        i = env.choice('where%d' % j, list(range(n)))
        xs[i] = special(env, 'bad%d' % j)
        ok[i] = None
    ok = [x for x in ok if x is not None]
    if form == '2d':
        x = np.array(xs, dtype=float).reshape(2, -1)
    else:
        x = seq(env, xs, form)
    keep = env.snap(x)
    f = M.variance_with_gamma_prior
    if not ok:
        env.raises(ValueError, 'nothing left', f, x, **kw)
        env.raises(ValueError, 'nothing left, enforced', f, x,
                   force_all_finite=True, **kw)
        return
    exp = formula(env, ok, a, b)
    v = env.runs('variance', f, x, **kw)
    env.check(v > 0, 'positive')
    env.eq(v, exp, 'formula')
    v, m = env.runs('full output', f, x, full_output=True, **kw)
    env.eq(v, exp, 'formula (full output)')
    env.eq(m, len(ok), 'number of finite inputs')
    if bad:
        env.raises(ValueError, 'non-finite, enforced', f, x,
                   force_all_finite=True, **kw)
    else:
        env.eq(env.runs('enforced', f, x, force_all_finite=True, **kw), exp,
               'formula, enforced')
    env.same(x, keep, 'input unchanged')


def cases(tier):
    cs = [Case('empty-%s' % f, h, dict(n=0, form=f, pri=False, bad=0))
          for f in ('array', 'list')]
    for n in range(1, 5 if tier == 'quick' else 7):
        for form in ('array', 'list', 'tuple', 'int', '2d'):
            if form == '2d' and n % 2:
                continue
            for pri in (False, True):
                if pri and form in ('tuple', '2d'):
                    continue
                cs.append(Case('%s-%d-%d' % (form, n, pri), h, dict(
                    n=n, form=form, pri=pri, bad=0), cost=n))
        if n <= 3:
            for bad in (1, 2):
                cs.append(Case('bad%d-%d' % (bad, n), h, dict(
                    n=n, form=('array', 'list')[bad % 2], pri=bad == 1,
                    bad=bad), cost=n))
    return cs
