"""C23: binary-score recognition is exact."""
from symex.cases import Case
from .util import special

BOUNDS = ('0 to 4 scores (thorough: 5), any reals in [-3, 3], integers in '
          '[-2, 3] or booleans, or NaN/infinity at any place; arrays of one '
          'or two dimensions and lists.')


def h(env, n, kind, form):
    np = env.np
    U = env.load('kamrecsys.utils')
    if kind == 'int':
        xs = env.ints('x', n, -2, 3)
    elif kind == 'bool':
        xs = env.bools('x', n)
    else:
        xs = env.real_list('x', n, -3, 3)
    if form == 'special':
        xs[env.choice('where', list(range(n)))] = special(env, 'bad')
    if form == 'list':
        a = list(xs)
    else:
        a = np.array(xs, dtype={'int': int, 'bool': bool}.get(kind, float))
        if form == '2d':
            a = a.reshape(2, -1)
    for uni in (True, False, None):
        kw = {} if uni is None else dict(allow_uniform=uni)
        got = env.runs('is_binary_score', U.is_binary_score, a, **kw)
        if form == 'special' or n == 0:
            exp = False
        else:
            exp = env.And(*[env.Or(x == 0, x == 1) for x in xs])
            if uni is False:
                exp = env.And(exp, env.Or(*[x == 0 for x in xs]),
                              env.Or(*[x == 1 for x in xs]))
        got = bool(got)
        env.check(got == exp, 'recognised exactly (allow_uniform=%s)' % uni)


def cases(tier):
    cs = [Case('empty', h, dict(n=0, kind='real', form='array'))]
    for n in range(1, 5 if tier == 'quick' else 6):
        for kind in ('int', 'bool', 'real'):
            for form in ('array', 'list', '2d', 'special'):
                if form == '2d' and n % 2 or form == 'special' and (
                        kind != 'real'):
                    continue
                if form == 'list' and kind == 'bool':
                    continue
                if tier == 'quick' and n == 4 and form != 'array':
                    continue
                cs.append(Case('%s-%s-%d' % (kind, form, n), h,
                               dict(n=n, kind=kind, form=form), cost=4 ** n))
    return cs
