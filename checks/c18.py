"""C18: score histograms count every score at its own level."""
from symex.cases import Case
from .c05 import domain, container
from .util import seq, special

BOUNDS = ('1 to 3 scores (thorough: 5), or 303 most of them equal, any reals in [-300, 300] or integers, '
          'as array or list; domains of 1 to 5 and 9 strides (as for C05), '
          'given as tuple, list or array; 1 to 5 equal-width bins given as '
          'plain or numpy integer; scores on a boundary only with '
          'dyadic strides; numbers of counts and levels also '
          'under float rounding (as for C05), 1 to 3 strides (thorough: '
          '6).')


def count(env, conds):
    t = 0
    for c in conds:
        t = t + env.If(c, 1, 0)
    return t


def off_boundary(env, xs, lo, st, m):
    """rounding decides where a score on a boundary goes"""
    for v in xs:
        for i in range(m):
            b = 2 * lo + st * (2 * i + 1)
            env.assume(env.Or(2 * v - b > 1e-6, b - 2 * v > 1e-6))


def levels(env, form, q, m, n, xf):
    np = env.np
    M = env.load('kamrecsys.metrics')
    d, lo, hi, st = domain(env, form, q, m, True)
    if xf == 'int':
        xs = env.ints('x', n, -300, 300)
    else:
        xs = env.real_list('x', n, -300, 300)
    if q in (10, 'real'):
        off_boundary(env, xs, lo, st, m)
    x = seq(env, xs, xf)
    kx, kd = env.snap(x), env.snap(d)
    hist, sc = env.runs('score_histogram', M.score_histogram, x,
                        score_domain=d)
    env.same(x, kx, 'scores unchanged')
    env.same(d, kd, 'domain unchanged')
    env.check(hist.shape == (m + 1,), 'one count per level')
    env.eq(sc, np.array([lo + st * i for i in range(m + 1)], dtype=float),
           'the levels')
    env.eq(hist.sum(), n, 'counts add up to the number of scores')
    for i in range(m + 1):
        cs = []
        for v in xs:
            c = []
            if i > 0:
                c.append(2 * v >= 2 * lo + st * (2 * i - 1))
            if i < m:
                c.append(2 * v < 2 * lo + st * (2 * i + 1))
            cs.append(env.And(*c) if c else True)
        env.eq(hist[i], count(env, cs), 'scores counted at their level')
    data = container(env, d, [v * 1.0 for v in xs])
    for dig in (data.digitize_score(),
                data.digitize_score(np.array([v * 1.0 for v in xs]))):
        for i in range(m + 1):
            env.eq(hist[i], count(env, [dig[j] == i for j in range(n)]),
                   'agrees with digitising')


def shapes(env, form, q, m):
    """numbers of counts and levels, whatever the float rounding"""
    M = env.load('kamrecsys.metrics')
    d, lo, hi, st = domain(env, form, q, m, False)
    hist, sc = env.runs('score_histogram', M.score_histogram,
                        env.np.array([lo, hi], dtype=float), d)
    env.check(hist.shape == (m + 1,), 'one count per level')
    env.check(sc.shape == (m + 1,), 'every level reported')


def default(env, n):
    M = env.load('kamrecsys.metrics')
    x = env.reals('x', n, -10, 10)
    hist, sc = env.runs('score_histogram', M.score_histogram, x)
    env.eq(sc, env.np.array([1., 2., 3., 4., 5.]), 'default levels')
    for i in range(5):
        env.eq(hist[i], count(env, [env.And(
            v >= i + 0.5 if i else True, v < i + 1.5 if i < 4 else True)
            for v in x]), 'scores counted at their level')


def bins(env, k, n, form, npint):
    np = env.np
    M = env.load('kamrecsys.metrics')
    xs = env.real_list('x', n)
    x = seq(env, xs, form)
    b = np.array([k])[0] if npint else k
    lo = hi = xs[0]
    for v in xs[1:]:
        lo = env.If(v < lo, v, lo)
        hi = env.If(v > hi, v, hi)
    # bins of some width, where rounding cannot matter
    env.assume(env.Or(lo == hi, hi - lo > 0.01))
    hist, sc = env.runs('score_histogram', M.score_histogram, x, b)
    env.check(hist.shape == (k,), 'that many counts')
    env.check(sc.shape == (k,), 'that many centres')
    env.eq(hist.sum(), n, 'counts add up')
    same = lo == hi
    a, z = env.If(same, lo - 0.5, lo), env.If(same, hi + 0.5, hi)
    for i in range(k):
        env.eq(2 * k * sc[i], 2 * k * a + (2 * i + 1) * (z - a), 'centre')
        cs = []
        for v in xs:
            up = k * (v - a) < (i + 1) * (z - a) if i < k - 1 else True
            cs.append(env.And(k * (v - a) >= i * (z - a), up))
        env.eq(hist[i], count(env, cs), 'scores in their bin')


def many(env, n):
    """more equal scores than small integer types hold"""
    np = env.np
    M = env.load('kamrecsys.metrics')
    v = env.choice('level', [1, 3, 5])
    s = env.int('other', -3, 9)
    x = np.array([v] * n + [2, s, 4])
    hist, sc = env.runs('score_histogram', M.score_histogram, x, (1, 5, 1))
    env.eq(sc, [1, 2, 3, 4, 5], 'levels')
    for i, l in enumerate((1, 2, 3, 4, 5)):
        own = s <= 1 if l == 1 else s >= 5 if l == 5 else s == l
        env.eq(hist[i], (n if l == v else 0) + (1 if l in (2, 4) else 0) +
               env.If(own, 1, 0), 'counts')
    hist, sc = env.runs('score_histogram', M.score_histogram,
                        np.array([1.0] * n + [5.0]), 2)
    env.eq(hist, [n, 1], 'counts of two bins')


def guard(env, n):
    M = env.load('kamrecsys.metrics')
    xs = env.real_list('x', n)
    xs[env.choice('where', list(range(n)))] = special(env, 'bad')
    env.raises(ValueError, 'non-finite', M.score_histogram,
               env.np.array(xs), (1, 5, 1))
    env.raises(ValueError, 'non-finite', M.score_histogram,
               env.np.array(xs), 3)


def cases(tier):
    q_ = tier == 'quick'
    cs = []
    forms = ('tuple', 'list', 'array')
    xfs = ('array', 'list', 'int')
    k = 0
    for m in (1, 2, 3, 5, 9) if q_ else range(1, 13):
        for q in (1, 2, 10, 'real'):
            for n in (1, 2, 3) if q_ else (1, 2, 3, 4, 5):
                if (m > 3 and n > 1 or n == 3 and q != 1) and q_:
                    continue
                k += 1
                cs.append(Case('levels-%s-%d-%d' % (q, m, n), levels, dict(
                    form=forms[k % 3], q=q, m=m, n=n, xf=xfs[(k // 3) % 3]),
                    cost=m * n))
    for m in (1, 2, 3) if q_ else (1, 2, 3, 4, 5, 6):
        for q in (1, 4, 10, 100, 'real'):
            k += 1
            cs.append(Case('shapes-%s-%d' % (q, m), shapes, dict(
                form=forms[k % 3], q=q, m=m), fp=True, cost=20 * m))
    cs.append(Case('many', many, dict(n=300)))
    for n in (1, 2, 3):
        cs.append(Case('default-%d' % n, default, dict(n=n)))
        cs.append(Case('guard-%d' % n, guard, dict(n=n)))
        for b in (1, 2, 3, 5):
            k += 1
            if n * b > 9 and q_:
                continue
            cs.append(Case('bins-%d-%d' % (b, n), bins, dict(
                k=b, n=n, form=forms[k % 3], npint=bool(k % 2))))
    return cs
