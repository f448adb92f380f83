"""C05: score levels, bins and digitised scores agree."""
from symex.cases import Case

BOUNDS = ('1 to 5 and 9 strides (thorough: 1 to 16; where float rounding is '
          'modelled, 1 to 3, thorough: 1 to 8); minimum and stride any '
          'multiple of 1, 1/2, 1/4, 1/10 or 1/100 with numerator in '
          '[-60, 60] and [1, 60], or any reals in [-100, 100] and [1/100, '
          '100]; float rounding modelled as any error within half an ulp per '
          'operation for the numbers of levels and bins and for digitising '
          'levels; one or two arbitrary scores, loaded as reals or integers.')


def domain(env, form, q, m, exact):
    """(domain as given, min, stride) with m strides"""
    if q == 'real':
        lo = env.real('lo', -100, 100)
        st = env.real('st', 0.01, 100)
        hi = lo + st * m
    else:
        a = env.int('a', -60, 60)
        k = env.int('k', 1, 60)
        if q == 1:
            lo, st, hi = a, k, a + k * m
        else:
            lo, st, hi = a / q, k / q, (a + k * m) / q
    d = (lo, hi, st)
    if form == 'list':
        d = list(d)
    elif form == 'array':
        d = env.np.array(d)
    return d, lo, hi, st


def container(env, d, scores):
    np = env.np
    D = env.load('kamrecsys.data')
    n = len(scores)
    data = D.EventWithScoreData()
    env.runs('set_event', data.set_event,
             np.array([[i + 1, 10 * i] for i in range(n)]),
             np.array(scores, dtype=float), d)
    return data


def counts(env, form, q, m):
    """numbers of levels and bins, and the digits of the levels"""
    d, lo, hi, st = domain(env, form, q, m, False)
    data = container(env, d, [lo, hi])
    env.check(data.n_score_levels == m + 1, 'number of levels')
    lv = env.runs('levels', data.get_score_levels)
    env.check(len(lv) == m + 1, 'number of reported levels')
    M = env.load('kamrecsys.metrics')
    for bins in (env.runs('bins', data.generate_score_bins),
                 env.runs('bins', M.generate_score_bins, d)):
        env.check(len(bins) == m + 2, 'number of bin boundaries')
    env.eq(env.runs('digitize', data.digitize_score, lv),
           env.np.arange(m + 1), 'digits of the levels')
    env.eq(env.runs('digitize', data.digitize_score), env.np.array([0, m]),
           'digits of minimum and maximum')
    # a level as a user writes it
    i = env.choice('level', sorted({0, m // 2, m}))
    x = lo + i * st
    env.eq(data.digitize_score(env.np.array([x], dtype=float)),
           env.np.array([i]), 'digit of a level')


def values(env, form, q, m):
    """exact values of levels and bins, digits of any scores"""
    np = env.np
    d, lo, hi, st = domain(env, form, q, m, True)
    x = env.reals('x', 2, -300, 300)
    data = container(env, d, [x[0], x[1]])
    lv = data.get_score_levels()
    M = env.load('kamrecsys.metrics')
    for i in range(m + 1):
        env.eq(lv[i], lo + st * i, 'level')
    for bins in (data.generate_score_bins(), M.generate_score_bins(d)):
        env.eq(bins[0], -np.inf, 'lowest boundary')
        env.eq(bins[m + 1], np.inf, 'highest boundary')
        for i in range(m):
            env.eq(2 * bins[i + 1], 2 * lo + st * (2 * i + 1),
                   'boundary half-way between levels')
    got = data.digitize_score()
    got2 = data.digitize_score(np.array([x[1]]))
    env.eq(got2[0], got[1], 'digitising given scores')
    for j in range(2):
        env.check(env.And(got[j] >= 0, got[j] <= m), 'digit in range')
        # not on a boundary, where float rounding decides
        for i in range(m):
            b = 2 * lo + st * (2 * i + 1)
            env.assume(env.Or(2 * x[j] - b > 0.001, b - 2 * x[j] > 0.001))
            env.check((got[j] > i) == (2 * x[j] > b),
                      'digit of the bin that contains the score')


def integers(env, q, m):
    """scores loaded as integers, other ones digitised"""
    np = env.np
    D = env.load('kamrecsys.data')
    lo = env.int('lo', -20, 20)
    st = env.int('k', 1, 20) * 1 if q == 1 else env.int('k', 1, 20) / q
    s = env.ints('s', 2, -30, 30)
    data = D.EventWithScoreData()
    env.runs('set_event', data.set_event, np.array([[1, 10], [2, 20]]),
             np.array(s), (lo, lo + st * m, st))
    env.check(data.n_score_levels == m + 1, 'number of levels')
    # a boundary is exact for these strides
    x = env.real('x', -60, 60)
    for given, v in ((data.digitize_score(), s),
                     (data.digitize_score(np.array(s)), s),
                     (data.digitize_score(np.array([x])), [x]),
                     (data.digitize_score([x, x + st]), [x, x + st])):
        env.check(len(given) == len(v), 'a digit for every score')
        for g, y in zip(given, v):
            env.check(env.And(g >= 0, g <= m), 'digit in range')
            for i in range(m):
                b = 2 * lo + st * (2 * i + 1)
                if v is not s:
                    env.assume(env.Or(2 * y - b > 0.001, b - 2 * y > 0.001))
                env.check((g > i) == (2 * y >= b),
                          'digit of the bin that contains the score')


def cases(tier):
    q_ = tier == 'quick'
    cs = []
    forms = ('tuple', 'list', 'array')
    k = 0
    for m in (1, 2, 3, 4, 5, 9) if q_ else range(1, 17):
        for q in (1, 2, 4, 10, 100, 'real'):
            k += 1
            if m <= (3 if q_ else 8):
                cs.append(Case('counts-%s-%d' % (q, m), counts,
                               dict(form=forms[k % 3], q=q, m=m), fp=True,
                               cost=m * m * 10))
            cs.append(Case('values-%s-%d' % (q, m), values, dict(
                form=forms[(k + 1) % 3], q=q, m=m), cost=m * m))
    for q in (1, 2):
        for m in (1, 2, 4) if q_ else (1, 2, 3, 4, 6):
            cs.append(Case('integers-%d-%d' % (q, m), integers,
                           dict(q=q, m=m), cost=m * m))
    return cs
