"""C26: interlaced k-fold assigns the i-th sample to fold i mod k."""
from symex.cases import Case

BOUNDS = ('2 to 5 folds (thorough: 8) and k to 9 samples (thorough: 24), '
          'given as symbolic one- or two-dimensional arrays or lists, with or '
          'without targets and groups; 11 folds of 40 '
          'and 3 folds of 300 samples; fewer samples than folds and every '
          'number of folds from -2 to 1 for the errors.')


def samples(env, form, n):
    np = env.np
    if form == '1d':
        return env.reals('x', n)
    if form == 'list':
        return [env.real('x%d' % i) for i in range(n)]
    if form == 'rows':
        return [[env.int('x%d' % i, 0, 9)] for i in range(n)]
    if form == 'ids':
        return np.array([[env.int('e%d' % i, 0, 99), env.int('f%d' % i, 0, 99)]
                         for i in range(n)], dtype=int).reshape(n, 2)
    return np.array([[env.real('x%d' % i)] for i in range(n)],
                    dtype=float).reshape(n, 1)


def members(env, ix, n, label):
    """the positions listed in ix, which must be distinct and in range"""
    out = [0] * n
    for j in range(len(ix)):
        i = int(ix[j])
        if not env.check(0 <= i < n, label + ': an index out of range'):
            return out
        out[i] += 1
    env.check(max(out + [0]) <= 1, label + ': an index twice')
    return out


def partition(env, split, n):
    """train and test of a split contain every sample exactly once"""
    env.check(len(split) == 2, 'a split is a pair')
    tr = members(env, split[0], n, 'train')
    te = members(env, split[1], n, 'test')
    env.check(all(a + b == 1 for a, b in zip(tr, te)),
              'the training set is the rest')
    return te


def h_large(env, k, n):
    ms = env.load('kamrecsys.model_selection')
    x = env.np.array([[env.real('x0')]] + [[i] for i in range(1, n)],
                     dtype=float)
    got = env.runs('split', lambda: list(ms.InterlacedKFold(k).split(x)))
    env.check(len(got) == k, 'number of splits')
    for f, s in enumerate(got):
        te = partition(env, s, n)
        env.check(te == [1 if i % k == f else 0 for i in range(n)],
                  'sample i is tested in split i mod k')


def h_split(env, form, nmax, kmax, extra, kform):
    ms = env.load('kamrecsys.model_selection')
    k = int(env.int('k', 2, kmax))
    n = int(env.int('n', k, nmax))
    x = samples(env, form, n)
    y = env.reals('y', n) if extra else None
    g = env.ints('g', n, 0, 3) if extra else None
    keep = env.snap([x, y, g])
    cv = ms.InterlacedKFold(n_splits=float(k) if kform == 'float' else k)
    env.check(int(cv.get_n_splits()) == k, 'get_n_splits')
    for rnd in range(2):
        got = env.runs('split', lambda: list(cv.split(x, y, g)))
        env.check(len(got) == k, 'number of splits')
        for f, s in enumerate(got):
            te = partition(env, s, n)
            for i in range(n):
                env.check(te[i] == (1 if i % k == f else 0),
                          'sample i is tested in split i mod k')
    env.same(keep, [x, y, g], 'the arguments')


def h_few(env, form, kmax):
    ms = env.load('kamrecsys.model_selection')
    k = int(env.int('k', 2, kmax))
    n = int(env.int('n', 1, kmax))
    if n >= k:
        n = k - 1
    x = samples(env, form, n)
    cv = ms.InterlacedKFold(k)
    env.raises(ValueError, 'fewer samples than folds',
               lambda: list(cv.split(x)))


def h_folds(env):
    ms = env.load('kamrecsys.model_selection')
    k = int(env.int('k', -2, 1))
    env.raises(ValueError, 'fewer than two folds', ms.InterlacedKFold, k)


def cases(tier):
    deep = tier == 'thorough'
    kmax, nmax = (8, 24) if deep else (5, 9)
    out = [Case('folds', h_folds)]
    for form in ('1d', '2d', 'ids', 'list', 'rows'):
        for extra in (False, True):
            out.append(Case('split-%s%s' % (form, '-yg' if extra else ''),
                            h_split, dict(form=form, nmax=nmax, kmax=kmax,
                                          extra=extra, kform='int')))
        out.append(Case('few-%s' % form, h_few, dict(form=form, kmax=kmax)))
    for k, n in ((11, 40), (3, 300), (40, 41)) + (
            ((130, 300), (2, 1100)) if deep else ()):
        out.append(Case('large-%d-%d' % (k, n), h_large, dict(k=k, n=n)))
    out.append(Case('split-float', h_split, dict(
        form='1d', nmax=nmax, kmax=kmax, extra=False, kform='float')))
    return out
