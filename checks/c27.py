"""C27: within-group k-fold partitions every group evenly."""
from symex.cases import Case
from .c26 import samples, partition

BOUNDS = ('2 or 3 folds (thorough: 4), up to 6 samples (thorough: 8; with '
          'shuffling 5 and 6), every labelling of the samples by integers, '
          'strings or real numbers in which each group has at least as many '
          'samples as there are folds, or no labels; without shuffling also '
          'up to 306 samples, 12 groups and 11 folds of fixed labels; every outcome of the '
          'shuffles.')
ASSUMPTIONS = ('random generators produce a stream determined by their '
               'seed; a shuffle yields an arbitrary permutation.')


def labels(env, kind, n):
    if kind is None:
        return None, [0] * n
    if kind == 'real':
        g = env.reals('g', n)
    else:
        g = env.ids('g', n, 'int' if kind == 'list' else kind)
        if kind != 'list':
            g = env.np.array(g)
    ls = [g[i] for i in range(n)]
    keys, part = [], []
    for v in ls:
        for j, w in enumerate(keys):
            if v == w:
                part.append(j)
                break
        else:
            part.append(len(keys))
            keys.append(v)
    return g, part


def groups_of(part):
    return [[i for i, p in enumerate(part) if p == j]
            for j in range(max(part) + 1)]


def h_split(env, kind, n, k, shuffle, form='2d'):
    ms = env.load('kamrecsys.model_selection')
    x = samples(env, form, n)
    g, part = labels(env, kind, n)
    grp = groups_of(part)
    env.assume(min(len(m) for m in grp) >= k)
    cv = ms.KFoldWithinGroups(n_splits=k, shuffle=shuffle, random_state=(
        7 if shuffle else None))
    keep = env.snap([x, g])
    env.check(int(cv.get_n_splits(x)) == k, 'get_n_splits')
    got = env.runs('split', lambda: [
        (a.copy(), b.copy()) for a, b in cv.split(x, groups=g)])
    env.check(len(got) == k, 'number of splits')
    te = [partition(env, s, n) for s in got]
    for i in range(n):
        env.check(sum(t[i] for t in te) == 1,
                  'every sample is tested exactly once')
    for m in grp:
        sizes = [sum(t[i] for i in m) for t in te]
        env.check(max(sizes) - min(sizes) <= 1,
                  'the parts of a group differ by at most one')
        if not shuffle:
            where = [[f for f in range(k) if te[f][i]] for i in m]
            env.check(where == sorted(where),
                      'contiguous parts without shuffling')
    env.same(keep, [x, g], 'the arguments')


def h_large(env, n, k, ng, kind, shuffle=False):
    """many samples in many groups of known labels"""
    ms = env.load('kamrecsys.model_selection')
    np = env.np
    part = [(i * i + i // 7) % ng for i in range(n)]
    part += [g for g in range(ng) for _ in range(k)]
    n = len(part)
    x = np.array([[env.real('x0')]] + [[i] for i in range(1, n)],
                 dtype=float)
    g = np.array([('g%d' % p if kind == 'str' else p * 3 - 4)
                  for p in part])
    cv = ms.KFoldWithinGroups(n_splits=k)
    got = env.runs('split', lambda: [
        (a.copy(), b.copy()) for a, b in cv.split(x, groups=g)])
    env.check(len(got) == k, 'number of splits')
    te = [partition(env, s, n) for s in got]
    env.check(all(sum(t[i] for t in te) == 1 for i in range(n)),
              'every sample is tested exactly once')
    for m in groups_of(part):
        sizes = [sum(t[i] for i in m) for t in te]
        env.check(max(sizes) - min(sizes) <= 1,
                  'the parts of a group differ by at most one')
        where = [[f for f in range(k) if te[f][i]] for i in m]
        env.check(where == sorted(where),
                  'contiguous parts without shuffling')


def h_errors(env, kmax):
    ms = env.load('kamrecsys.model_selection')
    k = int(env.int('k', -2, kmax))
    if k < 2:
        env.raises(ValueError, 'fewer than two folds',
                   ms.KFoldWithinGroups, k)
        return
    n = int(env.int('n', 1, kmax - 1))
    if n >= k:
        n = k - 1
    cv = ms.KFoldWithinGroups(k)
    env.raises(ValueError, 'fewer samples than folds',
               lambda: list(cv.split(samples(env, '1d', n))))


def cases(tier):
    deep = tier == 'thorough'
    out = [Case('errors', h_errors, dict(kmax=4))]
    o = dict(ite_index=True)
    for n, k, ng in ((40, 5, 12), (300, 3, 2), (30, 11, 3)):
        for kind in ('int', 'str'):
            out.append(Case('large-%d-%d-%d-%s' % (n, k, ng, kind), h_large,
                            dict(n=n, k=k, ng=ng, kind=kind)))
    for kind in (None, 'int', 'list'):
        for form in ('1d', 'list', 'rows'):
            out.append(Case('form-%s-%s' % (form, kind), h_split, dict(
                kind=kind, n=4, k=2, shuffle=False, form=form)))
    for kind in (None, 'int', 'str', 'real', 'list'):
        for k in (2, 3, 4) if deep else (2, 3):
            for n in range(max(k, 2), 9 if deep else 7):
                if kind in ('str', 'real', 'list') and n > (6 if deep else 5):
                    continue
                out.append(Case('ordered-%s-k%d-n%d' % (kind, k, n), h_split,
                                dict(kind=kind, n=n, k=k, shuffle=False),
                                cost=2 ** n))
            top = {None: 5, 'int': 5, 'str': 4, 'real': 4,
                   'list': 4}[kind]
            for n in range(k, top + (2 if deep else 1)):
                out.append(Case('shuffled-%s-k%d-n%d' % (kind, k, n),
                                h_split, dict(kind=kind, n=n, k=k,
                                              shuffle=True),
                                cost=5 ** n, **o))
    return out
