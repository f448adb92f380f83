"""C22: averaging a statistic over folds pairs matching entries."""
from symex.cases import Case

BOUNDS = ('1 to 3 folds (thorough: 5), 1 to 3 arguments, entries arbitrary '
          'reals (scalars or arrays of two or three), every insertion order of '
          'two or three keys, keys as strings or integers; results scalar or '
          'tuples of two; the function itself applied to symbolic entries.')


def f1(env, *a):
    r = 0
    for i, x in enumerate(a):
        r = r + (i + 2) * x * (x + i)
    return r


def h(env, folds, nargs, kind, result, size, order):
    np = env.np
    M = env.load('kamrecsys.metrics')
    keys = {'str': ['b', 'c', 'a', 'e', 'd'], 'int': [3, 10, 2, 7, 1]}[
        'int' if kind == 'dict-int' else 'str'][:folds]
    vals = []
    for j in range(nargs):
        row = []
        for i in range(folds):
            nm = 'v%d_%d_' % (j, i)
            row.append(env.real(nm) if size == 0 else
                       env.reals(nm, size))
        vals.append(row)
    args = []
    for j in range(nargs):
        if kind == 'list':
            args.append(list(vals[j]))
            continue
        idx = list(range(folds))
        if order == 'reverse' and j % 2:
            idx.reverse()
        elif order == 'rotate':
            idx = idx[j % folds:] + idx[:j % folds]
        args.append({keys[i]: vals[j][i] for i in idx})
    keep = [env.snap(a) for a in args]

    def fun(*a):
        if size:
            a = [x.sum() if k % 2 else x[0] - 2 * x[size - 1]
                 for k, x in enumerate(a)]
        r = f1(env, *a)
        return (r, r * 2 - a[0]) if result == 'tuple' else r

    got = env.runs('statistics_mean', M.statistics_mean, fun, *args)
    rs = [fun(*[vals[j][i] for j in range(nargs)]) for i in range(folds)]
    if result == 'tuple':
        env.check(np.asarray(got).shape == (2,), 'shape of the mean')
        for c in range(2):
            t = 0
            for r in rs:
                t = t + r[c]
            env.eq(got[c] * folds, t * 1.0, 'mean of component %d' % c)
    else:
        env.check(np.asarray(got).shape == (), 'a single mean')
        t = 0
        for r in rs:
            t = t + r
        env.eq(got * folds, t * 1.0, 'mean over the folds')
    for a, k in zip(args, keep):
        env.same(a, k, 'arguments unchanged')


def mae(env, folds):
    """with a real metric on two dictionaries"""
    M = env.load('kamrecsys.metrics')
    t = {str(i): env.reals('t%d_' % i, 2) for i in range(folds)}
    p = {str(i): env.reals('p%d_' % i, 2) for i in reversed(range(folds))}
    got = env.runs('statistics_mean', M.statistics_mean,
                   M.mean_absolute_error, t, p)
    ms = [M.mean_absolute_error(t[k], p[k]) for k in t]
    for c in range(2):
        s = 0
        for m in ms:
            s = s + m[c]
        env.eq(got[c] * folds, s, 'mean of the metric')


def types(env):
    np = env.np
    M = env.load('kamrecsys.metrics')
    x = env.reals('x', 2)
    for bad in (x, (x, x), env.choice('other', ['ab', 3, None])):
        env.raises(TypeError, 'other argument types', M.statistics_mean,
                   lambda *a: 0.0, bad, bad)


def cases(tier):
    cs = [Case('types', types)]
    for folds in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
        if folds < 4:
            cs.append(Case('mae-%d' % folds, mae, dict(folds=folds)))
        for nargs in (1, 2, 3):
            for kind in ('list', 'dict-str', 'dict-int'):
                for order in ('same', 'reverse', 'rotate'):
                    if kind == 'list' and order != 'same':
                        continue
                    for result in ('scalar', 'tuple'):
                        for size in (0, 2, 3):
                            if size == 3 and nargs != 2:
                                continue
                            cs.append(Case('%s-%d-%d-%s-%s-%d' % (
                                kind, folds, nargs, order, result, size), h,
                                dict(folds=folds, nargs=nargs, kind=kind,
                                     result=result, size=size,
                                     order=order)))
    return cs
