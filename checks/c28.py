"""C28: within-group shuffle split samples every group in proportion."""
import math
from symex.cases import Case
from .c26 import samples, partition
from .c27 import labels, groups_of

BOUNDS = ('1 or 2 splits (thorough: 3) of 2 to 5 samples (thorough: 6), '
          'every labelling by integers, strings or real numbers, or no '
          'labels; every test or training fraction in (0, 1) that is not '
          'within 1e-9 of a rounding boundary, every fixed size; with and '
          'without shuffling; every outcome of the shuffles.')
ASSUMPTIONS = ('random generators produce a stream determined by their '
               'seed; a shuffle yields an arbitrary permutation; real '
               'arithmetic instead of floating point for the fraction.')


def ceil_int(env, x, lo, hi):
    """the smallest integer in lo..hi that is at least x"""
    for c in range(lo, hi):
        if x <= c:
            return c
    return hi


def far(env, x, m):
    """x is not close to an integer in 0..m"""
    for c in range(m + 1):
        env.assume(env.Or(x <= c - 1e-9, x >= c + 1e-9))


def size_args(env, how, grp):
    """the sizes given and the number of test samples of every group"""
    if how == 'default':
        return {}, [ceil_int(env, 0.1 * len(m), 0, len(m)) for m in grp]
    want = []
    if how == 'test-int':
        t = env.int('size', 1, max(len(m) for m in grp))
        return dict(test_size=int(t)), [int(t)] * len(grp)
    if how == 'train-int':
        t = int(env.int('size', 1, max(len(m) for m in grp)))
        return (dict(test_size=None, train_size=t),
                [len(m) - t for m in grp])
    f = env.real('size', 0.01, 0.99)
    for m in grp:
        far(env, f * len(m), len(m))
    for m in grp:
        c = ceil_int(env, f * len(m), 0, len(m))
        # a training size is rounded down
        want.append(c if how == 'test' else len(m) - (c - 1))
    if how == 'test':
        return dict(test_size=f), want
    return dict(test_size=None, train_size=f), want


def h_split(env, kind, n, how, shuffle, splits, form='2d'):
    ms = env.load('kamrecsys.model_selection')
    x = samples(env, form, n)
    g, part = labels(env, kind, n)
    grp = groups_of(part)
    kw, want = size_args(env, how, grp)
    for m, w in zip(grp, want):
        env.assume(0 < w < len(m))
    keep = env.snap([x, g])
    cv = ms.ShuffleSplitWithinGroups(
        n_splits=splits, shuffle=shuffle, random_state=5, **kw)
    env.check(int(cv.get_n_splits()) == splits, 'get_n_splits')
    got = env.runs('split', lambda: [
        (a.copy(), b.copy()) for a, b in cv.split(x, groups=g)])
    env.check(len(got) == splits, 'number of splits')
    for s in got:
        te = partition(env, s, n)
        for m, w in zip(grp, want):
            env.check(sum(te[i] for i in m) == w,
                      'number of test samples of a group')
    env.same(keep, [x, g], 'the arguments')


def h_seed(env, kind, n, splits, again):
    """the same seed gives the same splits"""
    ms = env.load('kamrecsys.model_selection')
    x = samples(env, '2d', n)
    g, part = labels(env, kind, n)
    env.assume(min(len(m) for m in groups_of(part)) >= 2)
    cv = ms.ShuffleSplitWithinGroups(
        n_splits=splits, test_size=0.5, random_state=3)
    first = [(a.copy(), b.copy()) for a, b in cv.split(x, groups=g)]
    env.np.random.seed(11)
    env.np.random.random_sample(2)
    if again == 'new':
        cv = ms.ShuffleSplitWithinGroups(
            n_splits=splits, test_size=0.5, random_state=3)
    second = [(a.copy(), b.copy()) for a, b in cv.split(x, groups=g)]
    env.check(len(first) == len(second) == splits, 'number of splits')
    for (a, b), (c, d) in zip(first, second):
        env.eq(list(a), list(c), 'training set with the same seed')
        env.eq(list(b), list(d), 'test set with the same seed')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(ite_index=True)
    for kind in (None, 'int', 'list'):
        for form in ('1d', 'list', 'rows'):
            for how in ('default', 'test'):
                out.append(Case('%s-%s-%s' % (how, form, kind), h_split, dict(
                    kind=kind, n=4, how=how, shuffle=False, splits=1,
                    form=form), **o))
    for kind in (None, 'int', 'str', 'real'):
        for how in ('default', 'test', 'train', 'test-int', 'train-int'):
            top = 5 if kind in (None, 'int') else 4
            if deep:
                top += 1
            for n in range(2, top + 1):
                if kind not in (None, 'int') and how not in ('test',):
                    continue
                for sh in (True, False):
                    for sp in (1, 2, 3) if deep else (1, 2):
                        if sp > 1 and (n > 4 or n == 4 and sh):
                            continue
                        out.append(Case('%s-%s-n%d-%s%d' % (
                            how, kind, n, 'shuffled' if sh else 'ordered',
                            sp), h_split, dict(
                                kind=kind, n=n, how=how, shuffle=sh,
                                splits=sp), cost=4 ** n * 3 ** sp, **o))
    for kind in (None, 'int'):
        for again in ('same', 'new'):
            for n in (2, 3, 4):
                out.append(Case('seed-%s-%s-n%d' % (kind, again, n), h_seed,
                                dict(kind=kind, n=n, splits=1 if n > 3 else
                                     2, again=again), cost=4 ** n, **o))
    return out
