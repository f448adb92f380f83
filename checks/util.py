"""Specifications shared by the harnesses."""


def seq(env, x, form):
    """x as list, tuple or array"""
    if form == 'list':
        return list(x)
    if form == 'tuple':
        return tuple(x)
    if form == 'int':
        return env.np.array(x, dtype=int)
    return env.np.array(x, dtype=float)


def total(env, xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def stdev(env, got, xs, label):
    """got is the population standard deviation of xs"""
    n = len(xs)
    env.check(got >= 0, label + ' is not negative')
    t = total(env, xs)
    env.eq(got * got * n * n, (n * total(env, [x * x for x in xs]) -
                               t * t) * 1.0, label)


def mean_(env, got, xs, label):
    env.eq(got * len(xs), total(env, xs) * 1.0, label)


def absdiff(env, a, b):
    return abs(a - b)


def special(env, name):
    return env.choice(name, [float('nan'), float('inf'), -float('inf')])
