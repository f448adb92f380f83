"""C20: item-finder summaries are right and guard their input."""
from symex.cases import Case
from .util import seq, total, stdev, mean_, special

BOUNDS = ('1 to 4 samples (thorough: 5); true scores 0/1 integers, booleans '
          'or reals, predictions any reals in [-100, 100] with ties; arrays '
          'and lists; true scores any reals in [-3, 3] for the guard; lengths '
          'that differ by one or two; NaN or infinities anywhere.')


def auc(env, ts, ps):
    pos = [p for t, p in zip(ts, ps) if t == 1]
    neg = [p for t, p in zip(ts, ps) if t == 0]
    s = 0
    for p in pos:
        for q in neg:
            s = s + env.If(p > q, 2, env.If(p == q, 1, 0))
    return s, 2 * len(pos) * len(neg)


def h(env, n, kind, form, fun):
    M = env.load('kamrecsys.metrics')
    ps = env.real_list('p', n)
    # which samples are relevant is decided here, so one path each
    ts = [env.int('t%d' % i, 0, 1) for i in range(n)]
    ts = [1 if t == 1 else 0 for t in ts]
    if kind == 'bool':
        ta = env.np.array([bool(t) for t in ts])
    elif kind == 'int':
        ta = seq(env, ts, 'int')
    else:
        ta = seq(env, [float(t) for t in ts], form)
    pa = seq(env, ps, form)
    kt, kp = env.snap(ta), env.snap(pa)
    if fun == 'report':
        r = env.runs('report', M.item_finder_report, ta, pa, disp=False)
    else:
        r = env.runs('statistics', M.item_finder_statistics, ta, pa)
    env.same(ta, kt, 'true scores unchanged')
    env.same(pa, kp, 'predicted scores unchanged')
    env.eq(r['n_samples'], n, 'number of samples')
    mean_(env, r['true']['mean'], ts, 'mean of true scores')
    mean_(env, r['predicted']['mean'], ps, 'mean of predicted scores')
    stdev(env, r['true']['stdev'], ts, 'deviation of true scores')
    stdev(env, r['predicted']['stdev'], ps, 'deviation of predicted scores')
    k = 'area under the curve'
    both = 0 in ts and 1 in ts
    env.check((k in r) == both, 'area only with both classes')
    if both and k in r:
        s, d = auc(env, ts, ps)
        env.eq(r[k] * d, s * 1.0, 'area under the ROC curve')


def both(env, M, label, t, p):
    env.raises(ValueError, label + ' (report)', M.item_finder_report, t, p,
               disp=False)
    env.raises(ValueError, label + ' (statistics)', M.item_finder_statistics,
               t, p)


def nonbinary(env, n, form):
    M = env.load('kamrecsys.metrics')
    ts = env.real_list('t', n, -3, 3)
    env.assume(env.Or(*[env.And(t != 0, t != 1) for t in ts]))
    both(env, M, 'non-binary', seq(env, ts, form),
         seq(env, env.real_list('p', n), form))


def guard(env, n, form):
    M = env.load('kamrecsys.metrics')
    t = [float(i % 2) for i in range(n)]
    p = env.real_list('p', n)
    i = env.choice('where', list(range(2 * n)))
    (t if i < n else p)[i % n] = special(env, 'bad')
    both(env, M, 'non-finite', seq(env, t, form), seq(env, p, form))


def lengths(env, n, form):
    M = env.load('kamrecsys.metrics')
    m = env.choice('m', [n + 1, n + 2])
    t = [float(i % 2) for i in range(m)]
    p = env.real_list('p', m)
    both(env, M, 'lengths', seq(env, t, form), seq(env, p[:n], form))
    both(env, M, 'lengths', seq(env, t[:n], form), seq(env, p, form))


def cases(tier):
    cs = []
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for fun in ('report', 'statistics'):
            for kind, form in (('real', 'array'), ('int', 'array'),
                               ('real', 'list'), ('bool', 'array')):
                if n == top and kind != 'real' or form == 'list' and n > 3:
                    continue
                cs.append(Case('%s-%s-%s-%d' % (fun, kind, form, n), h, dict(
                    n=n, kind=kind, form=form, fun=fun), cost=4 ** n))
    for n in (1, 2, 3):
        for form in ('array', 'list'):
            for nm, f in (('nonbinary', nonbinary), ('guard', guard),
                          ('lengths', lengths)):
                cs.append(Case('%s-%s-%d' % (nm, form, n), f,
                               dict(n=n, form=form), cost=n))
    return cs
