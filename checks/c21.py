"""C21: score-predictor summaries agree with the underlying metrics."""
from symex.cases import Case
from .c05 import domain
from .c18 import count, off_boundary
from .util import seq, total, stdev, mean_, absdiff, special

BOUNDS = ('1 to 3 samples (thorough: 5), any reals in [-100, 100] or true '
          'scores any integers in [-9, 9], arrays and lists; domains of 1 to 4 '
          'strides (as for C05), and the default domain; lengths that differ '
          'by one or two; NaN or infinities anywhere.')


def h(env, n, tf, pf, q, m, form, fun):
    np = env.np
    M = env.load('kamrecsys.metrics')
    ts = env.ints('t', n, -9, 9) if tf == 'int' else env.real_list('t', n)
    ps = env.real_list('p', n)
    ta, pa = seq(env, ts, tf), seq(env, ps, pf)
    kt, kp = env.snap(ta), env.snap(pa)
    ab = [absdiff(env, a, b) for a, b in zip(ts, ps)]
    sq = [(a - b) * (a - b) for a, b in zip(ts, ps)]
    if fun == 'report':
        r = env.runs('report', M.score_predictor_report, ta, pa, disp=False)
        mean_(env, r['mean absolute error'], ab, 'mean absolute error')
        v = r['root mean squared error']
        env.check(v >= 0, 'root mean squared error is not negative')
        env.eq(v * v * n, total(env, sq) * 1.0, 'root mean squared error')
    else:
        if q == 'default':
            lo, st, m, a = 1, 1, 4, ()
        else:
            d, lo, hi, st = domain(env, form, q, m, True)
            a = (d,)
            if q in (10, 'real'):
                off_boundary(env, ts + ps, lo, st, m)
        r = env.runs('statistics', M.score_predictor_statistics, ta, pa, *a)
        env.eq(r['score levels'], np.array(
            [lo + st * i for i in range(m + 1)], dtype=float),
            'score levels')
        e = r['mean absolute error']
        mean_(env, e['mean'], ab, 'mean absolute error')
        stdev(env, e['stdev'], ab, 'deviation of absolute errors')
        e = r['mean squared error']
        mean_(env, e['mean'], sq, 'mean squared error')
        stdev(env, e['stdev'], sq, 'deviation of squared errors')
        env.check(e['rmse'] >= 0, 'root mean squared error not negative')
        env.eq(e['rmse'] * e['rmse'] * n, total(env, sq) * 1.0,
               'root mean squared error')
        for key, xs in (('true', ts), ('predicted', ps)):
            hist = r[key]['histogram']
            dens = r[key]['histogram density']
            env.check(hist.shape == (m + 1,), 'one count per level')
            env.check(dens.shape == (m + 1,), 'one density per level')
            for i in range(m + 1):
                c = count(env, [env.And(
                    2 * v >= 2 * lo + st * (2 * i - 1) if i else True,
                    2 * v < 2 * lo + st * (2 * i + 1) if i < m else True)
                    for v in xs])
                env.eq(hist[i], c, 'histogram of %s scores' % key)
                env.eq(dens[i] * n, c * 1.0, 'density of %s scores' % key)
    env.same(ta, kt, 'true scores unchanged')
    env.same(pa, kp, 'predicted scores unchanged')
    env.eq(r['n_samples'], n, 'number of samples')
    for key, xs in (('true', ts), ('predicted', ps)):
        mean_(env, r[key]['mean'], xs, 'mean of %s scores' % key)
        stdev(env, r[key]['stdev'], xs, 'deviation of %s scores' % key)


def both(env, M, label, t, p):
    env.raises(ValueError, label + ' (report)', M.score_predictor_report,
               t, p, disp=False)
    env.raises(ValueError, label + ' (statistics)',
               M.score_predictor_statistics, t, p)


def guard(env, n, form):
    M = env.load('kamrecsys.metrics')
    t = env.real_list('t', n)
    p = env.real_list('p', n)
    i = env.choice('where', list(range(2 * n)))
    (t if i < n else p)[i % n] = special(env, 'bad')
    both(env, M, 'non-finite', seq(env, t, form), seq(env, p, form))


def lengths(env, n, form):
    M = env.load('kamrecsys.metrics')
    m = env.choice('m', [n + 1, n + 2])
    t = seq(env, env.real_list('t', n), form)
    p = seq(env, env.real_list('p', m), form)
    both(env, M, 'lengths', t, p)
    both(env, M, 'lengths', p, t)


def cases(tier):
    cs = []
    q_ = tier == 'quick'
    forms = ('tuple', 'list', 'array')
    k = 0
    for n in (1, 2, 3) if q_ else (1, 2, 3, 4, 5):
        for tf, pf in (('array', 'array'), ('int', 'array'),
                       ('list', 'list')):
            cs.append(Case('report-%s-%s-%d' % (tf, pf, n), h, dict(
                n=n, tf=tf, pf=pf, q=None, m=0, form=None, fun='report')))
            for q in (1, 2, 10, 'real', 'default'):
                for m in (1, 2, 4):
                    if q == 'default' and m != 4 or m == 4 and (
                            q_ and n > 1 and q != 'default'):
                        continue
                    if q_ and n == 3 and tf != 'array':
                        continue
                    k += 1
                    cs.append(Case('stats-%s-%s-%d-%s-%d' % (
                        tf, pf, n, q, m), h, dict(
                            n=n, tf=tf, pf=pf, q=q, m=m, form=forms[k % 3],
                            fun='statistics'), cost=n * m))
        for form in ('array', 'list'):
            if n <= 3:
                cs.append(Case('guard-%s-%d' % (form, n), guard,
                               dict(n=n, form=form)))
                cs.append(Case('lengths-%s-%d' % (form, n), lengths,
                               dict(n=n, form=form)))
    return cs
