"""C07: containers and models never leak changes into each other."""
from symex.cases import Case
from . import models as M
from .c11 import unknown
from .c16 import data

BOUNDS = ('containers of 3 or 4 events with features of objects and events '
          '(ids of seven patterns, symbolic scores and features), filtered '
          'by every mask, one or two filters in a row; four recommenders '
          'fitted to the source or to the filtered container; every history '
          'of two (thorough: three) modifications out of reloading (bigger, '
          'smaller, same size), binarising, setting features and filtering, '
          'applied to any one of the objects; inputs of six metrics, of '
          'loading, filtering and predicting; the arrays a container was '
          'loaded or filtered from overwritten afterwards.')
ASSUMPTIONS = ('real arithmetic instead of floating point; the optimiser is '
               'replaced by one returning an arbitrary vector.')

PATS = ('grid', 'late', 'rev', 'uu', 'uiu02', 'gap', 'repeat')


def base(env, P, scored, name='', feats=True):
    """a container with scores and features of everything"""
    np = env.np
    n = P.n
    ef = env.reals(name + 'ef', n) if feats else None
    if scored:
        d = M.container(env, P, env.reals(name + 's', n, 1, 5), (1, 5, 1),
                        event_feature=ef)
    else:
        d = M.container(env, P, None, event_feature=ef)
    if feats:
        for t in range(P.n_otypes):
            m = int(d.n_objects[t])
            if m:
                d.set_feature(t, d.eid[t].copy(), env.reals(
                    '%sF%d_' % (name, t), m))
    return d


def state(d):
    """what a user can see of a container, copied"""
    out = {'n_otypes': int(d.n_otypes), 's_event': int(d.s_event),
           'n_events': int(d.n_events),
           'event_otypes': [int(t) for t in d.event_otypes],
           'n_objects': [int(x) for x in d.n_objects]}
    for a in ('event', 'event_feature', 'score', 'score_domain'):
        v = getattr(d, a, None)
        out[a] = v.copy() if hasattr(v, 'copy') else v
    v = getattr(d, 'n_score_levels', None)
    out['n_score_levels'] = v if v is None else int(v)
    out['eid'] = [None if e is None else e.copy() for e in d.eid]
    out['iid'] = [None if e is None else [int(d.to_iid(t, x)) for x in e]
                  for t, e in enumerate(d.eid)]
    out['known'] = [None if i is None else len(i) for i in d.iid]
    f = getattr(d, 'feature', None)
    out['feature'] = f if f is None else [
        None if x is None else x.copy() for x in f]
    return out


def unchanged(env, d, old, label):
    new = state(d)
    for k in sorted(old):
        a, b = old[k], new[k]
        if a is None or b is None:
            env.check(a is None and b is None, '%s: %s' % (label, k))
        elif isinstance(a, list):
            env.check(len(a) == len(b), '%s: %s' % (label, k))
            for x, y in zip(a, b):
                if x is None or y is None:
                    env.check(x is None and y is None,
                              '%s: %s' % (label, k))
                else:
                    env.eq(y, x, '%s: %s' % (label, k))
        else:
            if hasattr(a, 'shape'):
                env.eq(list(b.shape), list(a.shape), '%s: %s' % (label, k))
            env.eq(b, a, '%s: %s' % (label, k))


def queries(env, P):
    u = unknown(P)
    rows = [list(r) for r in P.rows]
    for j in range(P.width):
        r = list(P.rows[0])
        r[j] = u
        rows.append(r)
    return env.np.array(rows)


class Seen:
    """a container or a model, and what is to stay the same of it"""

    def __init__(self, env, name, obj, q=None):
        self.env, self.name, self.obj, self.q = env, name, obj, q
        self.old = self.look()

    def look(self):
        if self.q is None:
            return state(self.obj)
        m = self.obj
        out = {'n_objects': [int(x) for x in m.n_objects],
               'eid': [e.copy() for e in m.eid],
               'iid': [[int(m.to_iid(t, x)) for x in e]
                       for t, e in enumerate(m.eid)],
               'prediction': m.predict(self.q.copy())}
        for a in ('mu_', 'bu_', 'bi_', 'p_', 'q_', 'pZ_', 'pXgZ_', 'pYgZ_',
                  'pRgZ_', 'score_levels', 'score_domain'):
            v = getattr(m, a, None)
            if hasattr(v, 'copy'):
                out[a] = v.copy()
        return out

    def check(self, why):
        env, label = self.env, '%s after %s' % (self.name, why)
        if self.q is None:
            unchanged(env, self.obj, self.old, label)
            return
        new = self.look()
        for k in sorted(self.old):
            env.check(k in new, label + ': ' + k)
            env.same(new.get(k), env.snap(self.old[k]), label + ': ' + k)


def modify(env, d, P, how, i):
    """a modification of container d"""
    np = env.np
    w, scored = P.width, hasattr(d, 'score')
    if how == 'filter':
        n = int(d.n_events)
        d.filter_event(np.array([j == 0 for j in range(n)], dtype=bool))
    elif how.startswith('load'):
        n = {'load-big': 5, 'load-small': 1}.get(how, P.n)
        rows = [[100 + 10 * j + (e if P.ots[e] != P.ots[0] else 0) + i
                 for e in range(w)] for j in range(n)]
        if how == 'load':                       # same ids, other order
            rows = [list(r) for r in reversed(P.rows)]
        ev = np.array(rows)
        if scored:
            d.set_event(ev, env.reals('L%d_' % i, n, 0, 1), (0, 1, 0.5),
                        event_feature=env.reals('LF%d_' % i, n))
        else:
            d.set_event(ev, event_feature=env.reals('LF%d_' % i, n))
    elif how == 'binarise':
        if scored and d.score is not None:
            d.binarize_score(3)
    elif how == 'feature':
        for t in range(P.n_otypes):
            e = d.eid[t]
            if e is not None and len(e):
                d.set_feature(t, e[::-1].copy(),
                              env.reals('N%d_%d_' % (i, t), len(e)))


OPS = ('load', 'load-big', 'load-small', 'binarise', 'feature', 'filter')


def h_history(env, pat, scored, chain, steps, feats=True, how='mask'):
    """source and filtered containers, modifications of one of them"""
    np = env.np
    P = M.Pattern(env, pat)
    objs = [base(env, P, scored, feats=feats)]
    for c in range(chain):
        d = objs[-1]
        n = int(d.n_events)
        was = state(d)
        if how == 'mask':
            bs = [bool(b) for b in env.bools('m%d_' % c, n)]
            env.assume(any(bs))
            cond = np.array(bs, dtype=bool)
        else:
            cond = [n - 1 - j for j in range(n)]
        keep = env.snap(cond)
        objs.append(d.filter_event(cond))
        env.same(cond, keep, 'the condition')
        unchanged(env, d, was, 'source after filtering')
    who = int(env.int('who', 0, chain))
    rest = [Seen(env, 'source' if j < who else 'filtered container', o)
            for j, o in enumerate(objs) if j != who]
    for i in range(steps):
        op = env.choice('op%d' % i, OPS)
        modify(env, objs[who], P, op, i)
        for s in rest:
            s.check(op)


def h_model(env, model, pat, steps, filt):
    np = env.np
    P = M.Pattern(env, pat)
    d = data(env, model, P)
    if filt:
        src = d
        d = d.filter_event(np.array([i != 0 for i in range(P.n)],
                                    dtype=bool))
        P.rows = [r for i, r in enumerate(P.rows) if i != 0]
        P.n -= 1
    was = state(d)
    kw = dict(k=1, random_state=0)
    if model == 'MultinomialPLSA':
        kw.update(maxiter=1, alpha=0.5, k=2)
    m = M.new(env, model, **kw)
    env.runs('fit', m.fit, d, **P.fit_args())
    unchanged(env, d, was, 'container after fitting')
    q = queries(env, P)
    keep = q.copy()
    seen = Seen(env, 'model', m, q)
    env.eq(q, keep, 'the events to predict')
    unchanged(env, d, was, 'container after predicting')
    for i in range(steps):
        op = env.choice('op%d' % i, OPS + (('fit other',) if i == 0 else
                                           ()))
        if op == 'fit other':
            o = M.new(env, model, **kw)
            o.fit(d, **P.fit_args())
        else:
            modify(env, src if filt and i else d, P, op, i)
        seen.check(op)


def h_loading(env, pat, scored, form):
    """the arguments of loading stay as they are, whatever follows"""
    np = env.np
    D = env.load('kamrecsys.data')
    P = M.Pattern(env, pat)
    ev = np.array(P.rows)
    sc = env.reals('s', P.n, 1, 5)
    dom = [1, 5, 1] if form == 'list' else np.array([1., 5., 1.])
    ef = env.reals('ef', P.n)
    ot = None if P.event_otypes is None else (
        list(P.event_otypes) if form == 'list' else np.array(P.event_otypes))
    if form == 'list':
        sc, ef = list(sc), list(ef)
    args = [ev, sc, dom, ef, ot]
    keep = env.snap(args)
    cls = D.EventWithScoreData if scored else D.EventData
    d = cls(n_otypes=P.n_otypes, event_otypes=ot)
    if scored:
        d.set_event(ev, sc, dom, event_feature=ef)
    else:
        d.set_event(ev, event_feature=ef)
    env.same(args, keep, 'arguments after loading')
    fe, ff = d.eid[P.ut].copy(), env.reals('F', int(d.n_objects[P.ut]))
    k2 = env.snap([fe, ff])
    d.set_feature(P.ut, fe, ff)
    env.same([fe, ff], k2, 'arguments after set_feature')
    d.to_iid_event(ev)
    d.to_eid_event(d.event)
    env.same(args, keep, 'arguments after conversions')
    f = d.filter_event(np.array([i > 0 for i in range(P.n)], dtype=bool))
    if scored:
        x = env.reals('x', 2, 1, 5)
        kx = x.copy()
        d.digitize_score(x)
        env.eq(x, kx, 'scores to digitise')
        d.digitize_score()
    for o in (f, d):
        for j, op in enumerate(('feature', 'binarise', 'load-big')):
            modify(env, o, P, op, 3 + j)
            env.same(args, keep, 'arguments after ' + op)
            env.same([fe, ff], k2, 'feature arguments after ' + op)


def h_overwrite(env, pat, scored):
    """the caller overwrites the arrays a container was loaded from"""
    np = env.np
    D = env.load('kamrecsys.data')
    P = M.Pattern(env, pat)
    ev, sc = np.array(P.rows), env.reals('s', P.n, 1, 5)
    ef = env.reals('ef', P.n)
    ot = None if P.event_otypes is None else np.array(P.event_otypes)
    if scored:
        d = D.EventWithScoreData(n_otypes=P.n_otypes, event_otypes=ot)
        d.set_event(ev, sc, (1, 5, 1), event_feature=ef)
    else:
        d = D.EventData(n_otypes=P.n_otypes, event_otypes=ot)
        d.set_event(ev, event_feature=ef)
    fe = d.eid[P.ut].copy()
    ff = env.reals('F', int(d.n_objects[P.ut]))
    d.set_feature(P.ut, fe, ff)
    was = state(d)
    for a in (ev, sc, ef, fe, ff):
        a[...] = 0
    unchanged(env, d, was, 'after overwriting the arrays')
    f = d.filter_event(np.array([True] * P.n))
    was = state(f)
    for a in (d.event, d.event_feature, d.feature[P.ut], d.eid[P.ut]) + (
            (d.score,) if scored else ()):
        a[...] = 1
    unchanged(env, f, was, 'filtered after overwriting its source')


METRICS = ('mean_absolute_error', 'mean_squared_error', 'score_histogram',
           'variance_with_gamma_prior', 'score_predictor_report',
           'score_predictor_statistics', 'item_finder_report',
           'item_finder_statistics', 'statistics_mean')


def h_metric(env, which, form, n):
    """metrics leave their arguments alone"""
    np = env.np
    ms = env.load('kamrecsys.metrics')
    t = env.reals('t', n, 1, 5)
    p = env.reals('p', n, 1, 5)
    if which.startswith('item'):
        t = np.array([float(i % 2) for i in range(n)])
        p = np.array([0.25 + i for i in range(n)])
    if form == 'list':
        t, p = list(t), list(p)
    elif form == 'int':
        t = np.array([1 + i % 2 if not which.startswith('item') else i % 2
                      for i in range(n)])
        p = np.array([2 + i for i in range(n)])
    args = [t, p]
    f = getattr(ms, which)
    if which == 'score_histogram':
        args = [t, [1, 5, 1]]
    elif which == 'variance_with_gamma_prior':
        args = [t]
    elif which == 'statistics_mean':
        args = [{0: t, 1: p}, {0: p, 1: t}]
    keep = env.snap(args)
    kw = {'disp': False} if which.endswith('report') else {}
    if which == 'statistics_mean':
        env.runs(which, f, ms.mean_absolute_error, *args)
    else:
        env.runs(which, f, *args, **kw)
    env.same(args, keep, 'arguments of ' + which)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for pat in PATS:
        for scored in (True, False):
            out.append(Case('chain-%s-%s' % (pat, 'score' if scored else
                                             'event'), h_history,
                            dict(pat=pat, scored=scored, chain=1,
                                 steps=2 if deep else 1), cost=20))
            out.append(Case('order-%s-%s' % (pat, 'score' if scored else
                                             'event'), h_history,
                            dict(pat=pat, scored=scored, chain=1, steps=2,
                                 how='list'), cost=20))
        for scored in (True, False):
            out.append(Case('overwrite-%s-%s' % (pat, scored), h_overwrite,
                            dict(pat=pat, scored=scored)))
        for form in ('list', 'array'):
            for scored in (True, False):
                out.append(Case('load-%s-%s-%s' % (pat, form, scored),
                                h_loading, dict(pat=pat, scored=scored,
                                                form=form)))
    for pat in ('grid', 'uiu02') + (('late', 'gap') if deep else ()):
        out.append(Case('chain2-%s' % pat, h_history, dict(
            pat=pat, scored=True, chain=2, steps=1), cost=30))
    out.append(Case('steps-late', h_history, dict(
        pat='late', scored=True, chain=1, steps=3 if deep else 2), cost=40))
    out.append(Case('plain-late', h_history, dict(
        pat='late', scored=True, chain=1, steps=1, feats=False), cost=10))
    for model in sorted(M.MODELS):
        for pat in PATS if deep else ('late', 'uiu02', 'rev'):
            for filt in (False, True):
                out.append(Case('%s-%s%s' % (model, pat, '-filt' if filt else
                                             ''), h_model,
                                dict(model=model, pat=pat, filt=filt,
                                     steps=2 if deep or not filt and
                                     model != "MultinomialPLSA" else 1),
                                cost=25))
    for which in METRICS:
        for form in ('array', 'list', 'int'):
            out.append(Case('metric-%s-%s' % (which, form), h_metric, dict(
                which=which, form=form, n=2)))
    return out
