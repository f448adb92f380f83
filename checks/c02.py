"""C02: unknown ids are flagged, never mistaken for another object."""
from symex.cases import Case
from .c01 import LAYOUTS, make

BOUNDS = ('1 or 2 events loaded (thorough: 3), 1 or 2 converted; ids '
          'integers in [-50, 1000] or strings; placeholders integers in '
          '[-9, 99], one for all columns or one per column; all five layouts; '
          'internal ids in [-6, n+6]; one extra or missing column.')


def known(env, x, rows, ots, t):
    return env.Or(False, *[x == r[e] for r in rows
                           for e, o in enumerate(ots) if o == t])


def h(env, kind, n, m, layout, missing, single, cls):
    np = env.np
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout, cls)
    if cls == 'EventData':
        data.set_event(ev)
    else:
        data.set_event(ev, np.arange(n) + 1, (1, max(2, n), 1))
    s = len(ots)
    q = [env.ids('q%d_' % i, s, kind) for i in range(m)]
    qa = np.array(q[0] if single else q)
    keep = qa.copy()
    kw = {}
    if missing == 'scalar':
        mv = env.int('mv', -9, 99)
        kw = dict(missing_values=mv)
        mvs = [mv] * s
    elif missing == 'list':
        mvs = env.ints('mv', s, -9, 99)
        kw = dict(missing_values=list(mvs))
    elif missing == 'array':
        mvs = env.ints('mv', s, -9, 99)
        kw = dict(missing_values=np.array(mvs))
    else:
        mvs = [data.n_objects[t] for t in ots]
    new = env.runs('to_iid_event', data.to_iid_event, qa, **kw)
    env.observe('new', new)
    env.check(new.shape == qa.shape, 'shape of the result')
    for i in range(m):
        for e, t in enumerate(ots):
            x = q[i][e]
            r = new[e] if single else new[i, e]
            if known(env, x, rows, ots, t):
                env.check(env.And(r >= 0, r < data.n_objects[t]),
                          'known id has an iid')
                env.eq(data.to_eid(t, r), x, 'known id keeps its own iid')
                env.eq(env.runs('known single', data.to_iid, t, x), r,
                       'single lookup agrees')
            else:
                env.eq(r, mvs[e], 'unknown id becomes the placeholder')
                env.raises(ValueError, 'unknown single id', data.to_iid, t,
                           x)
    env.eq(qa, keep, 'argument unchanged')


PLACES = (['a', 'b', 'ab', 'aa', '', 'B', 'c' * 9],
          ['x1', 'x2', 'x', 'x11', 'x1 ', '1x', 'x2x2x2x2'])


def strings(env, single):
    """ids that begin like known ones, of any width"""
    np = env.np
    D = env.load('kamrecsys.data')
    data = D.EventData()
    data.set_event(np.array([['a', 'x1'], ['b', 'x2'], ['a', 'x2']]))
    q = [env.choice('q%d' % e, PLACES[e]) for e in range(2)]
    rows = q if single else [['b', 'x2'], q]
    for form in (np.array, list, tuple):
        got = np.asarray(env.runs('to_iid_event', data.to_iid_event,
                                  form(rows))).reshape(-1, 2)
        for e in range(2):
            i = PLACES[e].index(q[e])
            env.eq(got[-1, e], i if i < 2 else 2, 'internal id')
            if i < 2:
                env.eq(data.to_iid(e, q[e]), i, 'known id')
            else:
                env.raises(ValueError, 'unknown id', data.to_iid, e, q[e])
        if not single:
            env.eq(got[0], [1, 1], 'the known event')


def range_(env, kind, n, layout):
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout)
    data.set_event(ev)
    for t in [env.choice('type', list(range(n_otypes)))]:
        no = int(data.n_objects[t])
        i = env.int('i%d' % t, -6, no + 6)
        if env.And(i >= 0, i < no):
            x = env.runs('known iid', data.to_eid, t, i)
            env.eq(data.to_iid(t, x), i, 'eid of iid')
        else:
            env.raises(ValueError, 'iid out of range', data.to_eid, t, i)


def shape(env, kind, layout):
    np = env.np
    data, ev, rows, n_otypes, ots = make(env, kind, 2, layout)
    data.set_event(ev)
    s = len(ots)
    for w in (s - 1, s + 1):
        q = [env.ids('q%d_' % i, w, kind) for i in range(2)]
        env.raises(TypeError, 'wrong width (array)', data.to_iid_event,
                   np.array(q).reshape(2, w))
        env.raises(TypeError, 'wrong width (single)', data.to_iid_event,
                   np.array(q[0]))
        z = np.zeros((2, w), dtype=int)
        env.raises(TypeError, 'wrong width of iids (array)',
                   data.to_eid_event, z)
        env.raises(TypeError, 'wrong width of iids (single)',
                   data.to_eid_event, z[0])
    z = np.zeros((1, 2, s), dtype=int)
    env.raises(TypeError, 'three dimensions', data.to_eid_event, z)
    env.raises(TypeError, 'three dimensions', data.to_iid_event, z)


def cases(tier):
    q = tier == 'quick'
    cs = []
    for single in (False, True):
        cs.append(Case('strings-%d' % single, strings, dict(single=single)))
    for kind in ('int', 'str'):
        for lay in LAYOUTS:
            for n, m in ((1, 1), (2, 1), (1, 2)) + (
                    () if q else ((3, 1), (2, 2))):
                if n + m >= 4 and lay in ('uiu', 'uu') or (
                        n + m == 3 and lay == 'uiu' and q):
                    continue
                for missing in ('default', 'scalar', 'list', 'array'):
                    for single in (False, True):
                        if single and m > 1:
                            continue
                        if kind == 'str' and missing != 'default' and q:
                            continue
                        if missing in ('list', 'scalar') and n > 1 and q:
                            continue
                        cs.append(Case(
                            '%s-%s-%d-%d-%s%s' % (
                                kind, lay, n, m, missing,
                                '-single' if single else ''), h,
                            dict(kind=kind, n=n, m=m, layout=lay,
                                 missing=missing, single=single,
                                 cls='EventData' if missing != 'array' else
                                 'EventWithScoreData'),
                            cost=3 ** (n * m)))
            cs.append(Case('range-%s-%s' % (kind, lay), range_,
                           dict(kind=kind, n=1 if q and lay == 'uiu' else 2,
                                layout=lay)))
        cs.append(Case('shape-%s' % kind, shape,
                       dict(kind=kind, layout='ui')))
        cs.append(Case('shape-%s-uiu' % kind, shape,
                       dict(kind=kind, layout='rev')))
    return cs
