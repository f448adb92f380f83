"""C04: object features stay attached to their external ids."""
from symex.cases import Case
from .c01 import LAYOUTS, make

BOUNDS = ('up to 3 events (thorough: 4), tables of up to 4 rows (thorough: '
          '5) in any order with any distinct ids that list every object; '
          'plain, 2-d and structured features; five layouts; attaching to '
          'one type, to all types, twice to one type, and before other events '
          'are loaded.')


def table(env, name, kind, m, data, t, shape):
    """a feature table of m rows with distinct ids, listing all objects"""
    np = env.np
    ids = env.ids(name + 'id', m, kind)
    for i in range(m):
        for j in range(i):
            env.assume(ids[i] != ids[j])
    for k in range(int(data.n_objects[t])):
        x = data.to_eid(t, k)
        env.assume(env.Or(False, *[x == i for i in ids]))
    if shape == '1d':
        f = env.reals(name + 'f', m)
    elif shape == '2d':
        f = np.array([[env.real('%sf%d_%d' % (name, i, j))
                       for j in range(2)] for i in range(m)],
                     dtype=float).reshape(m, 2)
    else:
        f = np.array([(env.int('%sa%d' % (name, i), 0, 99),
                       env.real('%sb%d' % (name, i))) for i in range(m)],
                     dtype=[('age', int), ('w', float)])
    return ids, f


def attached(env, data, t, ids, f):
    n = int(data.n_objects[t])
    env.check(len(data.feature[t]) == n, 'one row per object')
    for k in range(n):
        x = data.to_eid(t, k)
        for i, y in enumerate(ids):
            if x == y:
                env.eq(data.feature[t][k], f[i], 'row listed under its eid')


def h(env, kind, n, layout, t, extra, shape):
    np = env.np
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout)
    data.set_event(ev)
    m = int(data.n_objects[t]) + extra
    ids, f = table(env, 'a', kind, m, data, t, shape)
    arr = np.array(ids)
    env.runs('set_feature', data.set_feature, t, arr, f)
    attached(env, data, t, ids, f)
    for u in range(n_otypes):
        if u != t:
            env.check(data.feature[u] is None, 'other types untouched')
    env.eq(data.to_eid_event(data.event), ev, 'events untouched')


def all_(env, kind, n, layout, extra):
    np = env.np
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout)
    data.set_event(ev)
    tabs = []
    for t in range(n_otypes):
        tab = table(env, 't%d' % t, kind, int(data.n_objects[t]) + extra,
                    data, t, ('1d', 'rec', '2d')[t % 3])
        env.runs('set_feature', data.set_feature, t, np.array(tab[0]),
                 tab[1])
        tabs.append(tab)
    for t in range(n_otypes):
        attached(env, data, t, *tabs[t])
    # again for one type
    tab = table(env, 'again', kind, int(data.n_objects[0]), data, 0, '2d')
    env.runs('set_feature again', data.set_feature, 0, np.array(tab[0]),
             tab[1])
    attached(env, data, 0, *tab)
    for t in range(1, n_otypes):
        attached(env, data, t, *tabs[t])


def reload(env, kind, n, layout, extra):
    """other events are loaded after features were attached"""
    np = env.np
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout)
    data.set_event(ev)
    tabs = []
    for t in range(n_otypes):
        tabs.append(table(env, 't%d' % t, kind, int(data.n_objects[t]) +
                          extra, data, t, ('1d', '2d')[t % 2]))
        data.set_feature(t, np.array(tabs[t][0]), tabs[t][1])
    w = len(ots)
    again = np.array([env.ids('r%d_' % i, w, kind) for i in range(n)])
    env.runs('set_event again', data.set_event, again)
    for t in range(n_otypes):
        if data.feature[t] is None:     # discarded
            continue
        ids, f = tabs[t]
        m = int(data.n_objects[t])
        env.check(len(data.feature[t]) == m, 'one row per object')
        for k in range(m):
            x = data.to_eid(t, k)
            env.check(env.Or(False, *[x == i for i in ids]),
                      'no feature of another object after reloading')
        attached(env, data, t, ids, f)
    env.eq(data.to_eid_event(data.event), again, 'events as reloaded')


def cases(tier):
    q = tier == 'quick'
    cs = []
    for kind in ('int', 'str'):
        for lay in LAYOUTS:
            n_otypes, ot = LAYOUTS[lay]
            for t in range(n_otypes):
                for extra in (0, 1, 2):
                    if lay == 'uiu' and t == 0 and extra == 2 and q:
                        continue
                    for n in (1, 2) if q else (1, 2, 3):
                        if extra == 2 and n == 2 and lay in ('uu', 'uiu'):
                            continue
                        if q and n == 2 and (
                                lay == 'uiu' and extra + (t == 0) or
                                lay == 'uu' and extra):
                            continue
                        if n == 3 and (extra == 2 or lay in (
                                'uu', 'uiu') or kind == 'str'):
                            continue
                        shape = ('1d', '2d', 'rec')[
                            (t + extra + n + len(lay)) % 3]
                        cs.append(Case('%s-%s-%d-%d-%d-%s' % (
                            kind, lay, n, t, extra, shape), h, dict(
                                kind=kind, n=n, layout=lay, t=t,
                                extra=extra, shape=shape),
                            cost=4 ** n * (1 + extra)))
    for lay in ('ui', 'rev', 'gap'):
        cs.append(Case('all-' + lay, all_, dict(
            kind='int', n=2 if lay != 'gap' else 1, layout=lay, extra=0),
            cost=50))
        cs.append(Case('all-extra-' + lay, all_, dict(
            kind='int', n=1, layout=lay, extra=1)))
    for kind in ('int', 'str'):
        for lay in ('ui', 'rev', 'u'):
            for n in (1, 2):
                if n == 2 and q and (lay != 'ui' or kind == 'str'):
                    continue
                cs.append(Case('reload-%s-%s-%d' % (kind, lay, n), reload,
                               dict(kind=kind, n=n, layout=lay, extra=0),
                               cost=30))
    cs.append(Case('reload-extra', reload, dict(
        kind='int', n=1, layout='ui', extra=1)))
    return cs
