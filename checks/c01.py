"""C01: internal ids are a bijection and events round-trip."""
from symex.cases import Case

BOUNDS = ('up to 3 events (thorough: 4) of 2 or 3 ids, integer ids in '
          '[-50, 1000] or strings of a total order, five column/type '
          'layouts, at most 3 object types; one reload; 300 (thorough: 700) '
          'events of as many users, one id symbolic.')
LAYOUTS = {
    'ui': (2, None),             # the default: column e has type e
    'rev': (2, (1, 0)),
    'u': (1, None),               # events of a single id
    'uu': (1, (0, 0)),           # one type in both columns
    'uiu': (2, (0, 1, 0)),
    'gap': (3, (2, 0)),          # a type no column refers to
}


def make(env, kind, n, layout, cls='EventData', name='e', dt=None):
    """an event array of n rows with symbolic ids, and a container class"""
    n_otypes, ot = LAYOUTS[layout]
    s = n_otypes if ot is None else len(ot)
    rows = [env.ids('%s%d_' % (name, i), s, kind) for i in range(n)]
    D = env.load('kamrecsys.data')
    data = getattr(D, cls)(n_otypes=n_otypes, event_otypes=ot)
    return data, env.np.array(rows), rows, n_otypes, list(
        range(s) if ot is None else ot)


def bijection(env, data, rows, n_otypes, ots):
    """ids of every type against the columns the caller gave"""
    np = env.np
    for t in range(n_otypes):
        ext = []
        for r in rows:
            for e, o in enumerate(ots):
                if o == t:
                    ext.append(r[e])
        n = int(data.n_objects[t])
        env.check(n == len(data.eid[t]), 'n_objects is the number of eids')
        env.check(n == len(data.iid[t]), 'n_objects is the number of iids')
        # every id the caller gave is there
        for x in ext:
            i = env.runs('known id', data.to_iid, t, x)
            env.check(env.And(i >= 0, i < n), 'iid in 0..n-1')
            env.eq(data.to_eid(t, i), x, 'eid of iid')
        # nothing else, and no id twice
        for i in range(n):
            e = data.to_eid(t, i)
            env.check(env.Or(False, *[e == x for x in ext]),
                      'no eid out of nowhere')
            env.eq(data.to_iid(t, e), i, 'iid of eid')


def h(env, kind, n, layout, cls):
    np = env.np
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout, cls)
    keep = ev.copy()
    if cls == 'EventData':
        env.runs('set_event', data.set_event, ev)
    else:
        env.runs('set_event', data.set_event, ev, np.arange(n) + 1,
                 (1, max(2, n), 1))
    bijection(env, data, rows, n_otypes, ots)
    env.check(data.n_events == n, 'n_events')
    env.eq(list(data.event.shape), [n, len(ots)], 'shape of event')
    for i in range(n):
        for e, t in enumerate(ots):
            env.eq(data.event[i, e], data.to_iid(t, rows[i][e]),
                   'event is made of internal ids')
    env.eq(data.to_eid_event(data.event), keep, 'all events round-trip')
    for i in range(n):
        env.eq(data.to_eid_event(data.event[i]), keep[i],
               'single event round-trips')
        env.eq(data.to_iid_event(keep[i]), data.event[i],
               'single event to internal')
    env.eq(data.to_iid_event(keep), data.event, 'events to internal')
    env.eq(ev, keep, 'argument unchanged')


def reload_(env, kind, n, m, layout):
    """a second set_event replaces the first completely"""
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout)
    data.set_event(ev)
    rows2 = [env.ids('f%d_' % i, len(ots), kind) for i in range(m)]
    ev2 = env.np.array(rows2)
    env.runs('second set_event', data.set_event, ev2)
    bijection(env, data, rows2, n_otypes, ots)
    env.check(data.n_events == m, 'n_events after reloading')
    env.eq(data.to_eid_event(data.event), ev2, 'round-trip after reloading')


def many(env, n, kind):
    """more objects than small integer types or ten digits hold"""
    np = env.np
    D = env.load('kamrecsys.data')
    rows = [[(i * 37) % n * 3 - 50, 1000 + (i * i) % 11] for i in range(n)]
    if kind == 'str':
        rows = [['u%d' % u, 'i%d' % v] for u, v in rows]
    else:
        rows[n // 2][0] = env.int('last', 2000, 9999)
    data = D.EventData()
    ev = np.array(rows)
    env.runs('set_event', data.set_event, ev)
    for t in range(2):
        env.eq(int(data.n_objects[t]), n if t == 0 else len(set(
            r[1] for r in rows)), 'number of objects')
        for j, x in enumerate(data.eid[t]):
            env.eq(data.to_iid(t, x), j, 'iid of eid')
            env.eq(data.to_eid(t, j), x, 'eid of iid')
    env.eq(data.to_eid_event(data.event), ev, 'all events round-trip')
    env.eq(data.to_iid_event(ev), data.event, 'events to internal')
    for i in (0, n // 2, n - 1):
        env.eq(data.to_eid_event(data.event[i]), ev[i], 'single event')
    # a filtered container holds the same ones
    sub = env.runs('filter', data.filter_event,
                   np.arange(n) % 300 != 7)
    keep = [i for i in range(n) if i % 300 != 7]
    env.eq(sub.to_eid_event(sub.event), ev[keep], 'filtered events')
    env.eq(int(sub.n_objects[0]), len(keep), 'filtered objects')


def lists(env, kind, n, layout):
    """events given as plain rows are the same events"""
    data, ev, rows, n_otypes, ots = make(env, kind, n, layout)
    keep = [list(r) for r in rows]
    env.runs('set_event of rows', data.set_event, rows)
    bijection(env, data, keep, n_otypes, ots)
    env.check(data.n_events == n, 'n_events')
    env.eq(data.to_eid_event(data.event), ev, 'all events round-trip')
    env.eq(env.runs('rows to internal', data.to_iid_event, rows),
           data.event, 'rows to internal')
    for i in range(n):
        env.eq(env.runs('row to internal', data.to_iid_event, rows[i]),
               data.event[i], 'single row to internal')
        one = [int(x) for x in data.event[i]]
        env.eq(env.runs('row to external', data.to_eid_event, one), ev[i],
               'single row to external')
    env.eq(env.runs('rows to external', data.to_eid_event,
                    [[int(x) for x in r] for r in data.event]), ev,
           'rows to external')
    env.eq(rows, keep, 'argument unchanged')


def cases(tier):
    q = tier == 'quick'
    cs = []
    for kind in ('int', 'str'):
        for lay in LAYOUTS:
            ns = (1, 2, 3) if lay in ('ui', 'rev', 'gap') else (1, 2)
            if not q:
                ns = (1, 2, 3, 4) if lay in ('ui', 'rev', 'gap') else (
                    1, 2, 3)
            for n in ns:
                if kind == 'str' and n == max(ns) and q:
                    continue
                for cls in ('EventData', 'EventWithScoreData'):
                    if cls != 'EventData' and (n != 2 or lay == 'uu'):
                        continue
                    cs.append(Case('%s-%s-%d-%s' % (kind, lay, n, cls), h,
                                   dict(kind=kind, n=n, layout=lay, cls=cls),
                                   cost=n * len(lay)))
    cs.append(Case('reload-int', reload_, dict(kind='int', n=2, m=2,
                                               layout='ui')))
    cs.append(Case('reload-str', reload_, dict(kind='str', n=2, m=1,
                                               layout='rev')))
    for kind in ('int', 'str'):
        cs.append(Case('many-' + kind, many, dict(
            kind=kind, n=300 if q else 700), cost=30))
    for kind, lay in (('int', 'ui'), ('str', 'uiu'), ('int', 'u')):
        cs.append(Case('lists-%s-%s' % (kind, lay), lists,
                       dict(kind=kind, n=2, layout=lay)))
    return cs
