"""C29: event files load column by column without mixing."""
from symex.cases import Case
from .c01 import LAYOUTS, bijection
from .files import Files

BOUNDS = ('1 to 3 lines (thorough: 4), seven layouts of object types, four '
          'data types of event features or none, every score and feature '
          'value and every equality pattern of the ids; files given by name '
          'or as open files; five score domains.')
ASSUMPTIONS = ('np.genfromtxt assigns the fields of a line to the columns of '
               'the data type in order (in replays it is the real one '
               'reading real files).')

TYPES = {
    'time': lambda np: np.dtype([('timestamp', int)]),
    'mixed': lambda np: np.dtype([('w', float), ('n', int), ('s', 'U6')]),
    'array': lambda np: np.dtype([('tag', int, 2), ('x', float)]),
    'plain': lambda np: np.dtype(float),
}
FIELDS = {'time': 'i', 'mixed': 'fis', 'array': 'iif', 'plain': 'f'}
DOMAINS = [(1, 5, 1), (0.5, 5.0, 0.5), (0, 4, 1), (0, 1, 1), (-10, 10, 0.25)]
LEVELS = [5, 10, 5, 2, 81]


def field(env, t, name):
    if t == 'i':
        return env.int(name, -10 ** 9, 2 * 10 ** 9)
    if t == 'f':
        return env.real(name, -100, 100)
    return 'k%05d' % (10 * len(name) + ord(name[-1]))


def stored(env, np, feats, data, kind, n):
    """the event features of the container are those of the lines"""
    if kind is None:
        env.check(data.event_feature is None, 'no event features')
        return
    ef = data.event_feature
    env.check(len(ef) == n, 'number of event features')
    for i in range(n):
        f = feats[i]
        if kind == 'time':
            got = [ef['timestamp'][i]]
        elif kind == 'mixed':
            got = [ef['w'][i], ef['n'][i], ef['s'][i]]
        elif kind == 'array':
            got = [ef['tag'][i, 0], ef['tag'][i, 1], ef['x'][i]]
        else:
            got = [ef[i]]
        env.check(len(got) == len(f), 'event feature fields')
        for a, b in zip(got, f):
            if isinstance(b, str):
                env.check(str(a) == b, 'event feature')
            else:
                env.eq(a, b, 'event feature')


def h_load(env, layout, n, kind, score, how, domain=None, otypes='tuple'):
    np = env.np
    fs = Files(env)
    try:
        load(env, np, fs, layout, n, kind, score, how, domain, otypes)
    finally:
        fs.close()


def load(env, np, fs, layout, n, kind, score, how, domain, otypes):
    n_otypes, ot = LAYOUTS[layout]
    s = n_otypes if ot is None else len(ot)
    rows = [env.ids('e%d_' % i, s, 'int', -99, 10 ** 6) for i in range(n)]
    scores = [env.real('r%d' % i, -10, 10) for i in range(n)]
    feats = [[field(env, t, 'f%d_%d' % (i, j)) for j, t in enumerate(
        FIELDS[kind] if kind else '')] for i in range(n)]
    path = fs.add('some.event', [
        rows[i] + ([scores[i]] if score else []) + feats[i]
        for i in range(n)])
    ds = env.load('kamrecsys.datasets')
    f = ds.load_event_with_score if score else ds.load_event
    kw = {}
    if (n_otypes, ot) != (2, None):
        kw['n_otypes'] = n_otypes
    if ot is not None:
        kw['event_otypes'] = np.array(ot) if otypes == 'array' else ot
    if kind is not None:
        kw['event_dtype'] = TYPES[kind](np)
    lev = 5
    if domain is not None:
        d = int(env.int('domain', 0, len(DOMAINS) - 1))
        kw['score_domain'], lev = DOMAINS[d], LEVELS[d]
    data = env.runs('load', f, fs.open('some.event') if how == 'file' else
                    path, **kw)
    D = env.load('kamrecsys.data')
    env.check(isinstance(data, D.EventWithScoreData if score else
                         D.EventData), 'kind of container')
    env.check(int(data.n_events) == n, 'number of events')
    env.check(int(data.n_otypes) == n_otypes, 'number of types')
    env.check(int(data.s_event) == s, 'ids per event')
    ots = list(range(s) if ot is None else ot)
    env.check([int(t) for t in data.event_otypes] == ots, 'types of columns')
    bijection(env, data, rows, n_otypes, ots)
    env.eq(list(data.event.shape), [n, s], 'shape of event')
    ext = data.to_eid_event(data.event)
    for i in range(n):
        for e in range(s):
            env.eq(ext[i, e], rows[i][e], 'ids of an event')
    stored(env, np, feats, data, kind, n)
    if score:
        env.check(len(data.score) == n, 'number of scores')
        for i in range(n):
            env.eq(data.score[i], scores[i], 'score of an event')
        env.eq([data.score_domain[j] for j in range(3)],
               [float(x) for x in kw.get('score_domain', (1, 5, 1))],
               'score domain')
        env.check(int(data.n_score_levels) == lev, 'number of levels')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for lay in LAYOUTS:
        cols = len(LAYOUTS[lay][1] or range(LAYOUTS[lay][0]))
        for score in (True, False):
            for kind in (None,) + tuple(sorted(TYPES)):
                for n in range(1, 5 if deep else 4):
                    if not deep and n == 3 and (
                            lay not in ('ui', 'u') or kind == 'plain'):
                        continue
                    if not deep and n == 2 and cols > 2 and (
                            kind in ('plain', 'array', 'time')):
                        continue
                    if n == 4 and (cols > 2 or kind not in (None, 'mixed')):
                        continue
                    out.append(Case(
                        '%s-%s-%s-n%d' % (lay, 'score' if score else 'event',
                                          kind, n), h_load,
                        dict(layout=lay, n=n, kind=kind, score=score,
                             how='path'), cost=4 ** n * cols ** 2))
    for score in (True, False):
        for n in (1, 2):
            out.append(Case('file-%s-n%d' % (score, n), h_load, dict(
                layout='ui', n=n, kind='time', score=score, how='file')))
            out.append(Case('otypes-%s-n%d' % (score, n), h_load, dict(
                layout='rev', n=n, kind='time', score=score, how='path',
                otypes='array')))
    for n in (1, 2):
        out.append(Case('domain-n%d' % n, h_load, dict(
            layout='ui', n=n, kind=None, score=True, how='path',
            domain=True)))
    return out
