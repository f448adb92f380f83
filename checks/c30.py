"""C30: sample-set loaders attach the documented domain and features."""
from symex.cases import Case
from .c01 import bijection
from .files import Files

BOUNDS = ('six loaders; event files of 1 or 2 lines (thorough: 3) with '
          'symbolic ids and scores, read by name and from the sample '
          'directory; object files with one row per object and up to two '
          'further rows in every order the ids allow; symbolic numeric '
          'fields and strings of every documented length up to the maximum, '
          'with non-ASCII names.')
ASSUMPTIONS = ('np.genfromtxt assigns the fields of a line to the columns of '
               'the data type in order (in replays it is the real one '
               'reading real files); every object of an event has a row.')

GENRES = [('genre', 'b18')]
ML100K = ([('age', 'i'), ('gender', 'b'), ('occupation', 'i'),
           ('zip', 's5')],
          [('name', 's81'), ('day', 'i'), ('month', 'i'), ('year', 'i')] +
          GENRES + [('imdb', 's134')])
SETS = {
    # loader, default event file, domain, levels, user file and fields,
    # item file and fields
    'ml100k': ('load_movielens100k', 'movielens100k.event', (1, 5, 1), 5,
               'movielens100k.user', ML100K[0], 'movielens100k.item',
               ML100K[1]),
    'mini': ('load_movielens_mini', 'movielens_mini.event', (1, 5, 1), 5,
             'movielens100k.user', ML100K[0], 'movielens100k.item',
             ML100K[1]),
    'ml1m': ('load_movielens1m', 'movielens1m.event', (1, 5, 1), 5,
             'movielens1m.user', [('gender', 'b'), ('age', 'i'),
                                  ('occupation', 'i'), ('zip', 's5')],
             'movielens1m.item', [('name', 's82'), ('year', 'i')] + GENRES),
    'sushi': ('load_sushi3b_score', 'sushi3b_score.event', (0, 4, 1), 5,
              'sushi3.user',
              [(n, 'i') for n in (
                  'original_uid', 'gender', 'age', 'answer_time',
                  'child_prefecture', 'child_region', 'child_ew',
                  'current_prefecture', 'current_region', 'current_ew',
                  'moved')],
              'sushi3.item',
              [('name', 's20'), ('maki', 'b'), ('seafood', 'b'),
               ('genre', 'i'), ('heaviness', 'f'), ('frequency', 'f'),
               ('price', 'f'), ('supply', 'f')]),
    'flixster': ('load_flixster_rating', 'flixster.event', (0.5, 5, 0.5),
                 10, None, None, None, None),
    'pci': ('load_pci_sample', 'pci.event', (1, 5, 0.5), 9, None, None,
            None, None),
}
# the largest values of fields that are not arbitrary numbers
TOP = {'day': 31, 'month': 12, 'year': 9999, 'age': 120, 'gender': 1}
TIMED = ('ml100k', 'mini', 'ml1m')


def string(n, tag, row):
    """a string of n characters that differs between rows and fields"""
    s = '%d %s-\u00e9\u3042' % (row, tag)
    if n <= 5:
        return ('%05d' % (row * 7 + len(tag)))[-n:]
    return (s + 'abcdefghijklmnopqrstuvwxyz' * 6)[:n]


def fields(env, spec, row, tag):
    """the fields of one line, and the values by field name"""
    line, val = [], {}
    for name, t in spec:
        q = '%s%d_%s' % (tag, row, name)
        if t[0] == 's':
            n = int(t[1:])
            v = string(n if row % 2 == 0 else min(n, max(5, n // 2)), name,
                       row)
            if name == 'imdb' and row == 1:
                v = ''
            line.append(v)
        elif t == 'i':
            v = env.int(q, 0, TOP.get(name, 10 ** 6))
            line.append(v)
        elif t == 'f':
            v = env.real(q, 0, 5)
            line.append(v)
        elif t == 'b':
            v = env.int(q, 0, 1)
            line.append(v)
        else:
            v = [env.int('%s%d' % (q, j), 0, 1) for j in range(int(t[1:]))]
            line.extend(v)
        val[name] = v
    return line, val


def object_file(env, fs, name, spec, ids, extra, tag):
    """one row for every distinct id and extra rows, in file order"""
    np = env.np
    known = []
    for x in ids:
        if not any(bool(x == y) for y in known):
            known.append(x)
    for j in range(extra):
        x = env.int('%sx%d' % (tag, j), 0, 10 ** 6)
        env.assume(env.And(*[x != y for y in known]))
        known.append(x)
    order = list(reversed(known)) if extra != 1 else known[-1:] + known[:-1]
    rows, vals = [], []
    for r, x in enumerate(order):
        line, val = fields(env, spec, r, tag)
        rows.append([x] + line)
        vals.append((x, val))
    fs.add(name, rows)
    return vals


def features(env, data, t, spec, vals):
    f = data.feature[t]
    env.check(f is not None, 'features of type %d' % t)
    env.check([n for n in f.dtype.names] == [n for n, k in spec],
              'names and order of the fields')
    env.check(len(f) == int(data.n_objects[t]), 'one row per object')
    for i in range(int(data.n_objects[t])):
        eid = data.to_eid(t, i)
        for x, val in vals:
            if bool(eid == x):
                break
        else:
            env.fail('an object without a row')
            continue
        for name, k in spec:
            if k[0] == 's':
                env.check(str(f[name][i]) == val[name], 'feature ' + name)
            elif isinstance(val[name], list):
                for j, v in enumerate(val[name]):
                    env.eq(f[name][i, j], v, 'feature ' + name)
            else:
                env.eq(f[name][i], val[name], 'feature ' + name)


def h_set(env, which, n, how, extra, dtype='default', ids=None):
    fs = Files(env)
    try:
        run(env, fs, which, n, how, extra, dtype, ids)
    finally:
        fs.close()


def run(env, fs, which, n, how, extra, dtype, ids=None):
    np = env.np
    ds = env.load('kamrecsys.datasets')
    name, default, dom, lev, uf, us, itf, its = SETS[which]
    kind = 'str' if which == 'pci' else 'int'
    rows = [env.ids('e%d_' % i, 2, kind, *(
        () if kind == 'str' else (0, 10 ** 6))) for i in range(n)]
    if ids:
        rows = [list(r) for r in ids]
    scores = [env.real('r%d' % i, dom[0], dom[1]) for i in range(n)]
    timed = which in TIMED if dtype == 'default' else dtype == 'time'
    stamps = [env.int('t%d' % i, 0, 2 * 10 ** 9) for i in range(n)]
    lines = [rows[i] + [scores[i]] + ([stamps[i]] if timed else [])
             for i in range(n)]
    path = fs.add(default if how == 'default' else 'mine.event', lines)
    uv = iv = None
    if uf is not None:
        uv = object_file(env, fs, uf, us, [r[0] for r in rows], extra, 'u')
        iv = object_file(env, fs, itf, its, [r[1] for r in rows],
                         extra, 'i')
    kw = {}
    if how != 'default':
        kw['infile'] = fs.open('mine.event') if how == 'file' else path
    if dtype == 'time':
        kw['event_dtype'] = np.dtype([('when', int)])
    elif dtype == 'none':
        kw['event_dtype'] = None
    data = env.runs('load', getattr(ds, name), **kw)
    env.check(isinstance(data, env.load('kamrecsys.data').EventWithScoreData),
              'kind of container')
    env.check(int(data.n_events) == n, 'number of events')
    bijection(env, data, rows, 2, [0, 1])
    ext = data.to_eid_event(data.event)
    for i in range(n):
        for e in range(2):
            env.eq(ext[i, e], rows[i][e], 'ids of an event')
        env.eq(data.score[i], scores[i], 'score of an event')
    env.check(len(data.score) == n, 'number of scores')
    env.eq([data.score_domain[j] for j in range(3)],
           [float(x) for x in dom], 'score domain')
    env.check(int(data.n_score_levels) == lev, 'number of score levels')
    if timed:
        ef = data.event_feature
        env.check(list(ef.dtype.names) == [
            'when' if dtype == 'time' else 'timestamp'],
            'name of the event feature')
        for i in range(n):
            env.eq(ef[ef.dtype.names[0]][i], stamps[i], 'event feature')
    else:
        env.check(data.event_feature is None, 'no event feature')
    if uf is not None:
        features(env, data, 0, us, uv)
        features(env, data, 1, its, iv)


# user and item names as long as the documented ones, and nearly equal
LONG = [('You, Me and Dupree', 'abcdefghijklmnopqr'),
        ('You, Me and Dupre', 'abcdefghijklmnopqs'),
        ('Toby', 'abcdefghijklmnopqs')]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for which in sorted(SETS):
        obj = SETS[which][4] is not None
        for n in (1, 2, 3) if deep else (1, 2):
            for extra in (0, 1, 2) if obj else (0,):
                if n == 2 and extra == 0 and obj or n == 3 and extra > 1:
                    continue
                out.append(Case('%s-n%d-x%d' % (which, n, extra), h_set,
                                dict(which=which, n=n, how='default',
                                     extra=extra), cost=5 ** n * (1 + extra)))
        if which == 'pci':
            for how in ('default', 'path', 'file'):
                out.append(Case('pci-long-' + how, h_set, dict(
                    which=which, n=3, how=how, extra=0, ids=LONG)))
        if which == 'mini':
            continue
        for how in ('path', 'file'):
            out.append(Case('%s-%s' % (which, how), h_set, dict(
                which=which, n=1, how=how, extra=1 if obj else 0)))
        if which != 'pci':
            for dt in ('time', 'none'):
                out.append(Case('%s-dtype-%s' % (which, dt), h_set, dict(
                    which=which, n=1, how='path', extra=0, dtype=dt)))
    return out
