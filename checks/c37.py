"""C37: data-set converters keep every rating and feature."""
from symex.cases import Case
from symex.harness import StopHarness

BOUNDS = ('every converter of data/, up to 3 ratings (quick: 2) and 2 '
          'objects per file; every digit of ids, scores, time stamps, ages, '
          'zip codes and dates and every letter of titles, names and '
          'addresses symbolic, in enumerated lengths and layouts; every '
          'gender, occupation, age code, month and genre; final line with '
          'and without a line end, CR LF line ends; default and given '
          'target directory; sushi score matrices of 2 x 3.')
NOTE = ('files are kept in memory by a model of open, io.open and '
        'codecs.open that keeps encodings; the sampled replays run the '
        'scripts with real files in a scratch directory. Letters of free '
        'text come from the code page the original files use; the default '
        'encoding of the platform is taken to be UTF-8.')
ASSUMPTIONS = [
    'regular expressions treat all digits alike and all letters alike '
    '(checked on representatives; otherwise inconclusive)']

OCCUPATION = (
    'none other administrator artist doctor educator engineer entertainment '
    'executive healthcare homemaker lawyer librarian marketing programmer '
    'retired salesman scientist student technician writer').split()
MONTH = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
AGE = ('1', '18', '25', '35', '45', '50', '56')
GENRE = ('Action', 'Adventure', 'Animation', "Children's", 'Comedy', 'Crime',
         'Documentary', 'Drama', 'Fantasy', 'Film-Noir', 'Horror', 'Musical',
         'Mystery', 'Romance', 'Sci-Fi', 'Thriller', 'War', 'Western')
FILES = {
    'movielens100k': {'u.data': 'utf-8', 'u.user': 'utf-8',
                      'u.item': 'cp1252'},
    'movielens1m': {'ratings.dat': 'utf-8', 'users.dat': 'utf-8',
                    'movies.dat': 'cp1252'},
    'flixster': {'ratings.txt': 'utf-8'},
    'sushi3': {'sushi3b.5000.10.score': 'utf-8', 'sushi3.udata': 'utf-8',
               'sushi3.idata': 'utf-8'},
    'movielens_mini': {},
}


class Gen(object):
    """pieces of input text"""

    def __init__(self, env):
        self.env = env
        self.no = 0

    def text(self, pattern):
        """9: any digit, 1: a digit that is not zero, @: any letter; the
        rest literally"""
        out = []
        for c in pattern:
            self.no += 1
            n = 'c%03d' % self.no
            if c == '9':
                out.append(self.env.digit(n))
            elif c == '1':
                out.append(self.env.digit(n, 1, 9))
            elif c == '@':
                out.append(self.env.letter(n))
            elif c == '?':                    # a flag
                out.append(self.env.digit(n, 0, 1))
            else:
                out.append(c)
        return self.env.join(*out)


def content(env, lines, end):
    """a file of the lines; end: how lines end"""
    nl = '\r\n' if end == 'crlf' else '\n'
    out = []
    for i, l in enumerate(lines):
        out.append(l)
        if end != 'open' or i + 1 < len(lines):
            out.append(nl)
    return env.join(*out)


def run(env, script, files, given=True, extra=None):
    """the files written"""
    fs = {n: ('', e) for n, e in FILES[script].items()}
    for n, t in files.items():
        fs[n] = (t, FILES[script].get(n, 'utf-8'))
    code, out = env.runs('conversion', env.script, script,
                         ['TARGET'] if given else [], fs)
    env.check(code in (None, 0), 'conversion succeeds', code)
    where = 'target/' if given else 'default/'
    env.check(all(n.startswith(where) for n in out),
              'files written below the target directory', sorted(out))
    return {n.rpartition('/')[2]: t for n, t in out.items()}


def body(env, out, name, n):
    """the fields of the n data lines of a written file"""
    if not env.check(name in out, 'file is written', name):
        raise StopHarness()
    lines = out[name].split('\n')
    env.check(not lines[-1], 'file ends with a line end')
    lines = lines[:-1]
    k = 0
    while k < len(lines) and lines[k].startswith('#'):
        k += 1
    env.check(k > 0, 'comment lines')
    lines = lines[k:]
    if not env.check(len(lines) == n, 'one line per original line',
                     '%d lines for %d' % (len(lines), n)):
        raise StopHarness()
    return [l.split('\t') for l in lines]


def compare(env, got, want):
    """want: (kind, value) per field"""
    if not env.check(len(got) == len(want), 'number of fields',
                     '%d for %d' % (len(got), len(want))):
        raise StopHarness()
    for i, (g, (kind, w)) in enumerate(zip(got, want)):
        lab = 'field %d' % i
        if kind == 'int':
            v = env.outcome(env.text_int, g)
            if env.check(v[0] == 'ok', lab + ' is an integer'):
                env.eq(v[1], w if isinstance(w, int) else env.text_int(w),
                       lab)
        elif kind == 'float':
            v = env.outcome(env.text_float, g)
            if env.check(v[0] == 'ok', lab + ' is a number'):
                env.eq(v[1], env.text_float(w), lab)
        else:
            env.text_eq(g, w, lab)


EVENTS = {           # id, item, score, time stamps of the lines
    'one': ('1', '9', '1', '199999999'),
    'two': ('19', '199', '9', '1999999999'),
    'three': ('199', '1999', '1', '1999'),
}


def h_event(env, script, shapes, end, given=True):
    G = Gen(env)
    rows = []
    for s in shapes:
        f = list(EVENTS[s])
        if script == 'flixster':
            f = f[:2] + ['1.9']
        rows.append([G.text(x) for x in f])
    sep = '::' if script == 'movielens1m' else '\t'
    name = {'movielens100k': 'u.data', 'movielens1m': 'ratings.dat',
            'flixster': 'ratings.txt'}[script]
    t = content(env, [sep.join(r) for r in rows], end)
    out = run(env, script, {name: t}, given)
    got = body(env, out, script + '.event', len(rows))
    for g, r in zip(got, rows):
        compare(env, g, [('float' if i == 2 else 'int', x)
                         for i, x in enumerate(r)])


def h_mini(env, shapes, end, given=True):
    G = Gen(env)
    rows = [[G.text(x) for x in s] for s in shapes]
    lines = ['# a comment', '#', '# user : int'] + ['\t'.join(r) for r in rows]
    src = ('target/' if given else 'default/') + 'movielens100k.event'
    out = run(env, 'movielens_mini', {src: content(env, lines, end)}, given)
    keep = [r for r in rows if env.text_int(r[0]) <= 10 and
            env.text_int(r[1]) <= 10]
    name = 'movielens_mini.event'
    if end == 'open' and keep and keep[-1] is rows[-1] and name in out \
            and not out[name].endswith('\n'):
        out[name] = env.join(out[name], '\n')
    got = body(env, out, name, len(keep))
    for g, r in zip(got, keep):
        compare(env, g, [('int', x) for x in r])


def h_user100k(env, occ, zips, ages, end):
    G = Gen(env)
    rows, want = [], []
    for i, (z, a) in enumerate(zip(zips, ages)):
        g = env.choice('gender%d' % i, ['M', 'F'])
        o = env.choice('occ%d' % i, occ[i])
        f = [G.text('1' * (i + 1)), G.text(a), g, o, G.text(z)]
        rows.append('|'.join(f))
        want.append([('int', f[0]), ('int', f[1]), ('int', 'MF'.index(g)),
                     ('int', OCCUPATION.index(o)), ('text', f[4])])
    out = run(env, 'movielens100k', {'u.user': content(env, rows, end)})
    for g, w in zip(body(env, out, 'movielens100k.user', len(rows)), want):
        compare(env, g, w)


TITLES = ('@', '@@ @', 'The @@: @, @', '@@ (@ 9@)', "@@'@ / @@ - @@!", '9',
          '199 @@', '@@ (1999)')


def h_item100k(env, titles, dates, urls, end):
    G = Gen(env)
    rows, want = [], []
    for i, (t, d, u) in enumerate(zip(titles, dates, urls)):
        if d:
            m = env.choice('month%d' % i, MONTH)
            day, year = G.text(d[0]), G.text(d[1])
            date = env.join(day, '-', m, '-', year)
            wd = [('int', day), ('int', MONTH.index(m) + 1), ('int', year)]
        else:
            date, wd = '', [('int', 0)] * 3
        idn, tt, url = G.text('1' + '9' * i), G.text(t + ' (1999)'), G.text(u)
        fl = [G.text('?') for _ in range(19)]
        video = env.choice('video%d' % i, ['', '01-Jan-1999'])
        rows.append('|'.join([idn, tt, date, video, url] + fl))
        want.append([('int', idn), ('text', tt)] + wd +
                    [('int', x) for x in fl[1:]] + [('text', url)])
    out = run(env, 'movielens100k', {'u.item': content(env, rows, end)})
    for g, w in zip(body(env, out, 'movielens100k.item', len(rows)), want):
        compare(env, g, w)


def h_user1m(env, zips, occs, end):
    G = Gen(env)
    rows, want = [], []
    for i, (z, o) in enumerate(zip(zips, occs)):
        g = env.choice('gender%d' % i, ['M', 'F'])
        a = env.choice('age%d' % i, AGE if i == 0 else AGE[2:4])
        f = [G.text('1' + '9' * i), g, a, G.text(o), G.text(z)]
        rows.append('::'.join(f))
        want.append([('int', f[0]), ('int', 'MF'.index(g)),
                     ('int', AGE.index(a)), ('int', f[3]),
                     ('text', f[4][0:5])])
    out = run(env, 'movielens1m', {'users.dat': content(env, rows, end)})
    for g, w in zip(body(env, out, 'movielens1m.user', len(rows)), want):
        compare(env, g, w)


def h_item1m(env, titles, genres, end):
    G = Gen(env)
    rows, want = [], []
    for i, (t, gs) in enumerate(zip(titles, genres)):
        gs = env.choice('genres%d' % i, gs)
        idn, year = G.text('1' + '9' * i), G.text('1999')
        tt = env.join(G.text(t), ' (', year, ')')
        rows.append('::'.join([idn, tt, '|'.join(gs)]))
        want.append([('int', idn), ('text', tt), ('int', year)] +
                    [('int', 1 if x in gs else 0) for x in GENRE])
    out = run(env, 'movielens1m', {'movies.dat': content(env, rows, end)})
    for g, w in zip(body(env, out, 'movielens1m.item', len(rows)), want):
        compare(env, g, w)


def h_3845(env, other):
    """the character reference of film 3845, and of other films"""
    G = Gen(env)
    idn = '3845'
    if other:
        idn = G.text('1999')
        env.assume(env.text_int(idn) != 3845)
    a, b, year = G.text('@@ '), G.text('@@'), G.text('1999')
    row = '::'.join([idn, env.join(a, '&#8230;', b, ' (', year, ')'),
                     'Drama'])
    out = run(env, 'movielens1m',
              {'movies.dat': content(env, [row], 'nl')})
    g = body(env, out, 'movielens1m.item', 1)[0]
    compare(env, g[:3], [('int', idn),
                         ('text', env.join(a, '&#8230;' if other else
                                           u'\u2026', b, ' (', year, ')')),
                         ('int', year)])


def h_sushi_event(env, shape, end, given=True):
    G = Gen(env)
    rows, want = [], []
    for u in range(shape[0]):
        r = []
        for i in range(shape[1]):
            if env.choice('rated%d_%d' % (u, i), [True, False]):
                s = G.text('9')
                want.append([('int', u), ('int', i), ('int', s)])
            else:
                s = '-1'
            r.append(s)
        rows.append(' '.join(r))
    out = run(env, 'sushi3', {'sushi3b.5000.10.score':
                              content(env, rows, end)}, given)
    got = body(env, out, 'sushi3b_score.event', len(want))
    for g, w in zip(got, want):
        compare(env, g, w)


def h_sushi_user(env, n, end):
    G = Gen(env)
    rows = [[G.text('9' if i == 1 else '1' + '9' * ((i + u) % 3))
             for i in range(11)] for u in range(n)]
    out = run(env, 'sushi3', {'sushi3.udata': content(
        env, ['\t'.join(r) for r in rows], end)})
    got = body(env, out, 'sushi3.user', n)
    for u, (g, r) in enumerate(zip(got, rows)):
        compare(env, g, [('int', u)] + [('int', x) for x in r])


def h_sushi_item(env, names, end):
    G = Gen(env)
    rows = [[G.text('1' * (i + 1)), G.text(s), G.text('?'), G.text('?'),
             G.text('9'), G.text('9.999'), G.text('9.9'), G.text('1.99'),
             G.text('0.999')] for i, s in enumerate(names)]
    out = run(env, 'sushi3', {'sushi3.idata': content(
        env, ['\t'.join(r) for r in rows], end)})
    got = body(env, out, 'sushi3.item', len(rows))
    for g, r in zip(got, rows):
        compare(env, g, [('text' if i == 1 else 'float' if i > 4 else 'int',
                          x) for i, x in enumerate(r)])


def h_help(env, script):
    opt = env.choice('option', ['-h', '--help'])
    fs = {n: ('', e) for n, e in FILES[script].items()}
    code, out = env.runs('help', env.script, script, [opt], fs)
    env.check(code == 0, 'help exits with 0', code)
    env.check(not out, 'help writes nothing', sorted(out))


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, fn, **kw):
        out.append(Case(name, fn, kw, timeout=20))

    shapes = [(), ('one',), ('two', 'one'), ('three', 'two')]
    if deep:
        shapes += [('one', 'two', 'three'), ('three', 'three', 'three'),
                   ('three', 'one'), ('two', 'three', 'one', 'two')]
    for s in ('movielens100k', 'movielens1m', 'flixster'):
        for sh in shapes:
            for end in ('nl', 'open', 'crlf'):
                if end != 'nl' and len(sh) != 2 and not deep:
                    continue
                add('event-%s-%s-%s' % (s, '-'.join(sh), end), h_event,
                    script=s, shapes=sh, end=end)
        add('event-%s-default-target' % s, h_event, script=s,
            shapes=('two',), end='nl', given=False)
    small = ['1', '9', '1', '199999999']
    two = ['19', '19', '1', '1999']
    mix = [['9', '19', '9', '19'], ['19', '1', '9', '1999999']]
    big = [['199', '9', '1', '19'], ['1', '1999', '9', '19']]
    minis = {'small': [small], 'two': [two, two], 'mix': mix, 'big': big,
             'none': []}
    if deep:
        minis.update(more=mix + [small], all=mix + big, three=[two] * 3)
    for k, v in minis.items():
        for end in ('nl', 'open', 'crlf'):
            add('mini-%s-%s' % (k, end), h_mini, shapes=v, end=end)
    add('mini-default-target', h_mini, shapes=[two], end='nl', given=False)

    zips = ['99999', '@9@9@']
    ages = ['19', '1']
    some = [OCCUPATION[3], OCCUPATION[18]]
    for end in ('nl', 'open', 'crlf'):
        add('user100k-' + end, h_user100k, occ=[some, some], zips=zips,
            ages=ages, end=end)
    add('user100k-occupations', h_user100k, occ=[OCCUPATION],
        zips=zips[:1], ages=ages[:1], end='nl')
    if deep:
        add('user100k-occupations2', h_user100k, occ=[OCCUPATION] * 2,
            zips=zips, ages=ages, end='nl')
    date = ('99', '1999')
    url = 'http://us.imdb.com/M/title-exact?@@%20(1999)'
    for i, t in enumerate(TITLES):
        add('item100k-title%d' % i, h_item100k, titles=[t], dates=[None],
            urls=[url], end='nl')
    add('item100k-date', h_item100k, titles=['@'], dates=[date],
        urls=[''], end='nl')
    for end in ('nl', 'open', 'crlf'):
        add('item100k-two-' + end, h_item100k, titles=['@@', '@: @'],
            dates=[None, date] if end == 'nl' else [None, None],
            urls=['', url], end=end)
    if deep:
        add('item100k-dates', h_item100k, titles=['@@', '@: @'],
            dates=[date, date], urls=[url, ''], end='nl')

    occs = ['1', '19']
    z1 = ['99999', '99999-9999']
    for end in ('nl', 'open', 'crlf'):
        add('user1m-' + end, h_user1m, zips=z1, occs=occs, end=end)
    add('user1m-long-zip', h_user1m, zips=['999999999'], occs=['1'],
        end='nl')
    one = [(g,) for g in GENRE]
    add('item1m-genre', h_item1m, titles=['@@'], genres=[one], end='nl')
    pairs = [(a, b) for a in GENRE for b in GENRE if a < b]
    add('item1m-genres', h_item1m, titles=['@'], genres=[
        (pairs if deep else pairs[::5]) + [GENRE, GENRE[3:9]]], end='nl')
    for i, t in enumerate(TITLES):
        add('item1m-title%d' % i, h_item1m, titles=[t], genres=[one[4:5]],
            end='nl')
    for end in ('nl', 'open', 'crlf'):
        add('item1m-two-' + end, h_item1m, titles=['@@', '@ (1999) @'],
            genres=[one[:2], pairs[:2]], end=end)
    for other in (False, True):
        add('item1m-3845-%s' % other, h_3845, other=other)

    add('sushi-event', h_sushi_event, shape=(2, 3), end='nl')
    add('sushi-event-open', h_sushi_event, shape=(2, 2), end='open')
    add('sushi-event-crlf', h_sushi_event, shape=(2, 2), end='crlf')
    add('sushi-event-default', h_sushi_event, shape=(1, 2), end='nl',
        given=False)
    if deep:
        add('sushi-event-wide', h_sushi_event, shape=(2, 5), end='nl')
        add('sushi-event-tall', h_sushi_event, shape=(4, 2), end='nl')
    for end in ('nl', 'open', 'crlf'):
        add('sushi-user-' + end, h_sushi_user, n=2, end=end)
        add('sushi-item-' + end, h_sushi_item, names=['@@@', '@ @-@'],
            end=end)
    for s in FILES:
        add('help-' + s, h_help, script=s)
    return out
