"""C38: the environment report describes the machine and the packages."""
from symex.cases import Case

BOUNDS = ('every system name of 0, 5, 6 or 7 letters (thorough: also 1, 4, 8), '
          'which includes Linux, Darwin and FreeBSD; two arbitrary letters '
          'in every other answer of the platform functions and every package '
          'version; hardware listings of 0 to 3 entries (thorough: 5) with '
          'arbitrary letters and digits; the host name asked for or not, in '
          'every order of up to 3 calls.')
ASSUMPTIONS = ('the platform functions, the programs listing the hardware '
               'and the package versions are stand-ins that answer arbitrary '
               'texts; the listings have the layout of the real ones.')

KEYS = ('system', 'release', 'version', 'machine', 'processor')
NAMED = ('Linux', 'Darwin', 'FreeBSD')
HOST = 'xhost-'


def word(env, name):
    return env.join(env.letter(name + 'a'), '-', env.letter(name + 'b'))


def values(env, system):
    v = {k: word(env, k) for k in KEYS if k != 'system'}
    v.update({k: word(env, k) for k in (
        'python_compiler', 'python_implementation', 'python_version')})
    v['system'] = system
    v['node'] = env.join(HOST, word(env, 'node'))
    return v


def versions(env):
    return {k: word(env, k) for k in ('numpy', 'scipy', 'sklearn')}


def listing(env, system, n):
    """(what the program prints, the entries it lists)"""
    es = [env.join('key', env.letter('k%d' % i), ': ',
                   env.digit('d%d' % i), ' ', env.letter('v%d' % i))
          for i in range(n)]
    if system == 'Darwin':
        ls = ['Hardware:', '', '    Hardware Overview:', '']
        ls += [env.join('      ', e) for e in es] + ['', '']
    elif system == 'Linux':
        es = [e.replace(': ', '\t: ') for e in es]
        ls = list(es) + ['', '']
    else:
        ls = list(es) + ['']
    return env.join(*[x for e in ls for x in (e, '\n')][:-1]), es


def h_system(env, size, n, calls):
    system = env.join(*[env.letter('sys%d' % i) for i in range(size)])
    v = values(env, system)
    lay = [s for s in NAMED if system == s] + [None]
    out, es = listing(env, lay[0], n)
    if lay[0] is None:
        es = []

    def report(mod):
        res = []
        for c in calls:
            arg = {None: (), True: (True,), False: (False,)}[c]
            r = env.runs('get_system_info', mod.get_system_info, *arg)
            res.append(dict(r, hardware=list(r['hardware'])))
            # a caller may do with its report what it wants
            r['hardware'].append('more')
            r['node'] = 'other'
        return res
    for c, r in zip(calls, env.on_machine(v, out, versions(env), report)):
        for k in KEYS:
            env.check(k in r, 'the report has the ' + k)
            env.text_eq(r[k], v[k], k)
        if c:
            env.check('node' in r, 'the report has the host name')
            env.text_eq(r['node'], v['node'], 'host name')
        else:
            env.check('node' not in r, 'no host name unless asked for')
            env.check(not any(HOST in t for t in texts(r)),
                      'the host name is not told elsewhere')
        got = r['hardware']
        env.check(all(isinstance(t, str) for t in got),
                  'the hardware entries are texts')
        # empty lines carry no information
        got = [t for t in got if len(t)]
        env.check(len(got) == len(es), 'number of hardware entries',
                  '%d for %d' % (len(got), len(es)))
        for i, (a, b) in enumerate(zip(got, es)):
            env.text_eq(a, b, 'hardware entry')


def texts(x):
    if isinstance(x, dict):
        for k, t in x.items():
            yield k
            for s in texts(t):
                yield s
    elif isinstance(x, (list, tuple)):
        for t in x:
            for s in texts(t):
                yield s
    elif isinstance(x, str):
        yield x


def h_version(env, calls):
    v = values(env, 'Linux')
    w = versions(env)

    def report(mod):
        res = []
        for _ in range(calls):
            r = env.runs('get_version_info', mod.get_version_info)
            res.append(dict(r))
            r.clear()
        return res
    for r in env.on_machine(v, '', w, report):
        for k, t in (('sklearn', w['sklearn']), ('numpy', w['numpy']),
                     ('scipy', w['scipy']),
                     ('python', v['python_version']),
                     ('python_compiler', v['python_compiler']),
                     ('python_implementation',
                      v['python_implementation'])):
            env.check(k in r, 'the report has ' + k)
            env.text_eq(r[k], t, k)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for s in (0, 5, 6, 7) + ((1, 4, 8) if deep else ()):
        for n in range(6 if deep else 4):
            if n and s not in (5, 6, 7):
                continue
            for calls in ((None,), (True,), (False,)):
                out.append(Case('system-%d-%d-%s' % (s, n, calls[0]),
                                h_system, dict(size=s, n=n, calls=calls)))
        for calls in ((True, None), (True, False), (None, True),
                      (True, None, True)):
            out.append(Case('again-%d-%s' % (s, '-'.join(map(str, calls))),
                            h_system, dict(size=s, n=1, calls=calls)))
    for calls in (1, 2):
        out.append(Case('version-%d' % calls, h_version, dict(calls=calls)))
    return out
