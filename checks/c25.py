"""C25: making results JSON-ready keeps structure and values."""
from symex.cases import Case

BOUNDS = ('dictionaries, lists and tuples nested up to three deep with one to '
          'four leaves; leaves: plain and numpy integers (8 to 64 bit, '
          'signed and unsigned), reals (16 to 64 bit) and booleans of any value, strings, arrays of one '
          'or two dimensions (integer, real, boolean, empty) and sparse '
          'matrices in three formats; all kinds at every place, in turn.')

NPINT = {'npint': 'int64', 'npint32': 'int32', 'npint8': 'int8',
         'npuint8': 'uint8', 'npuint16': 'uint16', 'npuint64': 'uint64'}
LEAVES = ('int', 'float', 'bool', 'str', 'npint', 'npint32', 'npint8',
          'npuint8', 'npuint16', 'npuint64', 'npstr', 'npfloat', 'npfloat16',
          'npfloat32', 'npbool', 'iarr', 'farr', 'barr', 'farr2', 'iarr2',
          'empty', 'csr', 'csc', 'coo', 'tuple', 'list', 'dict')


def leaf(env, kind, nm):
    """(value, what JSON should hold)"""
    np = env.np
    sp = env.sparse
    I = lambda k: env.int(nm + k, -99, 99)          # noqa: E731
    R = lambda k: env.real(nm + k, -99, 99)         # noqa: E731
    B = lambda k: env.bool(nm + k)                  # noqa: E731
    if kind == 'int':
        v = I('i')
        return v, v
    if kind == 'float':
        v = R('r')
        return v, v
    if kind == 'bool':
        v = B('b')
        return v, ('bool', v)
    if kind == 'str':
        return 'text', 'text'
    if kind in NPINT:
        v = env.int(nm + 'i', 0 if 'u' in kind else -99, 99)
        return np.array([v], dtype=NPINT[kind])[0], v
    if kind == 'npstr':
        return np.array(['text'])[0], 'text'
    if kind == 'npfloat16':
        v = I('i')
        return np.array([v * 0.5], dtype=np.float16)[0], v * 0.5
    if kind == 'npfloat':
        v = R('r')
        return np.array([v], dtype=float)[0], v
    if kind == 'npfloat32':
        v = I('i')
        return np.array([v * 0.5], dtype=np.float32)[0], v * 0.5
    if kind == 'npbool':
        v = B('b')
        return np.array([v], dtype=bool)[0], ('bool', v)
    if kind == 'iarr':
        v = [I('i0'), I('i1')]
        return np.array(v, dtype=int), v
    if kind == 'farr':
        v = [R('r0'), R('r1'), R('r2')]
        return np.array(v, dtype=float), v
    if kind == 'barr':
        v = [B('b0'), B('b1')]
        return np.array(v, dtype=bool), [('bool', x) for x in v]
    if kind == 'farr2':
        v = [[R('r0'), R('r1')], [R('r2'), R('r3')], [R('r4'), R('r5')]]
        return np.array(v, dtype=float), v
    if kind == 'iarr2':
        v = [[I('i0'), I('i1')]]
        return np.array(v, dtype=int), v
    if kind == 'empty':
        return np.zeros(0), []
    if kind in ('csr', 'csc', 'coo'):
        a, b, c = R('r0'), R('r1'), R('r2')
        d = np.array([[a, 0, b], [0, c, 0]], dtype=float)
        return getattr(sp, kind + '_matrix')(d), [[a, 0, b], [0, c, 0]]
    if kind == 'tuple':
        v = (I('i'), R('r'))
        return v, list(v)
    if kind == 'list':
        v = [I('i'), B('b')]
        return list(v), [v[0], ('bool', v[1])]
    if kind == 'dict':
        v = I('i')
        return {'p': v, 'q': np.array([v], dtype=int)}, {'p': v, 'q': [v]}
    raise KeyError(kind)


def same(env, got, exp):
    if isinstance(exp, dict):
        env.check(isinstance(got, dict), 'a dictionary stays one')
        env.check(list(got) == list(exp), 'keys')
        for k in exp:
            same(env, got[k], exp[k])
    elif isinstance(exp, tuple):
        env.check(env.is_bool(got), 'a boolean stays one')
        env.check(got == exp[1], 'boolean value')
    elif isinstance(exp, list):
        env.check(isinstance(got, list), 'a sequence becomes a list')
        env.check(len(got) == len(exp), 'length')
        for g, x in zip(got, exp):
            same(env, g, x)
    else:
        env.check(not env.is_bool(got), 'no boolean out of nowhere')
        env.check(isinstance(got, str) == isinstance(exp, str),
                  'text stays text, numbers stay numbers')
        env.eq(got, exp, 'value')


def build(env, shape, kinds):
    it = iter(enumerate(kinds))

    def nxt():
        i, k = next(it)
        return leaf(env, k, 'v%d' % i)

    def make(s):
        if s == '.':
            return nxt()
        if s[0] == 'd':
            ps = [make(x) for x in s[1:]]
            ks = ['k%d' % i for i in range(len(ps))]
            return ({k: p[0] for k, p in zip(ks, ps)},
                    {k: p[1] for k, p in zip(ks, ps)})
        ps = [make(x) for x in s[1:]]
        v = [p[0] for p in ps]
        return (tuple(v) if s[0] == 't' else v), [p[1] for p in ps]
    return make(shape)


SHAPES = {
    'd1': ('d', '.'),
    'l1': ('l', '.'),
    'dd': ('d', ('d', '.', '.')),
    'ld': ('l', ('d', '.'), '.'),
    'dl': ('d', ('l', '.', ('d', '.'))),
    'll': ('l', ('l', '.'), ('l', '.', '.')),
    'dt': ('d', ('t', '.', '.')),
    'lt': ('l', ('t', '.', ('d', '.'))),
    'deep': ('d', ('d', ('l', ('d', '.'))), '.'),
}


def h(env, shape, kinds):
    K = env.load('kamrecsys.utils')
    v, exp = build(env, SHAPES[shape], kinds)
    env.runs('json_decodable', K.json_decodable, v)
    env.check(env.jsonable(v), 'the JSON encoder accepts the result')
    same(env, v, exp)


def cases(tier):
    cs = []
    n = len(LEAVES)
    for shape in SHAPES:
        m = str(SHAPES[shape]).count("'.'")
        for i, k in enumerate(LEAVES):
            for step in (1, 5) if tier == 'quick' else range(n):
                kinds = [LEAVES[(i + step * j) % n] for j in range(m)]
                if m == 1 and step != 1:
                    continue
                cs.append(Case('%s-%s-%d' % (shape, k, step), h,
                               dict(shape=shape, kinds=kinds)))
    return cs
