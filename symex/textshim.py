"""Text with symbolic characters, text files in memory, running a script.

A symbolic character is one code point of plane 15 in an ordinary string, so
that the string operations of the interpreter work on it; the engine keeps
the solver term of the character's real code point.  Kinds:

digit   one of 0..9
letter  a letter (of any alphabet the single-byte code pages have)
int     the decimal rendering of a symbolic integer (not one character:
        operations that would look inside are unsupported)

Operations that depend on the character's value (comparison, hashing, int())
go to the solver; predicates and regular expressions are evaluated on several
representatives of the kinds, and are unsupported if those disagree.
"""
import io as _io
import os
import re as _re
import sys

from . import core
from .texts import LAYOUT, SCRATCH, LETTERS
from .core import z3, SymInt, Unsupported, mkbool

BASE = 0xF0000
END = 0xFFFFD
# representatives (digit, letter, int)
REPS = (('0', 'a', '7'), ('9', 'Z', '12'), ('5', '\u00e9', '-3'),
        ('3', '\u2019', '0'))
CODES = [ord(c) for c in 'AQZaqz'] + [0xc0, 0xe9, 0xff, 0x2019, 0x0160]


def table():
    E = core.eng()
    t = E.__dict__.get('text')
    if t is None or t[0] is not E.solver:
        t = E.text = (E.solver, [])
    return t[1]


def new(kind, e):
    t = table()
    t.append((kind, e))
    return Text(chr(BASE + len(t) - 1))


def sym(c):
    """(kind, term) of a symbolic character, or None"""
    n = ord(c)
    return table()[n - BASE] if BASE <= n < END else None


def symbolic(s):
    return any(BASE <= ord(c) < END for c in str.__iter__(s))


def wrap(x):
    if type(x) is str:
        return Text(x)
    if type(x) in (list, tuple):
        return type(x)(wrap(i) for i in x)
    return x


def concrete(s):
    """the string, its characters fixed by forking"""
    out = []
    for c in str.__iter__(s):
        k = sym(c)
        if k is None:
            out.append(c)
        elif k[0] == 'int':
            out.append(str(core.eng().concretize(k[1])))
        else:
            out.append(chr(core.eng().concretize(k[1])))
    return ''.join(out)


def reps(s):
    for d in REPS:
        m = dict(zip(('digit', 'letter', 'int'), d))
        yield [c if sym(c) is None else m[sym(c)[0]] for c in str.__iter__(s)]


def agree(s, f):
    r = [f(''.join(x)) for x in reps(s)]
    if any(x != r[0] for x in r):
        raise Unsupported('text predicate that depends on the characters')
    return r[0]


def has_int(s):
    return any(sym(c) is not None and sym(c)[0] == 'int' for c in s)


def equal(a, b):
    """z3 condition or bool: the two texts are equal"""
    if a is b or str.__eq__(a, b):
        return True
    if has_int(a) or has_int(b):
        return int_equal(a, b)
    if str.__len__(a) != str.__len__(b):
        return False
    cs = []
    for x, y in zip(str.__str__(a), str.__str__(b)):
        if x == y:
            continue
        kx, ky = sym(x), sym(y)
        if kx is None and ky is None:
            return False
        cs.append((z3.IntVal(ord(x)) if kx is None else kx[1]) ==
                  (z3.IntVal(ord(y)) if ky is None else ky[1]))
    return z3.And(cs)


def order(a, b, strict):
    """the text a comes before b"""
    if not isinstance(a, str) or not isinstance(b, str):
        raise TypeError('not supported between these instances')
    if has_int(a) or has_int(b):
        raise Unsupported('order of texts with symbolic integers')
    n = min(str.__len__(a), str.__len__(b))
    la, lb = str.__len__(a), str.__len__(b)
    r = z3.BoolVal(la < lb if strict else la <= lb)
    for i in reversed(range(n)):
        x, y = code(a, i), code(b, i)
        r = z3.Or(x < y, z3.And(x == y, r))
    return mkbool(z3.simplify(r))


def code(s, i):
    c = str.__getitem__(s, i)
    k = sym(c)
    return z3.IntVal(ord(c)) if k is None else k[1]


def int_equal(a, b):
    """equality of texts with renderings of integers, field by field"""
    pa, pb = fields(a), fields(b)
    if len(pa) != len(pb):
        raise Unsupported('comparison of texts with symbolic integers')
    cs = []
    for x, y in zip(pa, pb):
        if str.__eq__(x, y):
            continue
        if has_int(x) or has_int(y):
            if not canonical(x) or not canonical(y):
                raise Unsupported('comparison of texts with symbolic '
                                  'integers')
            cs.append(core.zint(to_int(x)) == core.zint(to_int(y)))
            for s in (x, y):        # no leading zero
                if len(s) > 1 and sym(s[0]) is not None:
                    cs.append(sym(s[0])[1] != 48)
        else:
            r = equal(x, y)
            if r is False:
                return False
            if r is not True:
                cs.append(r)
    return z3.And(cs)


def fields(s):
    return [x for x in _re.split('([\t\n ,:|]+)', str.__str__(s))]


def canonical(s):
    """a decimal rendering, apart from leading zeros"""
    if has_int(s):
        return len(s) == 1
    t = s[1:] if s[:1] == '-' else s
    return len(t) > 0 and all(
        c in '0123456789' if sym(c) is None else sym(c)[0] == 'digit'
        for c in t) and t[:1] != '0'


def to_int(s):
    if not symbolic(s):
        return int(str.__str__(s))
    t = str.__str__(s).strip()
    if len(t) == 1 and sym(t) is not None and sym(t)[0] == 'int':
        return core.mkint(sym(t)[1])
    neg = False
    if t[:1] in ('+', '-'):
        neg = t[0] == '-'
        t = t[1:]
    v = z3.IntVal(0)
    if not t:
        raise ValueError('invalid literal for int()')
    for c in t:
        k = sym(c)
        if k is None:
            if c not in '0123456789':
                raise ValueError('invalid literal for int()')
            d = z3.IntVal(ord(c) - 48)
        elif k[0] == 'digit':
            d = k[1] - 48
        elif k[0] == 'letter':
            raise ValueError('invalid literal for int()')
        else:
            raise Unsupported('int() of a text with a symbolic integer')
        v = v * 10 + d
    return core.mkint(z3.simplify(-v if neg else v))


def to_float(s):
    if not symbolic(s):
        return core.SymReal(core.frac(float(str.__str__(s))))
    t = str.__str__(s).strip()
    i, p, f = t.partition('.')
    if not f:
        return core.tosymreal(to_int(i))
    v = to_int(i + f)
    if i[:1] == '-' and False:
        pass
    return core.SymReal._div(core.tosymreal(v),
                             core.SymReal(core.frac(10 ** len(f))))


def _same(name):
    f = getattr(str, name)

    def g(self, *a, **k):
        return wrap(f(self, *a, **k))
    g.__name__ = name
    return g


def _pred(name):
    f = getattr(str, name)

    def g(self, *a):
        if not symbolic(self):
            return f(self, *a)
        return agree(self, lambda s: f(s, *a))
    g.__name__ = name
    return g


def _nosym(name):
    f = getattr(str, name)

    def g(self, *a):
        if symbolic(self):
            raise Unsupported('str.%s of a symbolic text' % name)
        return wrap(f(self, *a))
    g.__name__ = name
    return g


class Text(str):
    """a string whose characters may be symbolic"""
    __slots__ = ()

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if not symbolic(self) and not symbolic(o):
            return str.__eq__(self, o)
        r = equal(self, o)
        return r if isinstance(r, bool) else mkbool(r)

    def __ne__(self, o):
        return core.bnot(self == o)

    def __hash__(self):
        return hash(concrete(self)) if symbolic(self) else str.__hash__(self)

    def __lt__(self, o):
        return order(self, o, True)

    def __le__(self, o):
        return order(self, o, False)

    def __gt__(self, o):
        return order(o, self, True)

    def __ge__(self, o):
        return order(o, self, False)

    def __len__(self):
        if has_int(self):
            raise Unsupported('length of a text with a symbolic integer')
        return str.__len__(self)

    def __bool__(self):
        return str.__len__(self) > 0

    def __getitem__(self, i):
        if has_int(self):
            raise Unsupported('slice of a text with a symbolic integer')
        return Text(str.__getitem__(self, i))

    def __iter__(self):
        return (Text(c) for c in str.__str__(self))

    def __str__(self):
        return self

    def __repr__(self):
        return 'Text(%s)' % ''.join(
            c if sym(c) is None else '<%s>' % sym(c)[1]
            for c in str.__iter__(self))

    def __radd__(self, o):
        return Text(str.__add__(o, self))

    def __contains__(self, o):
        if symbolic(o):
            raise Unsupported('search for a symbolic text')
        return str.__contains__(self, o) if not symbolic(self) else \
            agree(self, lambda s: o in s)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x, *a) for x in p)
        if a:
            return self[a[0]:].startswith(p) if len(a) == 1 else \
                self[a[0]:a[1]].startswith(p)
        return str.__len__(self) >= len(p) and bool(
            Text(str.__getitem__(self, slice(0, len(p)))) == p)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(x, *a) for x in p)
        if a:
            return self[a[0]:].endswith(p)
        n = str.__len__(self)
        return n >= len(p) and bool(
            Text(str.__getitem__(self, slice(n - len(p), n))) == p)


for _n in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'replace',
           'partition', 'rpartition', 'splitlines', 'join', 'format',
           '__add__', '__mul__', '__rmul__', '__mod__', 'expandtabs'):
    setattr(Text, _n, _same(_n))
for _n in ('isdigit', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric',
           'isspace', 'isupper', 'islower', 'find', 'index', 'rfind',
           'rindex', 'count', 'isascii'):
    setattr(Text, _n, _pred(_n))
for _n in ('lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold',
           'zfill', 'ljust', 'rjust', 'center', 'encode', 'translate'):
    setattr(Text, _n, _nosym(_n))


# ---------------------------------------------------------------------------
# regular expressions
# ---------------------------------------------------------------------------
class Match:
    def __init__(self, s, m):
        self.s, self.m = s, m
        self.string = s
        self.re = m.re

    def group(self, *a):
        a = a or (0,)
        r = tuple(self._part(i) for i in a)
        return r[0] if len(r) == 1 else r

    def _part(self, i):
        b, e = self.m.span(i)
        return None if b < 0 else Text(
            str.__getitem__(self.s, slice(b, e)))

    __getitem__ = _part

    def groups(self, default=None):
        r = [self._part(i + 1) for i in range(self.m.re.groups)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: self._part(k) for k in self.m.re.groupindex}

    def span(self, i=0):
        return self.m.span(i)

    def start(self, i=0):
        return self.m.start(i)

    def end(self, i=0):
        return self.m.end(i)


class Pattern:
    def __init__(self, p, flags=0):
        if isinstance(p, Pattern):
            p = p.pattern
        if symbolic(p):
            raise Unsupported('symbolic regular expression')
        self.pattern = p
        self.p = _re.compile(str.__str__(p), flags)

    def _all(self, s, f, key):
        if not symbolic(s):
            return f(str.__str__(s))
        if has_int(s):
            raise Unsupported('regular expression on a symbolic integer')
        rs = [f(''.join(x)) for x in reps(s)]
        ks = [key(r) for r in rs]
        if any(k != ks[0] for k in ks):
            raise Unsupported('regular expression that tells the '
                              'characters of a kind apart')
        return rs[0]

    def _match(self, s, f):
        m = self._all(s, f, lambda r: None if r is None else r.regs)
        return None if m is None else Match(s, m)

    def search(self, s):
        return self._match(s, self.p.search)

    def match(self, s):
        return self._match(s, self.p.match)

    def fullmatch(self, s):
        return self._match(s, self.p.fullmatch)

    def finditer(self, s):
        ms = self._all(s, lambda x: list(self.p.finditer(x)),
                       lambda r: [m.regs for m in r])
        return iter([Match(s, m) for m in ms])

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            out.append(m.group() if self.p.groups == 0 else m.group(1)
                       if self.p.groups == 1 else m.groups(''))
        return out

    def sub(self, repl, s, count=0):
        out, at = [], 0
        for i, m in enumerate(self.finditer(s)):
            if count and i >= count:
                break
            out.append(str.__getitem__(s, slice(at, m.start())))
            if callable(repl):
                out.append(repl(m))
            elif '\\' in repl:
                raise Unsupported('template in re.sub')
            else:
                out.append(repl)
            at = m.end()
        out.append(str.__getitem__(s, slice(at, None)))
        return Text(''.join(out))

    def split(self, s, maxsplit=0):
        out, at = [], 0
        for i, m in enumerate(self.finditer(s)):
            if maxsplit and i >= maxsplit:
                break
            out.append(Text(str.__getitem__(s, slice(at, m.start()))))
            out.extend(m.groups())
            at = m.end()
        out.append(Text(str.__getitem__(s, slice(at, None))))
        return out


class Re:
    """shim of the re module"""
    __name__ = 're'

    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0):
        return Pattern(p, flags)

    def sub(self, p, repl, s, count=0, flags=0):
        return Pattern(p, flags).sub(repl, s, count)


for _n in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'split'):
    def _f(self, p, s, *a, _n=_n, **k):
        return getattr(Pattern(p, k.pop('flags', 0)), _n)(s, *a, **k)
    setattr(Re, _n, _f)


# ---------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------
SINGLE = ('cp1252', 'latin-1', 'iso8859-1', 'ascii', 'cp1250', 'cp437',
          'iso8859-15', 'cp850', 'mac-roman')


def codec(enc):
    import codecs
    return codecs.lookup(enc or 'utf-8').name


def recode(text, enc, dec, errors):
    """what reading in one encoding makes of a text in another"""
    enc, dec = codec(enc), codec(dec)
    if enc == dec:
        return text
    out = []
    for c in str.__str__(text):
        k = sym(c)
        if k is None:
            out.append(c.encode(enc).decode(dec, errors or 'strict'))
            continue
        if k[0] != 'letter' or core.eng().branch(k[1] < 128):
            out.append(c)
            continue
        if enc == 'utf-8' or dec.startswith('utf'):
            n = core.eng().concretize(k[1])
            out.append(chr(n).encode(enc).decode(dec, errors or 'strict'))
        else:
            e = k[1]
            done = z3.BoolVal(False)
            r = e
            for n in range(128, 256):
                try:
                    a = ord(bytes([n]).decode(enc))
                    b = ord(bytes([n]).decode(dec))
                except UnicodeDecodeError:
                    continue
                r = z3.If(k[1] == a, b, r)
                done = z3.Or(done, k[1] == a)
            if not core.eng().branch(done):
                n = core.eng().concretize(k[1])
                out.append(chr(n).encode(enc).decode(dec,
                                                     errors or 'strict'))
            else:
                out.append(new('letter', z3.simplify(r)))
    return Text(''.join(out))


def encodable(text, enc, errors):
    enc = codec(enc)
    if enc.startswith('utf'):
        return text
    ok = [b for b in CODES if _can(b, enc)]
    out = []
    for c in str.__str__(text):
        k = sym(c)
        if k is None:
            out.append(c.encode(enc, errors or 'strict').decode(enc))
        elif k[0] == 'letter' and not core.eng().branch(
                z3.Or([k[1] == b for b in ok])):
            out.append(chr(core.eng().concretize(k[1])).encode(
                enc, errors or 'strict').decode(enc))
        else:
            out.append(c)
    return Text(''.join(out))


def _can(n, enc):
    try:
        chr(n).encode(enc)
        return True
    except UnicodeEncodeError:
        return False


class File:
    def __init__(self, fs, path, mode, enc, errors, newline):
        self.fs, self.path, self.mode = fs, path, mode
        self.name = path
        self.encoding = codec(enc)
        self.errors = errors
        self.closed = False
        self.buf = []
        if 'b' in mode or '+' in mode:
            raise Unsupported('open(mode=%r)' % mode)
        if 'r' in mode:
            if path not in fs.files:
                raise FileNotFoundError(2, 'No such file or directory', path)
            t, e = fs.files[path]
            t = recode(t, e, enc, errors)
            if newline is None:
                t = t.replace('\r\n', '\n').replace('\r', '\n')
            t = str.__str__(t)
            self.lines = [Text(x) for x in _re.findall('[^\n]*\n|[^\n]+', t)]
        else:
            if 'x' in mode and path in fs.files:
                raise FileExistsError(17, 'File exists', path)
            if os.path.dirname(path) not in fs.dirs:
                raise FileNotFoundError(2, 'No such file or directory', path)
            if 'a' not in mode or path not in fs.files:
                fs.files[path] = (Text(''), self.encoding)

    def _read(self):
        if self.closed or 'r' not in self.mode:
            raise ValueError('I/O operation on closed file.')

    def readline(self):
        self._read()
        return self.lines.pop(0) if self.lines else Text('')

    def readlines(self):
        self._read()
        r, self.lines = self.lines, []
        return r

    def read(self, *a):
        self._read()
        if a and a[0] not in (None, -1):
            raise Unsupported('read of a number of characters')
        return Text(''.join(self.readlines()))

    def __iter__(self):
        self._read()
        return self

    def __next__(self):
        if not self.lines:
            raise StopIteration
        return self.lines.pop(0)

    def write(self, s):
        if self.closed or 'r' in self.mode:
            raise ValueError('not writable')
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        t, e = self.fs.files[self.path]
        s = encodable(s, self.encoding, self.errors)
        self.fs.files[self.path] = (Text(str.__add__(t, s)), self.encoding)
        return str.__len__(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FS:
    """the files a script reads and writes, in memory"""

    def __init__(self, dirs):
        self.dirs = set(dirs)
        self.files = {}

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        p = os.path.abspath(os.fspath(file))
        if os.path.dirname(p) not in self.dirs and os.path.exists(p):
            raise Unsupported('open of %s' % p)
        return File(self, p, mode, encoding, errors, newline)

    def copen(self, filename, mode='r', encoding=None, errors='strict',
              buffering=-1):
        return self.open(filename, mode, -1, encoding, errors, '')


class Shim:
    def __init__(self, mod, **kw):
        self.__dict__.update(kw)
        self._mod = mod

    def __getattr__(self, n):
        return getattr(self._mod, n)


def to_str(x):
    """str(x) in a script"""
    if isinstance(x, SymInt):
        return new('int', x.e)
    return x if isinstance(x, Text) else None


def mapped(f, *its):
    from . import loader
    f = {int: loader.sx_int, float: loader.sx_float,
         str: loader.sx_str}.get(f, f) if isinstance(f, type) else f
    return map(f, *its)


# the harness side, symbolic and real ---------------------------------------
class SymText:
    """text inputs and script runs of the symbolic environment"""

    def digit(self, name, lo=0, hi=9):
        return new('digit', core.zint(self.int(name, 48 + lo, 48 + hi)))

    def letter(self, name):
        v = core.zint(self.int(name, LETTERS[0][0], LETTERS[-2][1]))
        self.E.add(z3.Or([z3.And(v >= a, v <= b) for a, b in LETTERS]))
        return new('letter', v)

    def text_int(self, s):
        return to_int(wrap(s))

    def text_float(self, s):
        return to_float(wrap(s))

    def text_eq(self, a, b, label):
        a, b = wrap(a), wrap(b)
        if symbolic(a) and str.__eq__(a, b):
            # the solver is asked all the same
            return self.check(mkbool(z3.And([code(a, i) == code(b, i)
                                             for i in range(
                                                 str.__len__(a))])), label)
        r = equal(a, b)
        return self.check(r if isinstance(r, bool) else mkbool(r), label,
                          '' if r is not False else 'different texts')

    def join(self, *parts):
        return Text(''.join(parts))

    def script(self, src, argv, files, made=(), out_enc=None):
        """run a script of data/ on the given files

        files: name -> (text, encoding), in the script's directory, or below
        the target directory for names starting with 'target/'.  argv: the
        arguments; 'TARGET' is the name of the target directory.  Returns
        the exit code and the files written, by name.
        """
        from .harness import REPO
        root = SCRATCH
        dirs = {k: os.path.join(root, *v) for k, v in LAYOUT.items()}
        fs = {}
        for n, v in files.items():
            d, _, b = n.rpartition('/')
            fs[os.path.join(dirs[d or 'data'], b)] = v
        code, out = run_script(
            self, (os.path.join(REPO, 'data', src + '.py'),
                   os.path.join(dirs['data'], src + '.py')),
            [dirs['target'] if a == 'TARGET' else a for a in argv],
            dirs.values(), fs)
        res = {}
        for p, (t, e) in out.items():
            if p in fs and fs[p][0] is t:
                continue
            d = [k for k, v in dirs.items() if v == os.path.dirname(p)][0]
            n = d + '/' + os.path.basename(p)
            res[n] = recode(t, e, (out_enc or {}).get(n, 'utf-8'), None)
        return code, res


    def on_machine(self, values, output, versions, f):
        """f(module with the environment report) on a described machine"""
        import platform
        import subprocess
        from . import loader, machine
        m = machine.Machine({k: wrap(v) for k, v in values.items()},
                            wrap(output), Raw, wrap)
        shims = dict(
            self.shims, re=Re(),
            platform=Shim(platform, **m.platform_functions()),
            subprocess=Shim(subprocess, **m.subprocess_names()))
        for n, v in versions.items():
            shims[n] = Shim(shims[n], __version__=wrap(v))
        ld = loader.Loader(shims)

        def opened(*a, **k):
            r = m.open(*a, **k)
            if r is None:
                raise Unsupported('open of %r' % (a,))
            return r
        ld.builtins['open'] = opened
        shims['io'] = Shim(_io, open=opened)
        ld.builtins['map'] = mapped
        was, loader.TEXT = loader.TEXT, to_str
        try:
            return f(ld.load('kamrecsys.utils.kamexputils'))
        except machine.Unknown as ex:
            raise Unsupported(str(ex))
        finally:
            loader.TEXT = was


class Raw:
    """the bytes of a text"""

    def __init__(self, text, enc='utf-8'):
        self.t, self.enc = wrap(text), enc

    def decode(self, encoding='utf-8', errors='strict'):
        return recode(self.t, self.enc, encoding, errors)

    def _part(name):
        def g(self, *a):
            a = [x.decode('ascii') if isinstance(x, bytes) else x for x in a]
            r = getattr(self.t, name)(*a)
            return [Raw(x, self.enc) for x in r] if isinstance(r, list) \
                else Raw(r, self.enc)
        return g

    for _n in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'splitlines',
               'replace', '__getitem__'):
        locals()[_n] = _part(_n)

    def __bool__(self):
        return bool(self.t)

    def __iter__(self):
        raise Unsupported('iteration over bytes')


def run_script(env, path, argv, dirs, files):
    """run a script's source on files in memory; (exit code, files)

    argv: the arguments after the script's name; files: absolute path ->
    (text, encoding)
    """
    import codecs
    import types
    from . import loader
    fs = FS(dirs)
    fs.files.update(files)
    src, path = path
    shims = dict(env.shims, io=Shim(_io, open=fs.open), re=Re(),
                 codecs=Shim(codecs, open=fs.copen))
    ld = loader.Loader(shims)
    ld.builtins['open'] = fs.open
    ld.builtins['map'] = mapped
    m = types.ModuleType('__main__')
    m.__file__ = path
    m.__builtins__ = ld.builtins
    old, was = sys.argv, loader.TEXT
    sys.argv = [path] + list(argv)
    loader.TEXT = to_str
    code = None
    try:
        exec(loader.compile_source(src), m.__dict__)
    except SystemExit as ex:
        code = ex.code or 0
    finally:
        sys.argv, loader.TEXT = old, was
    return code, fs.files
