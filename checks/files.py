"""Tab separated files with symbolic contents.

np.genfromtxt is modelled for the symbolic run (fields assigned to the columns
of the data type in order); in a replay the files are really written, into a
scratch directory, and read by the real function.
"""
import os
import shutil
import tempfile


class SymFile(object):
    """stands for an open file"""

    def __init__(self, rows):
        self.rows = rows


class Files(object):
    def __init__(self, env):
        self.env = env
        self.tab = {}
        self.reads = []
        self.dir = None if env.sym else tempfile.mkdtemp(prefix='kamvf')
        env.cfg_hooks['genfromtxt'] = self.read

    def close(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir or '/nowhere', name)

    def add(self, name, rows):
        """a file called name; returns its path"""
        self.tab[name] = rows
        if not self.env.sym:
            with open(self.path(name), 'w', encoding='utf-8') as f:
                for r in rows:
                    f.write('\t'.join(text(c) for c in r) + '\n')
        return self.path(name)

    def open(self, name):
        if self.env.sym:
            return SymFile(self.tab[name])
        return open(self.path(name), 'rb')

    def read(self, fname, dtype=float, comments='#', delimiter=None, *a,
             **k):
        if isinstance(fname, SymFile):
            rows = fname.rows
        elif hasattr(fname, 'read'):
            return self.real(fname, dtype, comments, delimiter, *a, **k)
        else:
            name = os.path.basename(fname)
            self.reads.append(name)
            if name not in self.tab:
                raise OSError('%s not found.' % fname)
            if not self.env.sym:
                return self.real(self.path(name), dtype, comments,
                                 delimiter, *a, **k)
            rows = self.tab[name]
        return self.parse(rows, dtype, delimiter, a, k)

    def real(self, *a, **k):
        return self.env.world.genfromtxt(*a, **k)

    def parse(self, rows, dtype, delimiter, a, k):
        from symex.core import Unsupported
        from symex import nparr
        np = self.env.np
        for o in k:
            if o not in ('encoding', 'skip_header', 'max_rows', 'usecols',
                         'autostrip', 'invalid_raise', 'unpack',
                         'missing_values', 'filling_values'):
                raise Unsupported('np.genfromtxt(%s=)' % o)
        if a or k.get('unpack') or delimiter != '\t':
            raise Unsupported('these arguments of np.genfromtxt')
        rows = rows[int(k.get('skip_header') or 0):]
        if k.get('max_rows') is not None:
            rows = rows[:int(k['max_rows'])]
        if not rows:
            raise Unsupported('np.genfromtxt of an empty file')
        if len({len(r) for r in rows}) > 1:
            raise ValueError('Some errors were detected !')
        if k.get('usecols') is not None:
            u = k['usecols']
            u = [u] if isinstance(u, int) else list(u)
            rows = [[r[int(i)] for i in u] for r in rows]
        dt = nparr.struct_dtype(dtype)
        if dt is None:
            base = nparr.real_dtype(dtype)
            if base is None:
                raise Unsupported('np.genfromtxt guessing a type')
            out = np.array([[convert(f, base) for f in r] for r in rows],
                           dtype=base)
            if out.shape[1] == 1:
                out = out[:, 0]
            return out[0] if len(rows) == 1 else out
        n = leaves(dt)
        if len(rows[0]) < n:
            raise ValueError('could not assign tuple')
        cols, at = build(np, rows, dt, 0)
        r = nparr.RecArray(cols, (len(rows),))
        return r.reshape(()) if len(rows) == 1 else r


def text(f):
    if isinstance(f, float):
        return repr(f)
    return str(f)


def leaves(dt):
    if dt.subdtype is not None:
        m = 1
        for s in dt.shape:
            m *= s
        return m * leaves(dt.base)
    if dt.names:
        return sum(leaves(dt.fields[n][0]) for n in dt.names)
    return 1


def build(np, rows, dt, at):
    """the columns of a structured type from position at of the rows on"""
    from symex import nparr
    cols = {}
    for n in dt.names:
        sub = dt.fields[n][0]
        m = leaves(sub)
        if sub.names:
            c, at2 = build(np, rows, sub, at)
            cols[n] = nparr.RecArray(c, (len(rows),))
        else:
            base, shape = sub.base, sub.shape
            vals = [[convert(f, base) for f in r[at:at + m]] for r in rows]
            cols[n] = np.array(vals, dtype=base).reshape(
                (len(rows),) + tuple(shape))
        at += m
    return cols, at


def convert(f, base):
    from symex.core import Unsupported, SymStr, SymReal, SymInt
    if base.kind == 'U':
        if isinstance(f, str):
            return f[:base.itemsize // 4]
        if isinstance(f, SymStr) and base.itemsize // 4 >= 6:
            return f
        if isinstance(f, int):
            return str(f)[:base.itemsize // 4]
        raise Unsupported('a number read as a string')
    if base.kind in 'iu':
        if isinstance(f, (int, SymInt)):
            # too large a number is cut to its lowest bits
            w = 2 ** (8 * base.itemsize)
            m = w // 2 if base.kind == 'i' else 0
            if -m <= f < w - m:
                return f
            return (f + m) % w - m
        if base.kind == 'u':
            raise Unsupported('np.genfromtxt of an unsigned missing value')
        return -1
    if base.kind == 'f':
        if isinstance(f, (str, SymStr)):
            return float('nan')
        return f
    if base.kind == 'b':
        # a number is no text of a truth value
        return isinstance(f, str) and f.upper() == 'TRUE'
    raise Unsupported('np.genfromtxt with type %s' % base)
