"""A model of scipy.sparse matrices: explicit (row, column, value) entries."""
import numpy as RN

from . import core, npfun, loader
from .core import Unsupported, SymBool
from .nparr import (SymArray, SymMatrix, asarr, mk, norm, cast_elem, FLOAT,
                    INT, BOOL, conc_index, real_dtype, scalar_out, is_scalar)


class SymSparse:
    _sx_sparse = True
    __symarray__ = True
    __array_ufunc__ = None

    def __init__(self, rows, cols, data, shape, fmt, canonical=False):
        self.rows = list(rows)
        self.cols = list(cols)
        self.data = data             # SymArray
        self.shape = tuple(int(i) for i in shape)
        self.format = fmt
        self.canonical = canonical

    # -- construction --------------------------------------------------------
    @classmethod
    def make(cls, arg1, shape=None, dtype=None, copy=False, fmt='coo'):
        if isinstance(arg1, SymSparse):
            return arg1.asformat(fmt)
        if isinstance(arg1, tuple) and len(arg1) == 2 and isinstance(
                arg1[1], tuple):
            data, (r, c) = arg1
            data = asarr(data)
            r, c = (conc_index(asarr(i)) for i in (r, c))
            data = data.ravel().copy()
            if not len(r) == len(c) == data.size:
                raise ValueError('row, column, and data array must all be '
                                 'the same length')
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            sh = [int(i) for i in shape]
            if len(sh) != 2:
                raise ValueError('shape must be a 2-tuple')
            if len(r):
                if r.max() >= sh[0]:
                    raise ValueError('row index exceeds matrix dimensions')
                if c.max() >= sh[1]:
                    raise ValueError('column index exceeds matrix dimensions')
                if r.min() < 0 or c.min() < 0:
                    raise ValueError('negative row index found')
            m = cls([int(i) for i in r], [int(i) for i in c], data, sh,
                    'coo')
            if dtype is not None:
                m.data = m.data.astype(dtype)
            return m if fmt == 'coo' else m.asformat(fmt)
        if isinstance(arg1, tuple) and len(arg1) == 3:
            data, ind, ptr = arg1
            ind, ptr = conc_index(asarr(ind)), conc_index(asarr(ptr))
            major = []
            for i in range(len(ptr) - 1):
                major += [i] * int(ptr[i + 1] - ptr[i])
            minor = [int(i) for i in ind]
            r, c = (major, minor) if fmt == 'csr' else (minor, major)
            if shape is None:
                n = (max(minor) + 1) if minor else 0
                shape = (len(ptr) - 1, n) if fmt == 'csr' else (
                    n, len(ptr) - 1)
            return cls(r, c, asarr(data).copy(), shape, fmt)
        if isinstance(arg1, tuple) and len(arg1) == 2 and all(
                is_scalar(i) for i in arg1):
            return cls([], [], mk([], real_dtype(dtype) or FLOAT), arg1, fmt,
                       True)
        d = npfun.atleast_2d(arg1)
        if dtype is not None:
            d = d.astype(dtype)
        r, c = npfun.nonzero(d)
        r, c = r.to_real(), c.to_real()
        return cls([int(i) for i in r], [int(i) for i in c], d[r, c],
                   d.shape, fmt, True)

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def ndim(self):
        return 2

    @property
    def nnz(self):
        return len(self.rows)

    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        n = self.shape[1 - axis]
        idx = self.cols if axis == 0 else self.rows
        return mk([sum(1 for i in idx if i == j) for j in range(n)], INT)

    @property
    def row(self):
        return mk(self.rows, INT)

    @property
    def col(self):
        return mk(self.cols, INT)

    def _sorted(self, by_col=False):
        return self

    @property
    def indices(self):
        return mk(self.cols if self.format == 'csr' else self.rows, INT)

    @property
    def indptr(self):
        major = self.rows if self.format == 'csr' else self.cols
        n = self.shape[0] if self.format == 'csr' else self.shape[1]
        return mk([sum(1 for i in major if i < j) for j in range(n + 1)], INT)

    def sum_duplicates(self):
        m = self._summed(self.format)
        self.rows, self.cols, self.data = m.rows, m.cols, m.data
        self.canonical = True

    def _summed(self, fmt):
        acc = {}
        for r, c, v in zip(self.rows, self.cols, self.data.a):
            k = (r, c)
            acc[k] = npfun.k_add(acc[k], v) if k in acc else v
        ks = sorted(acc, key=lambda t: (t[1], t[0]) if fmt == 'csc' else t)
        d = SymArray(npfun._objarr([acc[k] for k in ks]), self.data.dtype)
        return SymSparse([k[0] for k in ks], [k[1] for k in ks], d,
                         self.shape, fmt, True)

    def asformat(self, fmt, copy=False):
        if fmt is None or fmt == self.format:
            return self.copy() if copy else self
        if fmt == 'coo':
            m = self.copy()
            m.format = 'coo'
            return m
        return self._summed(fmt)

    def tocoo(self, copy=True):
        return self.asformat('coo')

    def tocsr(self, copy=False):
        return self.asformat('csr')

    def tocsc(self, copy=False):
        return self.asformat('csc')

    def tolil(self, copy=False):
        return self.asformat('lil')

    def todok(self, copy=False):
        return self.asformat('dok')

    def copy(self):
        return SymSparse(self.rows, self.cols, self.data.copy(), self.shape,
                         self.format, self.canonical)

    def astype(self, dt, **k):
        m = self.copy()
        m.data = m.data.astype(dt)
        return m

    def toarray(self, *a, **k):
        z = npfun.zeros(self.shape, self.data.dtype)
        for r, c, v in zip(self.rows, self.cols, self.data.a):
            z.a[r, c] = npfun.k_add(z.a[r, c], v)
        return z

    @property
    def A(self):
        return self.toarray()

    def todense(self, *a, **k):
        z = self.toarray()
        return SymMatrix(z.a, z.dtype)

    def count_nonzero(self):
        m = self if self.canonical else self._summed('csr')
        return npfun.count_nonzero(m.data) if m.data.size else 0

    def nonzero(self):
        m = self.tocoo()
        keep = [bool(npfun._tz(v)) for v in m.data.a]
        return (mk([r for r, k in zip(m.rows, keep) if k], INT),
                mk([c for c, k in zip(m.cols, keep) if k], INT))

    def eliminate_zeros(self):
        keep = [i for i, v in enumerate(self.data.a) if bool(npfun._tz(v))]
        self.rows = [self.rows[i] for i in keep]
        self.cols = [self.cols[i] for i in keep]
        self.data = self.data[keep]

    def sum(self, axis=None, dtype=None, out=None):
        d = self.toarray()
        if axis is None:
            return npfun.sum_(d)
        r = npfun.sum_(d, axis=axis, keepdims=True)
        return SymMatrix(r.a, r.dtype)

    def mean(self, axis=None):
        d = self.toarray()
        if axis is None:
            return npfun.mean(d)
        r = npfun.mean(d, axis=axis, keepdims=True)
        return SymMatrix(r.a, r.dtype)

    def max(self, axis=None):
        if axis is None:
            return npfun.max_(self.toarray())
        raise Unsupported('sparse max')

    def getrow(self, i):
        i = int(i)
        if i < 0:
            i += self.shape[0]
        if not 0 <= i < self.shape[0]:
            raise IndexError('index out of bounds')
        ks = [k for k, r in enumerate(self.rows) if r == i]
        return SymSparse([0] * len(ks), [self.cols[k] for k in ks],
                         self._pick(ks), (1, self.shape[1]), 'csr')

    def getcol(self, j):
        j = int(j)
        ks = [k for k, c in enumerate(self.cols) if c == j]
        return SymSparse([self.rows[k] for k in ks], [0] * len(ks),
                         self._pick(ks), (self.shape[0], 1), 'csr')

    def _pick(self, ks):
        return SymArray(npfun._objarr([self.data.a[k] for k in ks]),
                        self.data.dtype)

    def __getitem__(self, idx):
        d = self.toarray()
        if not isinstance(idx, tuple):
            idx = (idx, slice(None))
        if all(isinstance(i, int) for i in idx):
            return d[idx]
        if isinstance(idx[0], int):
            r = d[idx][None, :]
        elif isinstance(idx[1], int):
            r = d[idx][:, None]
        else:
            r = d[idx]
        return SymSparse.make(r, fmt=self.format)

    def __setitem__(self, idx, v):
        d = self.toarray()
        d[idx] = v
        m = SymSparse.make(d, fmt=self.format)
        self.rows, self.cols, self.data = m.rows, m.cols, m.data

    @property
    def T(self):
        return SymSparse(self.cols, self.rows, self.data, self.shape[::-1],
                         {'csr': 'csc', 'csc': 'csr'}.get(
                             self.format, self.format), self.canonical)

    def transpose(self, *a, **k):
        return self.T

    def dot(self, o):
        if isinstance(o, SymSparse):
            return SymSparse.make(npfun.dot(self.toarray(), o.toarray()),
                                  fmt='csr')
        return npfun.dot(self.toarray(), o)

    __matmul__ = dot

    def multiply(self, o):
        o = o.toarray() if isinstance(o, SymSparse) else o
        return SymSparse.make(npfun.UF['multiply'](self.toarray(), o),
                              fmt='csr')

    def _map(self, f, dt=None):
        m = self.copy() if self.canonical else self._summed(
            'csr' if self.format == 'coo' else self.format)
        d = npfun._objarr([f(e) for e in m.data.a])
        m.data = SymArray(d, dt or m.data.dtype)
        return m

    def sign(self):
        return self._map(npfun.k_sign)

    def __abs__(self):
        return self._map(npfun.k_abs)

    def __neg__(self):
        return self._map(npfun.k_neg)

    def __mul__(self, o):
        if is_scalar(o):
            r = npfun.UF['multiply'](self.data, o)
            m = self.copy()
            m.data = r
            return m
        return self.dot(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        m = self.copy()
        m.data = npfun.UF['true_divide'](self.data, o)
        return m

    def _cmp(self, name, o):
        return SymSparse.make(npfun.UF[name](
            self.toarray(), o.toarray() if isinstance(o, SymSparse) else o),
            fmt='csr')

    def __gt__(self, o):
        return self._cmp('greater', o)

    def __ge__(self, o):
        return self._cmp('greater_equal', o)

    def __lt__(self, o):
        return self._cmp('less', o)

    def __ne__(self, o):
        return self._cmp('not_equal', o)

    def __eq__(self, o):
        return self._cmp('equal', o)

    __hash__ = None

    def __add__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse.make(npfun.UF['add'](
                self.toarray(), o.toarray()), fmt='csr')
        return npfun.UF['add'](self.toarray(), o)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse.make(npfun.UF['subtract'](
                self.toarray(), o.toarray()), fmt='csr')
        return npfun.UF['subtract'](self.toarray(), o)

    def minimum(self, o):
        o = o.toarray() if isinstance(o, SymSparse) else o
        return SymSparse.make(npfun.UF['minimum'](self.toarray(), o),
                              fmt='csr')

    def maximum(self, o):
        o = o.toarray() if isinstance(o, SymSparse) else o
        return SymSparse.make(npfun.UF['maximum'](self.toarray(), o),
                              fmt='csr')

    def _ufunc(self, name, args):
        raise Unsupported('ufunc %s on a sparse matrix' % name)

    def __iter__(self):
        return (self.getrow(i) for i in range(self.shape[0]))

    def __bool__(self):
        raise ValueError('The truth value of an array is ambiguous.')

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous')

    @classmethod
    def _sx_isinstance(cls, x):
        return isinstance(x, SymSparse)


def issparse(x):
    import scipy.sparse
    return isinstance(x, SymSparse) or scipy.sparse.issparse(x)


def _ctor(fmt):
    def make(arg1, shape=None, dtype=None, copy=False):
        return SymSparse.make(arg1, shape, dtype, copy, fmt)
    make.__name__ = fmt + '_matrix'
    return make


def module():
    N = loader.Namespace('scipy.sparse', issparse=issparse,
                         isspmatrix=issparse)
    for f in ('coo', 'csr', 'csc', 'lil', 'dok'):
        setattr(N, f + '_matrix', _ctor(f))
        setattr(N, f + '_array', _ctor(f))
    N.spmatrix = SymSparse
    return N
