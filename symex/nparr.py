"""Symbolic arrays: object ndarrays of symbolic scalars with a logical dtype.

The storage `.a` is an ordinary numpy object array, so that shapes, strides,
views and aliasing are numpy's own; element semantics are those of the logical
dtype `.dtype`.
"""
import math
import numbers
import builtins
from fractions import Fraction

import numpy as RN          # the real numpy
import z3

from . import core
from .core import (
    Sym, SymBool, SymInt, SymReal, SymStr, NInt, Unsupported, eng, mkbool,
    mkint, mkreal, zint, zreal, zbool, tosymreal, is_special, isnan, ite, bnot)

BOOL = RN.dtype(bool)
INT = RN.dtype('int64')
FLOAT = RN.dtype('float64')
OBJ = RN.dtype(object)


# ---------------------------------------------------------------------------
# dtypes and elements
# ---------------------------------------------------------------------------
def real_dtype(d):
    if d is None:
        return None
    if isinstance(d, RN.dtype):
        return d
    if hasattr(d, '_sx_real'):
        d = d._sx_real
    return RN.dtype(d)


def is_scalar(x):
    return isinstance(x, (Sym, numbers.Number, str, bytes, RN.generic)) \
        or x is None


def norm(x):
    """element representation of a scalar"""
    if isinstance(x, Sym):
        return x
    t = type(x)
    if t is bool or t is int or t is str:
        return x
    if t is NInt:
        return int(x)
    if t is float:
        return x if is_special(x) else SymReal(core.frac(x))
    if isinstance(x, RN.bool_):
        return bool(x)
    if isinstance(x, RN.integer):
        return int(x)
    if isinstance(x, RN.floating):
        return norm(float(x))
    if isinstance(x, RN.str_):
        return str(x)
    if isinstance(x, Fraction):
        return SymReal(x)
    if isinstance(x, numbers.Integral):
        return int(x)
    return x


def elem_dtype(x):
    """dtype numpy would infer for a scalar"""
    if isinstance(x, NInt):
        return INT
    if isinstance(x, RN.generic):
        return x.dtype
    if isinstance(x, (bool, SymBool)):
        return BOOL
    if isinstance(x, (int, SymInt)):
        return INT
    if isinstance(x, (SymReal, float, Fraction)):
        return FLOAT
    if isinstance(x, str):
        return RN.dtype('<U%d' % max(1, len(x)))
    if isinstance(x, SymStr):
        return RN.dtype('<U6')
    if isinstance(x, bytes):
        return RN.dtype('S%d' % max(1, len(x)))
    if isinstance(x, complex):
        raise Unsupported('complex values')
    return OBJ


_INF_INT = -2 ** 63


def wrap_int(e, dt):
    """two's complement wrap-around of integer term / value to dtype dt"""
    bits = dt.itemsize * 8
    lo = 0 if dt.kind == 'u' else -2 ** (bits - 1)
    if isinstance(e, int):
        return (e - lo) % 2 ** bits + lo
    z = zint(e)
    M = z3.IntVal(2 ** bits)
    return mkint(z3.If(z3.And(z >= lo, z < lo + 2 ** bits), z,
                       (z - lo) % M + lo))


def cast_elem(x, dt):
    k = dt.kind
    if k == 'O':
        return x
    x = norm(x)
    if k == 'b':
        if isinstance(x, bool):
            return x
        if isinstance(x, (SymBool, SymInt, SymReal)):
            return mkbool(zbool(x))
        if isinstance(x, (SymStr,)):
            return True
        return bool(x)
    if k in 'iu':
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            if dt.itemsize < 8 or not -2 ** 63 <= x < 2 ** 63:
                return wrap_int(x, dt)
            return x
        if isinstance(x, SymInt):
            if eng().model_overflow or dt.itemsize < 4:
                return wrap_int(x, dt)
            return x
        if isinstance(x, SymBool):
            return mkint(zint(x))
        if isinstance(x, SymReal):
            return x.trunc()
        if is_special(x):
            return _INF_INT
        if isinstance(x, str):
            return int(x)
        if isinstance(x, SymStr):
            raise ValueError('invalid literal for int()')
        if isinstance(x, SymArray) and x.size == 1:
            return cast_elem(x.a.reshape(-1)[0], dt)
        return int(x)
    if k == 'f':
        if x is None:
            return math.nan
        if isinstance(x, str):
            return norm(float(x))
        if isinstance(x, SymStr):
            raise ValueError('could not convert string to float')
        if isinstance(x, SymArray):
            if x.size == 1:
                return cast_elem(x.a.reshape(-1)[0], dt)
            raise ValueError('setting an array element with a sequence.')
        if isinstance(x, (list, tuple, dict)):
            raise TypeError('float() argument must be a string or a number')
        return tosymreal(x)
    if k in 'US':
        # what does not fit the width is cut off, as numpy does
        width = dt.itemsize // (4 if k == 'U' else 1)
        if isinstance(x, SymStr):
            if 0 < width < 6:
                raise Unsupported('cutting a symbolic string')
            return x
        if isinstance(x, SymInt):
            raise Unsupported('integer to string conversion')
        if isinstance(x, SymReal) and x.const:
            x = float(x.v)
        if not isinstance(x, (str, bytes)):
            x = str(x)
        return x[:width] if width else x
    raise Unsupported('dtype %s' % dt)


def scalar_out(x, dt):
    """what indexing an array of dtype dt yields"""
    if dt.kind == 'O':
        return x
    if type(x) is bool:
        return RN.bool_(x)
    if type(x) is int:
        return NInt(x)
    if isinstance(x, (SymInt, SymBool)) and not x.np:
        return type(x)(x.e, True)
    return x


def _cast_storage(a, dt):
    if dt.kind == 'O':
        return a.copy()
    out = RN.empty(a.shape, dtype=object)
    fo, fa = out.reshape(-1), a.reshape(-1)
    for i in range(fa.size):
        fo[i] = cast_elem(fa[i], dt)
    return out


# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------
def wrap(a, dt):
    if isinstance(a, RN.ndarray):
        return SymArray(a, dt)
    return scalar_out(a, dt)


def mk(elems, dt=None):
    """1-d array of scalars"""
    elems = [norm(e) for e in elems]
    if dt is None:
        dt = RN.result_type(*[elem_dtype(e) for e in elems]) if elems \
            else FLOAT
    a = RN.empty(len(elems), dtype=object)
    for i, e in enumerate(elems):
        a[i] = cast_elem(e, dt)
    return SymArray(a, dt)


def from_real(x):
    """real ndarray -> symbolic array"""
    if x.dtype.names is not None:
        return RecArray({n: from_real(x[n]) for n in x.dtype.names}, x.shape)
    a = RN.empty(x.shape, dtype=object)
    f, g = a.reshape(-1), x.reshape(-1)
    for i in range(g.size):
        f[i] = norm(g[i]) if x.dtype.kind != 'O' else sx(g[i])
    return SymArray(a, x.dtype)


def sx(x):
    """real numpy value -> symbolic representation"""
    if isinstance(x, RN.ndarray):
        return from_real(x)
    if isinstance(x, RN.generic):
        return scalar_out(norm(x), x.dtype)
    return x


def concrete(x):
    """Python / real numpy value of a concrete symbolic-world value"""
    if isinstance(x, SymArray):
        return x.to_real()
    if isinstance(x, SymReal):
        if x.const:
            return float(x.v)
        raise Unsupported('symbolic value in a concrete-only operation')
    if isinstance(x, Sym):
        raise Unsupported('symbolic value in a concrete-only operation')
    if isinstance(x, NInt):
        return RN.int64(int(x))
    if isinstance(x, list):
        return [concrete(i) for i in x]
    if isinstance(x, tuple):
        return tuple(concrete(i) for i in x)
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    return x


def unbox(x):
    """convert anything array-like to (storage, dtype)"""
    x = asarr(x)
    return x.a, x.dtype


def asarr(x, dt=None):
    if isinstance(x, SymArray):
        return x if dt is None or x.dtype == dt else x.astype(dt)
    return array(x, dtype=dt)


def _is_seq(x):
    return isinstance(x, (list, tuple, range, SymArray, RN.ndarray)) or (
        hasattr(x, '__symarray__')) or (
        hasattr(x, '__len__') and hasattr(x, '__getitem__') and
        not isinstance(x, (str, bytes, dict, Sym, set)) and
        not hasattr(x, '_sx_noseq'))


def struct_dtype(dtype):
    """the real structured dtype asked for, or None"""
    if isinstance(dtype, RN.dtype):
        return dtype if dtype.names else None
    if isinstance(dtype, list) and dtype and isinstance(dtype[0], tuple):
        return RN.dtype([(str(t[0]),) + tuple(
            struct_dtype(x) or (real_dtype(x) if not isinstance(
                x, (int, tuple)) else x) for x in t[1:]) for t in dtype])
    return None


def rec_from(obj, dt, copy=True):
    """structured array from a list of tuples"""
    if isinstance(obj, RN.ndarray):
        obj = from_real(obj)
    if isinstance(obj, RecArray):
        if tuple(obj.dtype.names) != tuple(dt.names):
            raise Unsupported('cast between structured dtypes')
        return obj.copy() if copy else obj
    single = isinstance(obj, tuple)
    rows = [obj] if single else list(obj)
    cols = {}
    for j, n in enumerate(dt.names):
        sub = dt.fields[n][0]
        vals = []
        for r in rows:
            if not isinstance(r, (tuple, list, RecArray)):
                raise Unsupported('structured array from %r' % type(r))
            if len(r) != len(dt.names):
                raise ValueError('could not assign tuple of length %d to '
                                 'structure with %d fields.' % (
                                     len(r), len(dt.names)))
            vals.append(r[j])
        if sub.names:
            cols[n] = rec_from(vals, sub)
            continue
        base, shape = sub.base, sub.shape
        c = _from_seq(vals, None) if vals else SymArray(
            RN.empty((0,) + shape, dtype=object), base)
        if c.shape != (len(rows),) + shape:
            raise ValueError('shape of a field')
        cols[n] = c.astype(base)
    r = RecArray(cols, (len(rows),))
    return r[0] if single else r


def array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0,
          **kw):
    rdt = struct_dtype(dtype)
    if rdt is not None:
        return rec_from(obj, rdt, copy)
    dt = real_dtype(dtype)
    if isinstance(obj, RN.ndarray):
        obj = from_real(obj)
    if isinstance(obj, RecArray):
        return obj.copy() if copy else obj
    if isinstance(obj, SymArray):
        r = obj
        if dt is not None and dt != obj.dtype:
            r = obj.astype(dt)
        elif copy:
            r = obj.copy()
    elif _is_seq(obj):
        r = _from_seq(list(obj), dt)
    else:
        o = norm(obj)
        d = dt if dt is not None else elem_dtype(obj)
        a = RN.empty((), dtype=object)
        a[()] = cast_elem(o, d)
        r = SymArray(a, d)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _from_seq(items, dt):
    parts = []
    for it in items:
        if isinstance(it, SymArray):
            parts.append(it)
        elif isinstance(it, RN.ndarray):
            parts.append(from_real(it))
        elif _is_seq(it) and not isinstance(it, RecArray):
            parts.append(_from_seq(list(it), dt))
        else:
            a = RN.empty((), dtype=object)
            d = elem_dtype(it)
            a[()] = norm(it)
            parts.append(SymArray(a, d))
    if not parts:
        return SymArray(RN.empty((0,), dtype=object),
                        dt if dt is not None else FLOAT)
    shapes = {p.shape for p in parts}
    if len(shapes) > 1:
        if dt is not None and dt.kind == 'O':
            a = RN.empty(len(items), dtype=object)
            for i, it in enumerate(items):
                a[i] = it
            return SymArray(a, OBJ)
        raise ValueError(
            'setting an array element with a sequence. The requested array '
            'has an inhomogeneous shape')
    if dt is None:
        dt = promote([p.dtype for p in parts])
    out = RN.empty((len(parts),) + parts[0].shape, dtype=object)
    for i, p in enumerate(parts):
        if p.ndim == 0:
            out[i] = cast_elem(p.a[()], dt)
        else:
            out[i] = _cast_storage(p.a, dt)
    return SymArray(out, dt)


def promote(dts):
    dts = list(dict.fromkeys(dts))
    if len(dts) == 1:
        return dts[0]
    return RN.result_type(*dts)


def has_sym(a):
    return any(isinstance(e, Sym) and not (
        isinstance(e, SymReal) and e.const) for e in a.reshape(-1))


def conc_index(i):
    """index component -> concrete"""
    if isinstance(i, SymArray):
        k = i.dtype.kind
        if k == 'b':
            r = RN.empty(i.shape, dtype=bool)
            f, g = r.reshape(-1), i.a.reshape(-1)
            for j in range(g.size):
                f[j] = bool(g[j])
            return r if i.ndim else RN.bool_(r[()])
        if k in 'iu':
            r = RN.empty(i.shape, dtype=RN.int64)
            f, g = r.reshape(-1), i.a.reshape(-1)
            for j in range(g.size):
                f[j] = int(g[j])
            return r if i.ndim else int(r[()])
        if k == 'O':
            return conc_index(array(i.a.tolist()))
        if i.size == 0 and k == 'f':
            raise IndexError('arrays used as indices must be of integer '
                             '(or boolean) type')
        raise IndexError(
            'arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, (list,)):
        if not i:
            return RN.array([], dtype=RN.intp)
        return conc_index(array(i))
    if isinstance(i, SymInt):
        return int(i)
    if isinstance(i, NInt):
        return int(i)
    if isinstance(i, SymBool):
        return RN.bool_(bool(i))
    if isinstance(i, slice):
        return slice(*[None if c is None else (
            c if isinstance(c, int) else c.__index__())
            for c in (i.start, i.stop, i.step)])
    if isinstance(i, SymReal) or isinstance(i, float):
        raise IndexError(
            'only integers, slices (`:`), ellipsis (`...`), numpy.newaxis '
            '(`None`) and integer or boolean arrays are valid indices')
    if isinstance(i, range):
        return RN.array(list(i), dtype=RN.intp)
    if isinstance(i, (str, SymStr)):
        raise IndexError('only integers, slices (`:`), ... are valid indices')
    return i


def conc_idx(idx):
    if isinstance(idx, tuple):
        return tuple(conc_index(i) for i in idx)
    return conc_index(idx)


def _sym_index_1d(idx):
    """a symbolic integer index array/scalar, or None"""
    if isinstance(idx, SymInt):
        return idx
    if isinstance(idx, SymArray) and idx.dtype.kind in 'iu' and \
            idx.ndim <= 1 and has_sym(idx.a):
        return idx
    return None


def pyscalar(x):
    """a numpy scalar as the plain Python value"""
    if isinstance(x, SymInt) and x.np:
        return SymInt(x.e)
    if isinstance(x, SymBool) and x.np:
        return SymBool(x.e)
    if isinstance(x, NInt):
        return int(x)
    return x


class SymArray:
    __symarray__ = True
    __array_ufunc__ = None
    __array_priority__ = 2000
    __slots__ = ('a', 'dtype', '_wb')

    def __init__(self, a, dt, wb=None):
        self.a = a
        self.dtype = dt
        self._wb = wb

    def __array__(self, *args, **kw):
        raise Unsupported('numpy C code applied to a symbolic array')

    def __reduce__(self):
        return (SymArray, (self.a, self.dtype))

    # -- attributes ----------------------------------------------------------
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def nbytes(self):
        return self.a.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def T(self):
        return SymArray(self.a.T, self.dtype)

    @property
    def flat(self):
        return _Flat(self)

    @property
    def base(self):
        return None if self.a.base is None else self

    @property
    def real(self):
        return self

    @property
    def flags(self):
        return self.a.flags

    def __len__(self):
        return len(self.a)

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return 'SymArray(%r, %s)' % (self.a.tolist(), self.dtype)

    def __format__(self, spec):
        return repr(self)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (wrap(self.a[i], self.dtype) if self.ndim > 1 else
                scalar_out(self.a[i], self.dtype)
                for i in range(self.a.shape[0]))

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def _one(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python '
                            'scalars')
        return self.a.reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.ndim == 0 and self.dtype.kind in 'iu':
            return int(self._one())
        raise TypeError('only integer scalar arrays can be converted to a '
                        'scalar index')

    def to_real(self):
        if has_sym(self.a):
            raise Unsupported('symbolic array in a concrete-only operation')
        if self.dtype.kind == 'O':
            r = RN.empty(self.shape, dtype=object)
            f, g = r.reshape(-1), self.a.reshape(-1)
            for i in range(g.size):
                f[i] = concrete(g[i])
            return r
        f = self.a.reshape(-1)
        return RN.array([concrete(e) for e in f],
                        dtype=self.dtype).reshape(self.shape)

    # -- indexing ------------------------------------------------------------
    def __getitem__(self, idx):
        if eng_ite():
            si = _sym_index_1d(idx)
            if si is not None and self.ndim == 1:
                return self._gather(si)
        a = self.a
        # a full integer index on object storage must not unpack elements
        r = a[conc_idx(idx)]
        if isinstance(r, RN.ndarray):
            return SymArray(r, self.dtype, self._wb)
        return scalar_out(r, self.dtype)

    def _gather(self, si):
        n = self.shape[0]

        def one(i):
            if isinstance(i, int):
                return self.a[i]
            z = i.e
            if not mkbool(z3.And(z >= -n, z < n)):
                raise IndexError('index out of bounds')
            r = self.a[n - 1]
            for j in range(n - 2, -1, -1):
                r = ite(mkbool(z3.Or(z == j, z == j - n)), self.a[j], r)
            return r
        if isinstance(si, SymInt):
            return scalar_out(one(si), self.dtype)
        out = RN.empty(si.shape, dtype=object)
        for p in range(si.size):
            out.reshape(-1)[p] = one(si.a.reshape(-1)[p])
        return SymArray(out, self.dtype)

    def __setitem__(self, idx, value):
        if isinstance(value, RN.ndarray):
            value = from_real(value)
        # masked assignment of a scalar: no fork
        if isinstance(idx, SymArray) and idx.dtype.kind == 'b' and \
                idx.shape == self.shape and has_sym(idx.a) and \
                is_scalar(value) and self.dtype.kind != 'O':
            v = cast_elem(value, self.dtype)
            f, m = self.a, idx.a
            for p in RN.ndindex(*self.shape):
                f[p] = ite_cast(m[p], v, f[p])
            return
        if eng_ite() and self.ndim == 1 and is_scalar(value) and \
                self.dtype.kind != 'O':
            si = _sym_index_1d(idx)
            if si is not None:
                return self._scatter(si, cast_elem(value, self.dtype))
        idx = conc_idx(idx)
        if self.dtype.kind == 'O':
            if isinstance(value, SymArray):
                tgt = self.a[idx]
                if isinstance(tgt, RN.ndarray):
                    self.a[idx] = value.a
                else:
                    self.a[idx] = value
                return
            self.a[idx] = value
            return
        if is_scalar(value):
            box = RN.empty((), dtype=object)
            box[()] = cast_elem(value, self.dtype)
            self.a[idx] = box if isinstance(self.a[idx], RN.ndarray) \
                else box[()]
            return
        v = asarr(value)
        tgt = self.a[idx]
        if not isinstance(tgt, RN.ndarray):
            if v.size != 1:
                raise ValueError(
                    'setting an array element with a sequence.')
            self.a[idx] = cast_elem(v.a.reshape(-1)[0], self.dtype)
            return
        vals = _cast_storage(v.a, self.dtype) if v.dtype != self.dtype \
            else v.a
        if vals.ndim == 0:
            self.a[idx] = vals[()]
        else:
            self.a[idx] = vals

    def _scatter(self, si, v):
        n = self.shape[0]
        for i in ([si] if isinstance(si, SymInt) else si.a.reshape(-1)):
            if isinstance(i, int):
                self.a[i] = v
                continue
            z = i.e
            if not mkbool(z3.And(z >= -n, z < n)):
                raise IndexError('index out of bounds')
            for j in range(n):
                self.a[j] = ite_cast(
                    mkbool(z3.Or(z == j, z == j - n)), v, self.a[j])

    # -- conversions ---------------------------------------------------------
    def copy(self, order='C'):
        return SymArray(self.a.copy(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        if self.dtype.kind == 'O':
            import copy as C
            out = RN.empty(self.shape, dtype=object)
            for p in RN.ndindex(*self.shape):
                out[p] = C.deepcopy(self.a[p], memo)
            return SymArray(out, self.dtype)
        return self.copy()

    def astype(self, dt, copy=True, **kw):
        dt = real_dtype(dt)
        if dt == self.dtype:
            return self.copy() if copy else self
        if dt.kind == 'U' and dt.itemsize == 0:
            dt = RN.dtype('<U21') if self.dtype.kind != 'U' else self.dtype
        return SymArray(_cast_storage(self.a, dt), dt)

    def view(self, dt=None, *a):
        if dt is None or dt is SymArray:
            return SymArray(self.a[...], self.dtype)
        dt = real_dtype(dt)
        if dt.names is not None:
            return RecView(self, dt)
        if dt == self.dtype:
            return SymArray(self.a[...], self.dtype)
        raise Unsupported('view as %s' % dt)

    def tolist(self):
        if self.dtype.kind == 'O':
            def c(x):
                if isinstance(x, RN.ndarray):
                    return [c(i) for i in x]
                return x
            return c(self.a) if self.ndim else self.a[()]
        def p(x):
            if isinstance(x, list):
                return [p(i) for i in x]
            return pyscalar(x)
        return p(self.a.tolist() if self.ndim else self.a[()])

    def item(self, *i):
        if not i:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a '
                                 'Python scalar')
            return pyscalar(self.a.reshape(-1)[0])
        if len(i) == 1 and not isinstance(i[0], tuple):
            return pyscalar(self.a.reshape(-1)[i[0]])
        return pyscalar(self.a[i if len(i) > 1 else i[0]])

    def fill(self, v):
        self.a[...] = cast_elem(v, self.dtype)

    def ravel(self, order='C'):
        return SymArray(self.a.ravel(order), self.dtype)

    def flatten(self, order='C'):
        return SymArray(self.a.flatten(order), self.dtype)

    def reshape(self, *s, **kw):
        if len(s) == 1 and not isinstance(s[0], int):
            s = s[0]
        if isinstance(s, SymArray):
            s = tuple(s)
        s = (int(s),) if isinstance(s, Sym) else tuple(
            int(i) for i in (s if isinstance(s, (tuple, list)) else (s,)))
        return SymArray(self.a.reshape(s, **kw), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dtype)

    def transpose(self, *ax):
        return SymArray(self.a.transpose(*ax), self.dtype)

    def swapaxes(self, i, j):
        return SymArray(self.a.swapaxes(i, j), self.dtype)

    def repeat(self, repeats, axis=None):
        r = conc_index(repeats) if isinstance(repeats, (SymArray, list)) \
            else int(repeats)
        return SymArray(self.a.repeat(r, axis), self.dtype)

    def take(self, indices, axis=None, out=None, mode='raise'):
        ind = indices
        if not isinstance(ind, (SymArray, int, SymInt)):
            ind = asarr(ind)
        if isinstance(ind, SymArray) and ind.size == 0:
            ind = RN.zeros(ind.shape, dtype=RN.intp)
        else:
            ind = conc_index(ind)
        r = self.a.take(ind, axis=axis, mode=mode)
        return wrap(r, self.dtype)

    def compress(self, cond, axis=None, out=None):
        c = conc_index(asarr(cond).astype(bool))
        return SymArray(self.a.compress(c, axis=axis), self.dtype)

    def diagonal(self, *a):
        return SymArray(self.a.diagonal(*a).copy(), self.dtype)

    def sort(self, axis=-1, kind=None, order=None):
        from . import npfun
        self.a[...] = npfun.sort(self, axis=axis).a

    def put(self, idx, vals):
        self.ravel()[idx] = vals

    def resize(self, *a, **k):
        raise Unsupported('ndarray.resize')

    def setflags(self, *a, **k):
        pass

    def tobytes(self, *a):
        return self.to_real().tobytes()

    def __getattr__(self, name):
        # methods implemented as functions
        if name.startswith('_'):
            raise AttributeError(name)
        from . import npfun
        if name in npfun.METHODS:
            f = npfun.METHODS[name]
            return lambda *a, **k: f(self, *a, **k)
        raise AttributeError(
            "'numpy.ndarray' object has no attribute %r" % name)

    # -- operators -----------------------------------------------------------
    def _inplace(self, name, o):
        from . import npfun
        r = npfun.UF[name](self, o)
        r = asarr(r)
        if not RN.can_cast(r.dtype, self.dtype, 'same_kind'):
            raise RN.core._exceptions._UFuncOutputCastingError(
                RN.add, 'same_kind', r.dtype, self.dtype, 0)
        v = r.a if r.dtype == self.dtype else _cast_storage(r.a, self.dtype)
        self.a[...] = v[()] if v.ndim == 0 else v
        return self


def eng_ite():
    return core.ENG is not None and getattr(core.ENG, 'ite_index', False)


def ite_cast(c, a, b):
    return ite(c, a, b)


def _install():
    names = {
        'add': 'add', 'sub': 'subtract', 'mul': 'multiply',
        'truediv': 'true_divide', 'floordiv': 'floor_divide',
        'mod': 'remainder', 'pow': 'power', 'and': 'bitwise_and',
        'or': 'bitwise_or', 'xor': 'bitwise_xor'}

    def mkops(py, uf):
        def f(self, o):
            from . import npfun
            if o is None or isinstance(o, (str, dict)):
                if uf not in ('equal', 'not_equal'):
                    return NotImplemented
            return npfun.UF[uf](self, o)

        def r(self, o):
            from . import npfun
            return npfun.UF[uf](o, self)

        def i(self, o):
            return self._inplace(uf, o)
        return f, r, i
    for py, uf in names.items():
        f, r, i = mkops(py, uf)
        setattr(SymArray, '__%s__' % py, f)
        setattr(SymArray, '__r%s__' % py, r)
        setattr(SymArray, '__i%s__' % py, i)
    for py, uf in {'lt': 'less', 'le': 'less_equal', 'gt': 'greater',
                   'ge': 'greater_equal', 'eq': 'equal',
                   'ne': 'not_equal'}.items():
        setattr(SymArray, '__%s__' % py, mkops(py, uf)[0])
    for py, uf in {'neg': 'negative', 'pos': 'positive', 'abs': 'absolute',
                   'invert': 'invert'}.items():
        def u(self, uf=uf):
            from . import npfun
            return npfun.UF[uf](self)
        setattr(SymArray, '__%s__' % py, u)

    def matmul(self, o):
        from . import npfun
        return npfun.matmul(self, o)

    def rmatmul(self, o):
        from . import npfun
        return npfun.matmul(o, self)

    def divmod_(self, o):
        return self // o, self % o
    SymArray.__matmul__ = matmul
    SymArray.__rmatmul__ = rmatmul
    SymArray.__divmod__ = divmod_


_install()


class _Flat:
    def __init__(self, arr):
        self.arr = arr

    def __iter__(self):
        return iter(self.arr.ravel())

    def __len__(self):
        return self.arr.size

    def __getitem__(self, i):
        return self.arr.ravel()[i]

    def __setitem__(self, i, v):
        if self.arr.ndim == 1:
            self.arr[i] = v
            return
        flat = self.arr.ravel().copy()
        flat[i] = v
        self.arr.a[...] = flat.a.reshape(self.arr.shape)


class SymMatrix(SymArray):
    """numpy.matrix returned by sparse reductions"""
    __slots__ = ()

    def ravel(self, order='C'):
        return SymMatrix(self.a.reshape(1, -1), self.dtype)

    flatten = ravel

    @property
    def A(self):
        return SymArray(self.a, self.dtype)

    @property
    def A1(self):
        return SymArray(self.a.reshape(-1), self.dtype)


class RecView:
    """structured view of a 1-d float buffer"""
    __symarray__ = True
    _sx_noseq = True

    def __init__(self, arr, dt, rec=None):
        if arr.ndim != 1:
            raise Unsupported('structured view of a non-vector')
        n = dt.itemsize // arr.dtype.itemsize
        if rec is None:
            if n == 0 or arr.size % n or dt.itemsize % arr.dtype.itemsize:
                raise ValueError(
                    'When changing to a larger dtype, its size must be a '
                    'divisor of the total size in bytes of the last axis of '
                    'the array.')
        self.arr, self.dt, self.n, self.rec = arr, dt, n, rec

    @property
    def dtype(self):
        return self.dt

    @property
    def shape(self):
        return () if self.rec is not None else (self.arr.size // self.n,)

    def __len__(self):
        return self.shape[0]

    def _field(self, name):
        f, off = self.dt.fields[name][:2]
        base, sh = (f.subdtype if f.subdtype is not None else (f, ()))
        if base != self.arr.dtype:
            raise Unsupported('structured view with mixed types')
        it = self.arr.dtype.itemsize
        k = off // it
        m = int(RN.prod(sh, dtype=int)) if sh else 1
        return k, m, sh

    def _view(self, name, r):
        k, m, sh = self._field(name)
        a = self.arr.a[r * self.n + k:r * self.n + k + m]
        v = a.reshape(sh)
        return SymArray(v, self.arr.dtype)

    def __getitem__(self, i):
        if isinstance(i, str):
            if i not in self.dt.fields:
                raise ValueError('no field of name %s' % i)
            if self.rec is not None:
                v = self._view(i, self.rec)
                return scalar_out(v.a[()], v.dtype) if v.ndim == 0 else v
            if self.shape[0] == 1:
                v = self._view(i, 0)
                return SymArray(v.a[None], v.dtype)
            k, m, sh = self._field(i)
            rows = self.arr.a.reshape(-1, self.n)[:, k:k + m]
            return SymArray(rows.reshape((self.shape[0],) + sh),
                            self.arr.dtype)
        i = conc_index(i)
        if isinstance(i, int):
            if i < 0:
                i += self.shape[0]
            if not 0 <= i < self.shape[0]:
                raise IndexError('index out of bounds')
            return RecView(self.arr, self.dt, i)
        raise Unsupported('structured view index')

    def __setitem__(self, i, v):
        if isinstance(i, str):
            self[i][...] = v
            return
        raise Unsupported('structured view assignment')


def _boxed(x):
    if isinstance(x, RN.ndarray):
        return x
    b = RN.empty((), dtype=object)
    b[()] = x
    return b


class RecArray:
    """structured array: a dict of columns"""
    __symarray__ = True
    _sx_noseq = True

    def __init__(self, cols, shape):
        self.cols = cols
        self.shape = tuple(shape)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(RN.prod(self.shape, dtype=int))

    @property
    def dtype(self):
        return RN.dtype([(n, c.dtype, c.shape[self.ndim:])
                         for n, c in self.cols.items()])

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(self.shape[0]))

    def __getitem__(self, i):
        if isinstance(i, str):
            if i not in self.cols:
                raise ValueError('no field of name %s' % i)
            c = self.cols[i]
            if c.ndim == 0 and getattr(self, 'is_rec', False):
                return scalar_out(c.a[()], c.dtype)
            return c
        if isinstance(i, list) and i and isinstance(i[0], str):
            return RecArray({n: self.cols[n] for n in i}, self.shape)
        i = conc_idx(i)
        if i == () if isinstance(i, tuple) else False:
            r = RecArray(self.cols, ())
            r.is_rec = True
            return r
        if not self.shape:
            raise IndexError('too many indices for array')
        dummy = RN.empty(self.shape, dtype=RN.int8)[i]
        cols = {n: SymArray(_boxed(c.a[i]), c.dtype)
                for n, c in self.cols.items()}
        if isinstance(dummy, RN.ndarray):
            return RecArray(cols, dummy.shape)
        r = RecArray(cols, ())
        r.is_rec = True
        return r

    def __setitem__(self, i, v):
        if isinstance(i, str):
            self.cols[i][...] = v
            return
        if isinstance(v, RecArray):
            for n in self.cols:
                self.cols[n][i] = v.cols[n]
            return
        raise Unsupported('structured array assignment')

    def copy(self, *a):
        return RecArray({n: c.copy() for n, c in self.cols.items()},
                        self.shape)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def reshape(self, *s, **k):
        if len(s) == 1 and not isinstance(s[0], int):
            s = tuple(s[0])
        d = RN.empty(self.shape, dtype=RN.int8).reshape(s)
        return RecArray({n: c.reshape(d.shape + c.shape[self.ndim:])
                         for n, c in self.cols.items()}, d.shape)

    def ravel(self, *a):
        return self.reshape((-1,))

    flatten = ravel

    def squeeze(self):
        return self.reshape(tuple(s for s in self.shape if s != 1))

    def take(self, idx, axis=None, **k):
        return self[asarr(idx)]

    def compress(self, cond, axis=None):
        return self[asarr(cond).astype(bool)]

    def tolist(self):
        names = list(self.cols)
        if not self.shape:
            return tuple(self.cols[n].tolist() for n in names)
        return [tuple(self.cols[n][i].tolist()
                      if isinstance(self.cols[n][i], SymArray)
                      else self.cols[n].a[i] for n in names)
                for i in range(self.shape[0])]

    def astype(self, dt, copy=True):
        dt = real_dtype(dt)
        if dt == self.dtype:
            return self.copy() if copy else self
        raise Unsupported('astype of a structured array')

    def view(self, *a):
        raise Unsupported('view of a structured array')

    def __eq__(self, o):
        raise Unsupported('comparison of structured arrays')

    __hash__ = None
