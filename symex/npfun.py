"""numpy functions over symbolic arrays."""
import math
import builtins
import numbers
import itertools
from fractions import Fraction

import numpy as RN
import z3

from . import core
from .core import (
    Sym, SymBool, SymInt, SymReal, SymStr, NInt, Unsupported, eng, mkbool,
    mkint, mkreal, zint, zreal, zbool, tosymreal, is_special, isnan, ite, bnot)
from .nparr import (
    SymArray, SymMatrix, RecArray, RecView, array, asarr, wrap, mk, norm,
    cast_elem, _cast_storage, real_dtype, elem_dtype, scalar_out, promote,
    is_scalar, conc_index, conc_idx, has_sym, from_real, sx, concrete,
    BOOL, INT, FLOAT, OBJ, wrap_int, _is_seq)


# ---------------------------------------------------------------------------
# scalar kernels (elements normalised: bool/int/SymReal/special/Sym*)
# ---------------------------------------------------------------------------
def _isb(x):
    return isinstance(x, (bool, SymBool))


def _isi(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool)


def k_add(a, b):
    if _isb(a) and _isb(b):
        return k_or(a, b)
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        raise Unsupported('string concatenation')
    return a + b


def k_sub(a, b):
    if _isb(a) and _isb(b):
        raise TypeError('numpy boolean subtract, the `-` operator, is not '
                        'supported')
    return a - b


def k_mul(a, b):
    if _isb(a) and _isb(b):
        return k_and(a, b)
    return a * b


def k_div(a, b):
    return SymReal._div(tosymreal(a), tosymreal(b))


def k_floordiv(a, b):
    if (_isi(a) or _isb(a)) and (_isi(b) or _isb(b)):
        b = as_int(b)
        z = b == 0
        if z if isinstance(z, bool) else bool(z):
            return 0
        return as_int(a) // b
    a, b = tosymreal(a), tosymreal(b)
    r = SymReal._div(a, b)
    return r if is_special(r) else tosymreal(r.floor_())


def k_mod(a, b):
    if (_isi(a) or _isb(a)) and (_isi(b) or _isb(b)):
        b = as_int(b)
        z = b == 0
        if z if isinstance(z, bool) else bool(z):
            return 0
        return as_int(a) % b
    a, b = tosymreal(a), tosymreal(b)
    if is_special(a) or isnan(b):
        return math.nan
    if is_special(b):
        return a
    if b == 0:
        return math.nan
    return a - b * k_floordiv(a, b)


def as_int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, SymBool):
        return mkint(zint(x))
    return x


def k_pow(a, b):
    if _isi(a) and _isi(b):
        if isinstance(b, SymInt):
            b = int(b)
        if b < 0:
            raise ValueError(
                'Integers to negative integer powers are not allowed.')
        r = 1
        for _ in range(b):
            r = r * a
        return r
    if is_special(a):
        bb = concrete(b)
        return norm(float(RN.power(a, bb)))
    if is_special(b):
        raise Unsupported('infinite exponent')
    a = tosymreal(a)
    if isinstance(b, SymInt):
        b = int(b)
    r = a ** b if not isinstance(b, SymReal) else a.__pow__(b)
    return r


def k_neg(a):
    if _isb(a):
        raise TypeError('The numpy boolean negative, the `-` operator, is '
                        'not supported')
    return -a


def k_abs(a):
    return abs(a) if not isinstance(a, SymBool) else a


def _tz(x):
    """truth as bool / SymBool"""
    if isinstance(x, (bool, SymBool)):
        return x
    if isinstance(x, Sym):
        return mkbool(zbool(x))
    return builtins.bool(x)


def k_and(a, b):
    a, b = _tz(a), _tz(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mkbool(z3.And(a.e, b.e), True)


def k_or(a, b):
    a, b = _tz(a), _tz(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mkbool(z3.Or(a.e, b.e), True)


def k_xor(a, b):
    a, b = _tz(a), _tz(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return mkbool(z3.Xor(zbool(a), zbool(b)), True)


def k_not(a):
    return bnot(_tz(a))


def k_bitand(a, b):
    if _isb(a) and _isb(b):
        return k_and(a, b)
    return int(a) & int(b)


def k_bitor(a, b):
    if _isb(a) and _isb(b):
        return k_or(a, b)
    return int(a) | int(b)


def k_bitxor(a, b):
    if _isb(a) and _isb(b):
        return k_xor(a, b)
    return int(a) ^ int(b)


def k_invert(a):
    if _isb(a):
        return k_not(a)
    return -a - 1


def _n(x):
    return x._i() if isinstance(x, SymBool) else x


def _cmpk(f, nanv=False):
    def k(a, b):
        if isnan(a) or isnan(b):
            return nanv
        r = f(_n(a), _n(b))
        if r is NotImplemented:
            raise TypeError('comparison not supported')
        return r
    return k


k_lt = _cmpk(lambda a, b: a < b)
k_le = _cmpk(lambda a, b: a <= b)
k_gt = _cmpk(lambda a, b: a > b)
k_ge = _cmpk(lambda a, b: a >= b)
k_eq = _cmpk(lambda a, b: a == b)
k_ne = _cmpk(lambda a, b: a != b, True)


def k_max(a, b):
    if isnan(a):
        return a
    if isnan(b):
        return b
    return ite(k_ge(a, b), a, b)


def k_min(a, b):
    if isnan(a):
        return a
    if isnan(b):
        return b
    return ite(k_le(a, b), a, b)


def k_fmax(a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return k_max(a, b)


def k_fmin(a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return k_min(a, b)


def k_sign(a):
    if isnan(a):
        return a
    if _isi(a):
        return ite(k_gt(a, 0), 1, ite(k_lt(a, 0), -1, 0))
    return ite(k_gt(a, 0), tosymreal(1), ite(k_lt(a, 0), tosymreal(-1),
                                             tosymreal(0)))


def k_isnan(a):
    return isnan(a)


def k_isfinite(a):
    return not is_special(a)


def k_isinf(a):
    return is_special(a) and not isnan(a)


def k_floor(a):
    return a if is_special(a) else tosymreal(tosymreal(a).floor_())


def k_ceil(a):
    return a if is_special(a) else tosymreal(tosymreal(a).ceil_())


def k_trunc(a):
    return a if is_special(a) else tosymreal(tosymreal(a).trunc())


def k_rint(a):
    return a if is_special(a) else tosymreal(tosymreal(a).round_())


def k_log1p(a):
    return core.uf_log(k_add(tosymreal(1), tosymreal(a)))


def k_expm1(a):
    r = core.uf_exp(a)
    return r if is_special(r) else r - 1


def k_tanh(a):
    r = core.uf_expit(tosymreal(a) * 2)
    return r * 2 - 1


def k_logaddexp(a, b):
    return core.uf_log(core.uf_exp(a) + core.uf_exp(b))


def k_where(c, a, b):
    return ite(_tz(c), a, b)


def k_copysign(a, b):
    a = k_abs(tosymreal(a))
    return ite(k_ge(b, 0), a, k_neg(a))


def k_heaviside(x, h):
    return ite(k_gt(x, 0), tosymreal(1),
               ite(k_lt(x, 0), tosymreal(0), tosymreal(h)))


def k_fmod(a, b):
    return k_sub(a, k_mul(k_trunc(k_div(a, b)), b))


def _k_log(base):
    return lambda a: k_div(core.uf_log(a), core.uf_log(tosymreal(base)))


KERNELS = {
    'add': (2, k_add), 'subtract': (2, k_sub), 'multiply': (2, k_mul),
    'divide': (2, k_div), 'true_divide': (2, k_div),
    'floor_divide': (2, k_floordiv), 'remainder': (2, k_mod),
    'mod': (2, k_mod), 'power': (2, k_pow), 'float_power': (2, k_pow),
    'negative': (1, k_neg), 'positive': (1, lambda a: a),
    'absolute': (1, k_abs), 'abs': (1, k_abs),
    'fabs': (1, lambda a: k_abs(tosymreal(a))),
    'sign': (1, k_sign), 'sqrt': (1, core.uf_sqrt),
    'square': (1, lambda a: k_mul(a, a)),
    'reciprocal': (1, lambda a: k_div(1, a)),
    'exp': (1, core.uf_exp), 'expm1': (1, k_expm1),
    'log': (1, core.uf_log), 'log1p': (1, k_log1p), 'tanh': (1, k_tanh),
    'logaddexp': (2, k_logaddexp),
    'maximum': (2, k_max), 'minimum': (2, k_min), 'fmax': (2, k_fmax),
    'fmin': (2, k_fmin), 'less': (2, k_lt), 'less_equal': (2, k_le),
    'greater': (2, k_gt), 'greater_equal': (2, k_ge), 'equal': (2, k_eq),
    'not_equal': (2, k_ne), 'logical_and': (2, k_and),
    'logical_or': (2, k_or), 'logical_xor': (2, k_xor),
    'logical_not': (1, k_not), 'bitwise_and': (2, k_bitand),
    'bitwise_or': (2, k_bitor), 'bitwise_xor': (2, k_bitxor),
    'invert': (1, k_invert), 'bitwise_not': (1, k_invert),
    'isfinite': (1, k_isfinite), 'isnan': (1, k_isnan),
    'isinf': (1, k_isinf), 'floor': (1, k_floor), 'ceil': (1, k_ceil),
    'trunc': (1, k_trunc), 'rint': (1, k_rint),
    'conjugate': (1, lambda a: a),
    'expit': (1, core.uf_expit), 'copysign': (2, k_copysign),
    'heaviside': (2, k_heaviside), 'fmod': (2, k_fmod),
    'log2': (1, _k_log(2)), 'log10': (1, _k_log(10)),
}
BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
           'not_equal', 'logical_and', 'logical_or', 'logical_xor',
           'logical_not', 'isfinite', 'isnan', 'isinf'}
_dt_cache = {}


def _weak(x):
    """operand for dtype inference: dtype, or 'i'/'f'/'b' weak scalar"""
    if isinstance(x, SymArray):
        return x.dtype if x.ndim else (x.dtype, 0)
    if isinstance(x, RN.ndarray):
        return x.dtype
    if isinstance(x, (bool, SymBool, RN.bool_)):
        return 'b'
    if isinstance(x, (SymInt, int, RN.integer)):
        return 'i'
    if isinstance(x, (SymReal, float, Fraction, RN.floating)):
        return 'f'
    if isinstance(x, (str, SymStr)):
        return 's'
    return OBJ


def result_dtype(name, args):
    ws = tuple(_weak(a) for a in args)
    if name in BOOLRES:
        return BOOL
    key = (name, ws)
    if key in _dt_cache:
        return _dt_cache[key]
    if any(w == OBJ for w in ws if not isinstance(w, (str, tuple))):
        return OBJ
    uf = getattr(RN, name) if name != 'expit' else RN.exp
    dummies = []
    for w in ws:
        if isinstance(w, str):
            dummies.append({'b': True, 'i': 1, 'f': 1.0, 's': 'a'}[w])
        elif isinstance(w, tuple):
            dummies.append(RN.ones((), dtype=w[0]))
        else:
            dummies.append(RN.ones(1, dtype=w))
    if any(isinstance(d, str) or (isinstance(d, RN.ndarray) and
                                  d.dtype.kind in 'US') for d in dummies):
        raise TypeError("ufunc '%s' did not contain a loop with signature "
                        "matching types" % name)
    with RN.errstate(all='ignore'):
        r = uf(*dummies)
    dt = RN.asarray(r).dtype
    if dt == RN.float16 or dt == RN.float32:
        pass
    _dt_cache[key] = dt
    return dt


class UFunc:
    _sx_callable = True

    def __init__(self, name):
        self.__name__ = name
        self.name = name
        self.nin, self.k = KERNELS[name]
        self.nout = 1
        k = self.k
        self.py = RN.frompyfunc(k, self.nin, 1)

    def __repr__(self):
        return '<ufunc %r>' % self.name

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None,
                 **kw):
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if isinstance(out, tuple):
            out = out[0]
        name = self.name
        ops, dts = [], []
        for i, x in enumerate(args):
            if isinstance(x, RN.ndarray):
                x = from_real(x)
            if hasattr(x, '_sx_sparse'):
                return x._ufunc(name, args)
            if is_scalar(x) and not isinstance(x, SymArray):
                dts.append(x)
                b = RN.empty((), dtype=object)
                b[()] = norm(x)
                ops.append(b)
            elif isinstance(x, SymArray):
                dts.append(x)
                ops.append(x.a)
            elif _is_seq(x):
                x = array(x)
                dts.append(x)
                ops.append(x.a)
            else:
                dts.append(x)
                b = RN.empty((), dtype=object)
                b[()] = x
                ops.append(b)
        dt = result_dtype(name, dts)
        if dtype is not None:
            dt = real_dtype(dtype)
            ops = [_cast_storage(o, dt) for o in ops]
        if name in ('equal', 'not_equal'):
            # comparison of numbers and strings
            ks = [('s' if (isinstance(d, (str, SymStr)) or (
                isinstance(d, SymArray) and d.dtype.kind in 'US')) else 'n')
                for d in dts]
        r = self.py(*ops)
        if dt.kind in 'iuf' and dt.kind != 'O':
            kinds = {d.dtype.kind if isinstance(d, SymArray) else 'x'
                     for d in dts}
            if dt.kind == 'f' or 'b' in kinds or self._wraps(dt):
                if isinstance(r, RN.ndarray):
                    r = _cast_storage(r, dt)
                else:
                    r = cast_elem(r, dt)
        scalar = not isinstance(r, RN.ndarray)
        if where is not True:
            w = conc_index(asarr(where))
            base = out.a.copy() if out is not None else RN.full(
                RN.shape(r), cast_elem(0, dt), dtype=object)
            rr = RN.asarray(r, dtype=object)
            w = RN.broadcast_to(w, base.shape)
            rr = RN.broadcast_to(rr, base.shape)
            for p in RN.ndindex(*base.shape):
                if w[p]:
                    base[p] = rr[p]
            r = base
            scalar = False
        if out is not None:
            v = r if out.dtype == dt else (
                _cast_storage(r, out.dtype) if not scalar
                else cast_elem(r, out.dtype))
            out.a[...] = v
            return out
        if scalar:
            return scalar_out(r, dt)
        return SymArray(r, dt)

    def _wraps(self, dt):
        return core.ENG is not None and core.ENG.model_overflow or \
            dt.itemsize < 8

    # -- reductions ----------------------------------------------------------
    IDENT = {'add': 0, 'multiply': 1, 'logical_and': True,
             'logical_or': False, 'bitwise_or': 0, 'bitwise_xor': 0}

    def reduce(self, arr, axis=0, dtype=None, out=None, keepdims=False,
               initial=None, where=True):
        arr = asarr(arr)
        if where is not True:
            ident = self.IDENT[self.name]
            arr = where_(where, arr, cast_elem(ident, arr.dtype))
        dt = arr.dtype
        if dtype is not None:
            dt = real_dtype(dtype)
        elif self.name in ('add', 'multiply') and dt.kind in 'b':
            dt = INT
        elif self.name in ('add', 'multiply') and dt.kind in 'iu' and \
                dt.itemsize < 8:
            dt = INT if dt.kind == 'i' else RN.dtype('uint64')
        elif self.name.startswith('logical'):
            dt = BOOL
        st = arr.a if dt == arr.dtype else _cast_storage(arr.a, dt)
        if axis is None:
            axes = tuple(range(st.ndim))
        elif isinstance(axis, tuple):
            axes = tuple(int(x) % st.ndim for x in axis)
        else:
            axis = int(axis)
            if not -max(st.ndim, 1) <= axis < max(st.ndim, 1):
                raise RN.AxisError(axis, st.ndim)
            axes = (axis % st.ndim,) if st.ndim else ()
        shape = st.shape
        rest = [i for i in range(st.ndim) if i not in axes]
        st2 = st.transpose(rest + list(axes)).reshape(
            tuple(shape[i] for i in rest) + (-1,)) if st.ndim and (
                st.size) else RN.empty(
                    tuple(shape[i] for i in rest) + (
                        int(RN.prod([shape[i] for i in axes], dtype=int))
                        if axes else 1,), dtype=object)
        if st.ndim == 0:
            st2 = st.reshape(1)
        outer = st2.shape[:-1]
        res = RN.empty(outer, dtype=object)
        for p in RN.ndindex(*outer):
            row = st2[p]
            acc = None if initial is None else cast_elem(initial, dt)
            for e in row:
                if acc is None:
                    acc = e
                else:
                    acc = self.k(acc, e)
                    if dt.kind in 'iu' and self._wraps(dt):
                        acc = cast_elem(acc, dt)
            if acc is None:
                if self.name not in self.IDENT:
                    raise ValueError(
                        'zero-size array to reduction operation %s which '
                        'has no identity' % self.name)
                acc = cast_elem(self.IDENT[self.name], dt)
            elif self.name.startswith('logical'):
                acc = _tz(acc)
            res[p] = acc
        if keepdims:
            res = res.reshape(tuple(
                1 if i in axes else s for i, s in enumerate(shape)))
        if out is not None:
            out.a[...] = _cast_storage(res, out.dtype)
            return out
        if res.ndim == 0:
            return scalar_out(res[()], dt)
        return SymArray(res, dt)

    def accumulate(self, arr, axis=0, dtype=None, out=None):
        arr = asarr(arr)
        dt = real_dtype(dtype) or arr.dtype
        if dt.kind == 'b' and self.name in ('add', 'multiply'):
            dt = INT
        st = _cast_storage(arr.a, dt)
        st = RN.moveaxis(st, axis, 0)
        res = st.copy()
        for i in range(1, st.shape[0]):
            for p in RN.ndindex(*st.shape[1:]):
                res[(i,) + p] = self.k(res[(i - 1,) + p], st[(i,) + p])
        return SymArray(RN.moveaxis(res, 0, axis), dt)

    def at(self, a, idx, b=None):
        idx = conc_idx(idx)
        pos = RN.arange(a.size).reshape(a.shape)[idx]
        fl = list(RN.ndindex(*a.shape))
        pos = RN.asarray(pos)
        if b is None:
            for q in pos.ravel():
                a.a[fl[q]] = self.k(a.a[fl[q]])
            return
        vb = RN.broadcast_to(asarr(b).a, pos.shape)
        for q, v in zip(pos.ravel(), vb.ravel()):
            a.a[fl[q]] = cast_elem(self.k(a.a[fl[q]], v), a.dtype)

    def outer(self, a, b, **kw):
        a, b = asarr(a), asarr(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b, **kw)

    def reduceat(self, *a, **k):
        raise Unsupported('ufunc.reduceat')


UF = {n: UFunc(n) for n in KERNELS}


# ---------------------------------------------------------------------------
# reductions and statistics
# ---------------------------------------------------------------------------
def _axis(a):
    return a


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
         where=True):
    if hasattr(a, '_sx_sparse'):
        return a.sum(axis=axis)
    if hasattr(a, '__next__'):
        a = list(a)
    if isinstance(a, SymMatrix) and axis is not None:
        keepdims = True
    return UF['add'].reduce(a, axis, dtype, out, keepdims, initial, where)


def prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return UF['multiply'].reduce(a, axis, dtype, out, keepdims)


def all_(a, axis=None, out=None, keepdims=False, **kw):
    return UF['logical_and'].reduce(a, axis, None, out, keepdims, **kw)


def any_(a, axis=None, out=None, keepdims=False, **kw):
    return UF['logical_or'].reduce(a, axis, None, out, keepdims, **kw)


def max_(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return UF['maximum'].reduce(a, axis, None, out, keepdims, initial)


def min_(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return UF['minimum'].reduce(a, axis, None, out, keepdims, initial)


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        return int(RN.prod([a.shape[i] for i in axis], dtype=int))
    return a.shape[axis]


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if hasattr(a, '_sx_sparse'):
        return a.mean(axis=axis)
    a = asarr(a)
    if a.dtype.kind in 'US':
        raise TypeError('cannot perform reduce with flexible type')
    s = UF['add'].reduce(a.astype(FLOAT), axis, FLOAT, None, keepdims)
    return UF['true_divide'](s, _count(a, axis), out=out)


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = asarr(a).astype(FLOAT)
    m = mean(a, axis=axis, keepdims=True)
    d = UF['subtract'](a, m)
    s = UF['add'].reduce(UF['multiply'](d, d), axis, FLOAT, None, keepdims)
    n = _count(a, axis) - ddof
    return UF['true_divide'](s, n if n > 0 else 0)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return UF['sqrt'](var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarr(a)
    if weights is None:
        r = mean(a, axis, keepdims=keepdims)
        return (r, a.size) if returned else r
    w = asarr(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and '
                            'weights differ.')
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    tot = sum_(UF['multiply'](w, ones(a.shape)), axis=axis)
    z = UF['equal'](tot, 0)
    if bool(any_(z)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = UF['true_divide'](sum_(UF['multiply'](a, w), axis=axis), tot)
    return (r, tot) if returned else r


def _nanfilter(a):
    a = asarr(a)
    keep = [e for e in a.a.reshape(-1) if not isnan(e)]
    return SymArray(_objarr(keep), a.dtype)


def _objarr(lst):
    r = RN.empty(len(lst), dtype=object)
    for i, e in enumerate(lst):
        r[i] = e
    return r


def _nan(f):
    def g(a, axis=None, **kw):
        a = asarr(a)
        if not builtins.any(isnan(e) for e in a.a.reshape(-1)):
            return f(a, axis=axis, **kw)
        if axis is None:
            return f(_nanfilter(a), **kw)
        return apply_along_axis(lambda r: f(_nanfilter(r), **kw), axis, a)
    return g


nanmean, nanstd, nanvar, nansum, nanmax, nanmin = (
    _nan(f) for f in (mean, std, var, sum_, max_, min_))


def _argbest(row, better):
    for i, e in enumerate(row):
        if isnan(e):
            return i
    if len(row) == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    bi, bv = 0, row[0]
    for i in range(1, len(row)):
        c = better(row[i], bv)
        bi = ite(c, i, bi)
        bv = ite(c, row[i], bv)
    return bi


def _arg(better):
    def f(a, axis=None, out=None, **kw):
        a = asarr(a)
        if axis is None:
            return scalar_out(_argbest(a.a.reshape(-1), better), INT)
        m = RN.moveaxis(a.a, int(axis), -1)
        res = RN.empty(m.shape[:-1], dtype=object)
        for p in RN.ndindex(*res.shape):
            res[p] = _argbest(m[p], better)
        return SymArray(res, INT) if res.ndim else scalar_out(res[()], INT)
    return f


argmax, argmin = _arg(k_gt), _arg(k_lt)


def count_nonzero(a, axis=None, keepdims=False):
    if hasattr(a, '_sx_sparse'):
        return a.count_nonzero()
    a = asarr(a)
    b = SymArray(RN.frompyfunc(_tz, 1, 1)(a.a) if a.ndim else _box(
        _tz(a.a[()])), BOOL)
    return sum_(b, axis=axis, keepdims=keepdims)


def _box(x):
    r = RN.empty((), dtype=object)
    r[()] = x
    return r


def cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return UF['add'].accumulate(a, axis, dtype)


def cumprod(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return UF['multiply'].accumulate(a, axis, dtype)


def diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    for _ in range(n):
        m = RN.moveaxis(a.a, axis, 0)
        hi = SymArray(RN.moveaxis(m[1:], 0, axis), a.dtype)
        lo = SymArray(RN.moveaxis(m[:-1], 0, axis), a.dtype)
        a = UF['not_equal' if a.dtype.kind == 'b' else 'subtract'](hi, lo)
    return a


def ediff1d(a):
    return diff(asarr(a).ravel())


def ptp(a, axis=None):
    return UF['subtract'](max_(a, axis=axis), min_(a, axis=axis))


def median(a, axis=None, **kw):
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        return apply_along_axis(median, axis, a)
    s = sort(a.ravel().astype(FLOAT))
    n = s.size
    if n == 0:
        return math.nan
    if builtins.any(isnan(e) for e in s.a):
        return math.nan
    if n % 2:
        return scalar_out(s.a[n // 2], FLOAT)
    return UF['true_divide'](UF['add'](s[n // 2 - 1], s[n // 2]), 2)


# ---------------------------------------------------------------------------
# sorting and sets (orders are decided by forking)
# ---------------------------------------------------------------------------
def _lt(a, b):
    if isnan(a):
        return False
    if isnan(b):
        return True
    if isinstance(a, tuple):
        for x, y in zip(a, b):
            if builtins.bool(k_lt(x, y)):
                return True
            if builtins.bool(k_lt(y, x)):
                return False
        return False
    return builtins.bool(k_lt(a, b))


def _argsort_list(v):
    """stable argsort by binary insertion"""
    order = []
    for i, x in enumerate(v):
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            if _lt(x, v[order[mid]]):
                hi = mid
            else:
                lo = mid + 1
        order.insert(lo, i)
    return order


def argsort(a, axis=-1, kind=None, order=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    m = RN.moveaxis(a.a, axis, -1)
    res = RN.empty(m.shape, dtype=object)
    for p in RN.ndindex(*m.shape[:-1]):
        res[p] = _argsort_list(list(m[p]))
    return SymArray(RN.moveaxis(res, -1, axis), INT)


def sort(a, axis=-1, kind=None, order=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    m = RN.moveaxis(a.a, axis, -1)
    res = RN.empty(m.shape, dtype=object)
    for p in RN.ndindex(*m.shape[:-1]):
        v = list(m[p])
        for i, j in enumerate(_argsort_list(v)):
            res[p + (i,)] = v[j]
    return SymArray(RN.moveaxis(res, -1, axis), a.dtype)


def lexsort(keys, axis=-1):
    keys = [asarr(k) for k in keys]
    n = keys[0].size
    rows = [tuple(k.a[i] for k in reversed(keys)) for i in range(n)]
    return mk(_argsort_list(rows), INT)


def unique(ar, return_index=False, return_inverse=False, return_counts=False,
           axis=None, equal_nan=True):
    a = asarr(ar)
    if axis is not None and a.ndim > 1:
        m = RN.moveaxis(a.a, axis, 0)
        rows = [tuple(m[i].reshape(-1)) for i in range(m.shape[0])]

        def eq(x, y):
            for p, q in zip(x, y):
                if not builtins.bool(k_eq(p, q)):
                    return False
            return True
        vals, idx, inv, cnt = _unique(rows, eq)
        if vals:
            out = m[RN.array(idx, dtype=int)]
        else:
            out = m[:0]
        u = SymArray(RN.moveaxis(out, 0, axis), a.dtype)
    else:
        flat = list(a.a.reshape(-1))

        def eq(x, y):
            if isnan(x) or isnan(y):
                return isnan(x) and isnan(y)
            return builtins.bool(k_eq(x, y))
        vals, idx, inv, cnt = _unique(flat, eq)
        u = SymArray(_objarr(vals), a.dtype)
    res = [u]
    if return_index:
        res.append(mk(idx, INT))
    if return_inverse:
        res.append(mk(inv, INT))
    if return_counts:
        res.append(mk(cnt, INT))
    return res[0] if len(res) == 1 else tuple(res)


def _unique(vals, eq):
    u, first, members = [], [], []
    for i, x in enumerate(vals):
        pos = None
        for j, y in enumerate(u):
            if eq(x, y):
                pos = j
                break
        if pos is not None:
            members[pos].append(i)
            continue
        lo, hi = 0, len(u)
        while lo < hi:
            mid = (lo + hi) // 2
            if _lt(x, u[mid]):
                hi = mid
            else:
                lo = mid + 1
        u.insert(lo, x)
        first.insert(lo, i)
        members.insert(lo, [i])
    inv = [0] * len(vals)
    for j, ms in enumerate(members):
        for i in ms:
            inv[i] = j
    return u, first, inv, [len(m) for m in members]


def in1d(a, b, invert=False, **kw):
    a, b = asarr(a).ravel(), asarr(list(b) if isinstance(b, set) else b)
    out = []
    for x in a.a:
        r = False
        for y in b.a.reshape(-1):
            r = k_or(r, k_eq(x, y))
        out.append(bnot(r) if invert else r)
    return mk(out, BOOL)


def isin(a, b, invert=False, **kw):
    a = asarr(a)
    return in1d(a, b, invert).reshape(a.shape)


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise Unsupported('intersect1d indices')
    u = unique(a)
    return u[in1d(u, b)]


def setdiff1d(a, b, assume_unique=False):
    u = asarr(a).ravel() if assume_unique else unique(a)
    return u[in1d(u, b, True)]


def union1d(a, b):
    return unique(concatenate([asarr(a).ravel(), asarr(b).ravel()]))


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    if sorter is not None:
        a = a[sorter]
    op = k_lt if side == 'left' else k_le

    def one(x):
        if isnan(x):
            return builtins.sum(1 for e in a.a if not isnan(e)) \
                if side == 'left' else a.size
        r = 0
        for e in a.a:
            r = r + as_int(op(e, x)) if not isnan(e) else r
        return r
    if is_scalar(v) and not isinstance(v, SymArray):
        return scalar_out(one(norm(v)), INT)
    v = asarr(v)
    out = RN.empty(v.shape, dtype=object)
    for p in RN.ndindex(*v.shape):
        out[p] = one(v.a[p])
    return SymArray(out, INT) if v.ndim else scalar_out(out[()], INT)


def _monotonic(b):
    f = b.a
    up = True
    for i in range(1, len(f)):
        up = k_and(up, k_le(f[i - 1], f[i]))
    if up is True or (up is not False and builtins.bool(up)):
        return 1
    dn = True
    for i in range(1, len(f)):
        dn = k_and(dn, k_ge(f[i - 1], f[i]))
    if dn is True or (dn is not False and builtins.bool(dn)):
        return -1
    return 0


def digitize(x, bins, right=False):
    bins = asarr(bins)
    m = _monotonic(bins)
    if m == 0:
        raise ValueError('bins must be monotonically increasing or '
                         'decreasing')
    side = 'left' if right else 'right'
    if m == -1:
        r = searchsorted(bins[::-1], x, side='right' if right else 'left')
        return UF['subtract'](bins.size, r)
    return searchsorted(bins, x, side=side)


def histogram(a, bins=10, range=None, density=None, weights=None):
    a = asarr(a)
    w = None
    if weights is not None:
        w = asarr(weights)
        if w.shape != a.shape:
            raise ValueError('weights should have the same shape as a.')
        w = w.ravel()
    a = a.ravel()
    if isinstance(bins, str):
        raise Unsupported('automatic bins')
    if isinstance(bins, (int, SymInt, RN.integer)) or (
            isinstance(bins, SymArray) and bins.ndim == 0):
        n = int(bins)
        if n < 1:
            raise ValueError('`bins` must be positive, when an integer')
        if range is not None:
            lo, hi = range
            if builtins.bool(k_gt(norm(lo), norm(hi))):
                raise ValueError('max must be larger than min in range '
                                 'parameter.')
        elif a.size == 0:
            lo, hi = 0, 1
        else:
            lo, hi = min_(a), max_(a)
            if is_special(norm(lo)) or is_special(norm(hi)):
                raise ValueError('autodetected range is not finite')
        if builtins.bool(k_eq(norm(lo), norm(hi))):
            h = SymReal(Fraction(1, 2))
            lo, hi = lo - h, hi + h
        edges = linspace(lo, hi, n + 1)
    else:
        edges = asarr(bins)
        if edges.ndim != 1:
            raise ValueError('`bins` must be 1d, when an array')
        ok = True
        for i in builtins.range(1, edges.size):
            ok = k_and(ok, k_le(edges.a[i - 1], edges.a[i]))
        if ok is False or (ok is not True and not builtins.bool(ok)):
            raise ValueError('`bins` must increase monotonically, when an '
                             'array')
    n = edges.size - 1
    out = []
    for i in builtins.range(n):
        lo, hi = edges.a[i], edges.a[i + 1]
        tot = 0 if w is None else cast_elem(0, w.dtype)
        for j, x in enumerate(a.a):
            c = k_and(k_ge(x, lo), (k_le if i == n - 1 else k_lt)(x, hi))
            v = as_int(c) if w is None else ite(
                c, w.a[j], cast_elem(0, w.dtype))
            tot = tot + v
        out.append(tot)
    h = mk(out, INT if w is None else w.dtype)
    if density:
        db = diff(edges)
        h = UF['true_divide'](UF['true_divide'](h, db), sum_(h))
    return h, edges


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if x.ndim != 1:
        raise ValueError('object too deep for desired array')
    if x.dtype.kind not in 'iub':
        if x.size == 0:
            pass
        else:
            raise TypeError('Cannot cast array data from %s to int64 '
                            'according to the rule \'safe\'' % x.dtype)
    if minlength is None:
        raise TypeError("'NoneType' object cannot be interpreted as an "
                        "integer")
    m = int(minlength)
    if m < 0:
        raise ValueError("'minlength' must not be negative")
    if weights is not None:
        w = asarr(weights)
        if w.shape != x.shape:
            raise ValueError('The weights and list don\'t have the same '
                             'length.')
        w = w.astype(FLOAT)
    elif has_sym(x.a):
        # counts without forking, where the length is known
        bound = [k_and(k_ge(e, 0), k_lt(e, m)) for e in x.a]
        if m > 0 and builtins.all(
                b is True or (b is not False and eng().implied(b))
                for b in bound):
            out = []
            for j in range(m):
                t = 0
                for e in x.a:
                    t = t + as_int(k_eq(e, j))
                out.append(t)
            return mk(out, INT)
    xs = [int(e) for e in x.a]
    if builtins.any(e < 0 for e in xs):
        raise ValueError("'list' argument must have no negative elements")
    n = max(m, (builtins.max(xs) + 1) if xs else 0)
    if weights is None:
        out = [0] * n
        for e in xs:
            out[e] += 1
        return mk(out, INT)
    out = [cast_elem(0, FLOAT)] * n
    for e, v in zip(xs, w.a):
        out[e] = k_add(out[e], v)
    return mk(out, FLOAT)


max = builtins.max


def nonzero(a):
    a = asarr(a)
    if a.ndim == 0:
        a = a.reshape(1)
    m = RN.empty(a.shape, dtype=bool)
    for p in RN.ndindex(*a.shape):
        m[p] = builtins.bool(_tz(a.a[p]))
    return tuple(from_real(i) for i in RN.nonzero(m))


def flatnonzero(a):
    return nonzero(asarr(a).ravel())[0]


def argwhere(a):
    return from_real(RN.transpose(RN.array(
        [i.to_real() for i in nonzero(a)])))


def where_(cond, *xy):
    if not xy:
        return nonzero(cond)
    c, x, y = asarr(cond), asarr(xy[0]), asarr(xy[1])
    dt = promote([x.dtype, y.dtype]) if not (
        is_scalar(xy[0]) ^ is_scalar(xy[1])) else result_or(xy[0], xy[1])
    r = RN.frompyfunc(k_where, 3, 1)(
        c.a, _cast_storage(x.a, dt), _cast_storage(y.a, dt))
    if not isinstance(r, RN.ndarray):
        r = _box(r)
    return SymArray(r, dt)


def result_or(x, y):
    if isinstance(x, (str, SymStr)) or isinstance(y, (str, SymStr)):
        return promote([asarr(x).dtype, asarr(y).dtype])
    if x is None or y is None:
        return OBJ
    return result_dtype('maximum', [x, y])


def select(condlist, choicelist, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where_(c, v, r)
    return r


def choose(a, choices, out=None, mode='raise'):
    a = asarr(a)
    ch = [asarr(c) for c in choices]
    dt = promote([c.dtype for c in ch])
    ai = conc_index(a)
    b = RN.broadcast_arrays(ai, *[_cast_storage(c.a, dt) for c in ch])
    out = RN.empty(b[0].shape, dtype=object)
    for p in RN.ndindex(*out.shape):
        out[p] = b[1 + b[0][p]][p]
    return SymArray(out, dt)


def extract(cond, a):
    return asarr(a).ravel()[asarr(cond).ravel().astype(bool)]


def compress(cond, a, axis=None, out=None):
    if isinstance(a, RecArray):
        return a.compress(cond, axis)
    return asarr(a).compress(cond, axis)


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    if a_min is None:
        a_min = min
    if a_max is None:
        a_max = max
    r = a
    if a_min is not None:
        r = UF['maximum'](r, a_min)
    if a_max is not None:
        r = UF['minimum'](r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def round_(a, decimals=0, out=None):
    a0 = a
    if decimals != 0:
        f = SymReal(Fraction(10) ** int(decimals))
        r = UF['true_divide'](UF['rint'](UF['multiply'](a, f)), f)
    else:
        dt = a.dtype if isinstance(a, SymArray) else elem_dtype(a)
        if dt.kind in 'iu':
            return a
        r = UF['rint'](a)
    if out is not None:
        out[...] = r
        return out
    return r


def fix(a, out=None):
    return UF['trunc'](a)


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(a)
    big = SymReal(core.frac(1.7976931348623157e308))

    def k(e):
        if isnan(e):
            return norm(nan)
        if is_special(e):
            if e > 0:
                return norm(posinf) if posinf is not None else big
            return norm(neginf) if neginf is not None else -big
        return e
    r = RN.frompyfunc(k, 1, 1)(a.a)
    return SymArray(r if isinstance(r, RN.ndarray) else _box(r), a.dtype)


def array_equal(a, b, equal_nan=False):
    try:
        a, b = asarr(a), asarr(b)
    except ValueError:
        return False
    if a.shape != b.shape:
        return False
    sa, sb = a.dtype.kind in 'US', b.dtype.kind in 'US'
    if sa != sb and a.size and 'O' not in (a.dtype.kind, b.dtype.kind):
        return False
    r = True
    for x, y in zip(a.a.reshape(-1), b.a.reshape(-1)):
        if equal_nan and isnan(x) and isnan(y):
            continue
        r = k_and(r, k_eq(x, y))
        if r is False:
            return False
    return r


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rt, at = SymReal(core.frac(concrete(rtol))), SymReal(
        core.frac(concrete(atol)))

    def k(x, y):
        if is_special(x) or is_special(y):
            if isnan(x) or isnan(y):
                return equal_nan and isnan(x) and isnan(y)
            return builtins.bool(x == y)
        x, y = tosymreal(x), tosymreal(y)
        return k_le(abs(x - y), at + rt * abs(y))
    a, b = asarr(a), asarr(b)
    r = RN.frompyfunc(k, 2, 1)(a.a, b.a)
    if not isinstance(r, RN.ndarray):
        return scalar_out(r, BOOL)
    return SymArray(r, BOOL)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return builtins.bool(all_(isclose(a, b, rtol, atol, equal_nan)))


# ---------------------------------------------------------------------------
# linear algebra
# ---------------------------------------------------------------------------
def _num2(a, b):
    a, b = asarr(a), asarr(b)
    dt = promote([a.dtype, b.dtype])
    return a, b, dt


def dot(a, b, out=None):
    if hasattr(a, '_sx_sparse'):
        return a.dot(b)
    if is_scalar(a) or is_scalar(b):
        return UF['multiply'](a, b)
    a, b, dt = _num2(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return UF['multiply'](a, b)
    k = b.ndim - 2 if b.ndim > 1 else 0
    if a.shape[-1] != b.shape[k]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    bb = RN.moveaxis(b.a, k, -1)
    res = RN.empty(a.shape[:-1] + bb.shape[:-1], dtype=object)
    for p in RN.ndindex(*a.shape[:-1]):
        for q in RN.ndindex(*bb.shape[:-1]):
            res[p + q] = _inner(a.a[p], bb[q], dt)
    if res.ndim == 0:
        return scalar_out(res[()], dt)
    if out is not None:
        out.a[...] = res
        return out
    return SymArray(res, dt)


def _inner(x, y, dt):
    acc = cast_elem(0, dt)
    first = True
    for u, v in zip(x, y):
        t = k_mul(u, v)
        acc = t if first else k_add(acc, t)
        first = False
    return cast_elem(acc, dt)


def matmul(a, b, out=None):
    if hasattr(a, '_sx_sparse'):
        return a.dot(b)
    if is_scalar(a) or is_scalar(b):
        raise ValueError('matmul: Input operand does not have enough '
                         'dimensions')
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    sq_a, sq_b = a.ndim == 1, b.ndim == 1
    A = a.a[None] if sq_a else a.a
    B = b.a[:, None] if sq_b else b.a
    bs = RN.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = RN.broadcast_to(A, bs + A.shape[-2:])
    B = RN.broadcast_to(B, bs + B.shape[-2:])
    dt = promote([a.dtype, b.dtype])
    res = RN.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
    for p in RN.ndindex(*bs):
        res[p] = dot(SymArray(A[p], a.dtype), SymArray(B[p], b.dtype)).a
    if sq_a:
        res = res[..., 0, :]
    if sq_b:
        res = res[..., 0]
    return SymArray(res, dt)


def vdot(a, b):
    return dot(asarr(a).ravel(), asarr(b).ravel())


def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return UF['multiply'](a, b)
    return dot(a, SymArray(RN.moveaxis(b.a, -1, b.ndim - 2)
                           if b.ndim > 1 else b.a, b.dtype))


def outer(a, b, out=None):
    return UF['multiply'].outer(asarr(a).ravel(), asarr(b).ravel())


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [i % a.ndim for i in ax]
    bx = [i % b.ndim for i in bx]
    L = 'abcdefghijklmnopqrstuvwxyz'
    la = list(L[:a.ndim])
    lb = list(L[a.ndim:a.ndim + b.ndim])
    for i, j in zip(ax, bx):
        lb[j] = la[i]
    o = [c for i, c in enumerate(la) if i not in ax] + \
        [c for j, c in enumerate(lb) if j not in bx]
    return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(o)), a, b)


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum sublist format')
    ops = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins.replace(',', ''))
                             if ins.count(c) == 1))
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match '
                             'the operand dimensions')
        for c, n in zip(s, o.shape):
            if dim.setdefault(c, n) != n:
                if 1 not in (dim[c], n):
                    raise ValueError('operands could not be broadcast')
                dim[c] = builtins.max(dim[c], n)
    dt = promote([o.dtype for o in ops])
    red = [c for c in dim if c not in out]
    res = RN.empty([dim[c] for c in out], dtype=object)
    for p in RN.ndindex(*res.shape):
        env = dict(zip(out, p))
        acc = None
        for q in RN.ndindex(*[dim[c] for c in red]):
            env.update(zip(red, q))
            t = None
            for s, o in zip(ins, ops):
                e = o.a[tuple(env[c] if o.shape[i] > 1 else 0
                              for i, c in enumerate(s))]
                t = e if t is None else k_mul(t, e)
            acc = t if acc is None else k_add(acc, t)
        res[p] = cast_elem(0 if acc is None else acc, dt)
    return SymArray(res, dt) if res.ndim else scalar_out(res[()], dt)


def trace(a, *x):
    return sum_(asarr(a).diagonal(*x), axis=-1)


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x).astype(FLOAT)
    if ord in (None, 2, 'fro') and (axis is not None or ord is None or
                                    x.ndim == 1 or ord == 'fro'):
        return UF['sqrt'](sum_(UF['multiply'](x, x), axis=axis,
                               keepdims=keepdims))
    if ord == 1 and x.ndim == 1:
        return sum_(UF['absolute'](x), axis=axis)
    raise Unsupported('norm order')


# ---------------------------------------------------------------------------
# construction
# ---------------------------------------------------------------------------
def _shape(s):
    if isinstance(s, SymArray):
        return tuple(int(i) for i in s.a.reshape(-1)) if s.ndim else (
            int(s),)
    if isinstance(s, (tuple, list)):
        return tuple(int(i) for i in s)
    if isinstance(s, (SymReal, float)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (s.__index__(),)


def full(shape, v, dtype=None, order='C'):
    shape = _shape(shape)
    if any(i < 0 for i in shape):
        raise ValueError('negative dimensions are not allowed')
    if isinstance(v, (list, tuple, SymArray)):
        v = asarr(v)
        dt = real_dtype(dtype) or v.dtype
        return SymArray(RN.broadcast_to(_cast_storage(v.a, dt),
                                        shape).copy(), dt)
    dt = real_dtype(dtype) or elem_dtype(v)
    a = RN.empty(shape, dtype=object)
    e = cast_elem(v, dt)
    for p in RN.ndindex(*shape):
        a[p] = e
    return SymArray(a, dt)


any = builtins.any


def _rec_empty(shape, dt):
    shape = _shape(shape)
    cols = {}
    for n in dt.names:
        f = dt.fields[n][0]
        base, sh = f.subdtype if f.subdtype is not None else (f, ())
        cols[n] = full(shape + tuple(sh), _zero(base), base)
    return RecArray(cols, shape)


def _zero(dt):
    return '' if dt.kind in 'US' else (None if dt.kind == 'O' else 0)


def zeros(shape, dtype=float, order='C', **kw):
    dt = real_dtype(dtype)
    if dt is None:
        dt = FLOAT
    if dt.names:
        return _rec_empty(shape, dt)
    return full(shape, 0 if dt.kind == 'O' else _zero(dt), dt)


def ones(shape, dtype=float, order='C', **kw):
    dt = real_dtype(dtype)
    return full(shape, 1, FLOAT if dt is None else dt)


class _Garbage(SymReal):
    pass


def empty(shape, dtype=float, order='C', **kw):
    """uninitialised memory: every element is an arbitrary value"""
    dt = real_dtype(dtype)
    if dt is None:
        dt = FLOAT
    if dt.names:
        return _rec_empty(shape, dt)
    if dt.kind == 'O':
        return full(shape, None, dt)
    shape = _shape(shape)
    a = RN.empty(shape, dtype=object)
    E = core.ENG
    for p in RN.ndindex(*shape):
        if E is None:
            a[p] = cast_elem(_zero(dt), dt)
        elif dt.kind == 'f':
            a[p] = SymReal(z3.Real(E.fresh('uninit')))
        elif dt.kind in 'iu':
            a[p] = SymInt(z3.Int(E.fresh('uninit')))
        elif dt.kind == 'b':
            a[p] = SymBool(z3.Bool(E.fresh('uninit')))
        else:
            a[p] = cast_elem(_zero(dt), dt)
    return SymArray(a, dt)


def _like(f):
    def g(a, *args, **kw):
        a = asarr(a)
        dtype = kw.pop('dtype', None)
        if f is full:
            v = args[0] if args else kw.pop('fill_value')
            if len(args) > 1:
                dtype = args[1]
            dt = real_dtype(dtype)
            return full(kw.get('shape') or a.shape, v,
                        a.dtype if dt is None else dt)
        if args:
            dtype = args[0]
        dt = real_dtype(dtype)
        sh = kw.get('shape')
        return f(a.shape if sh is None else sh, a.dtype if dt is None else dt)
    return g


zeros_like, ones_like, empty_like, full_like = (
    _like(f) for f in (zeros, ones, empty, full))


def arange(*args, dtype=None, **kw):
    start = kw.get('start')
    stop = kw.get('stop')
    step = kw.get('step')
    args = list(args)
    if len(args) == 4:
        dtype = args.pop()
    if len(args) == 1 and start is None and stop is None:
        start, stop = 0, args[0]
    else:
        vals = [start, stop, step]
        for a in args:
            vals[vals.index(None)] = a
        start, stop, step = vals
        start = 0 if start is None else start
        if stop is None:
            start, stop = 0, start
    step = 1 if step is None else step
    start, stop, step = (
        norm(x.item() if isinstance(x, SymArray) else x)
        for x in (start, stop, step))
    isf = any(isinstance(x, SymReal) or is_special(x)
              for x in (start, stop, step))
    dt = real_dtype(dtype) or (FLOAT if isf else INT)
    if any(is_special(x) for x in (start, stop, step)):
        raise ValueError('arange: cannot compute length')
    if isinstance(start, SymBool) or isinstance(start, bool):
        start = as_int(start)
    stop, step = as_int(stop), as_int(step)
    if not isf and not any(isinstance(x, Sym) for x in (start, stop, step)):
        if step == 0:
            raise ZeroDivisionError('division by zero')
        r = range(start, stop, step)
        return mk(list(r), dt)
    if not isf:
        # symbolic integers: the length decides the shape
        if step == 0:
            raise ZeroDivisionError('division by zero')
        n = -((start - stop) // step)
    else:
        d = k_div(stop - start, step)
        if is_special(d):
            raise ValueError('Maximum allowed size exceeded')
        n = d.ceil_()
    n = int(n)
    if n <= 0:
        return mk([], dt)
    delta = (start + step) - start if isf and core.eng_fp() else step
    out = []
    for i in range(n):
        out.append(start if i == 0 else (
            start + step if i == 1 else start + i * delta))
    return mk(out, dt)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    start = norm(start.item() if isinstance(start, SymArray) else start)
    stop = norm(stop.item() if isinstance(stop, SymArray) else stop)
    n = num.__index__() if not isinstance(num, (SymReal, float)) else None
    if n is None:
        raise TypeError("'float' object cannot be interpreted as an integer")
    if n < 0:
        raise ValueError('Number of samples, %s, must be non-negative.' % n)
    start, stop = tosymreal(start), tosymreal(stop)
    div = (n - 1) if endpoint else n
    delta = k_sub(stop, start)
    out = []
    step = k_div(delta, div) if div > 0 else math.nan
    for i in range(n):
        if div > 0:
            if core.eng_fp():
                v = i * step + start if i else start
            else:
                v = start + k_div(delta * i, div)
        else:
            v = start
        out.append(v)
    if endpoint and n > 1:
        out[-1] = stop
    dt = real_dtype(dtype) or FLOAT
    if dt.kind in 'iu':
        out = [k_floor(e) for e in out]
    r = mk(out, dt) if out else SymArray(RN.empty(0, dtype=object), dt)
    return (r, step) if retstep else r


def eye(n, m=None, k=0, dtype=float, **kw):
    n = int(n)
    return from_real(RN.eye(n, None if m is None else int(m), int(k))).astype(
        real_dtype(dtype))


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def tile(a, reps):
    a = asarr(a)
    if isinstance(reps, SymArray):
        reps = tuple(int(i) for i in reps.a.reshape(-1))
    elif isinstance(reps, (tuple, list)):
        reps = tuple(int(i) for i in reps)
    else:
        reps = int(reps)
    return SymArray(RN.tile(a.a, reps), a.dtype)


def repeat(a, repeats, axis=None):
    return asarr(a).repeat(repeats, axis)


def _join(f):
    def g(tup, *args, dtype=None, **kw):
        if hasattr(tup, '__next__'):
            tup = list(tup)
        parts = [p if isinstance(p, RecArray) else asarr(p) for p in tup]
        if any(isinstance(p, RecArray) for p in parts):
            names = list(parts[0].cols)
            cols = {n: g([p.cols[n] for p in parts], *args, **kw)
                    for n in names}
            c = cols[names[0]]
            return RecArray(cols, c.shape[:1])
        if not parts:
            raise ValueError('need at least one array to concatenate')
        dt = real_dtype(dtype) or promote([p.dtype for p in parts])
        r = f([_cast_storage(p.a, dt) for p in parts], *args, **kw)
        return SymArray(r, dt)
    return g


concatenate = _join(RN.concatenate)
hstack = _join(RN.hstack)
vstack = row_stack = _join(RN.vstack)
dstack = _join(RN.dstack)
stack = _join(RN.stack)
column_stack = _join(RN.column_stack)


def append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        a, v, axis = a.ravel(), v.ravel(), 0
    return concatenate([a, v], axis=axis)


def insert(arr, obj, values, axis=None):
    arr = asarr(arr)
    v = asarr(values)
    if axis is None:
        arr, axis = arr.ravel(), 0
    r = RN.insert(arr.a, conc_index(obj), _cast_storage(v.a, arr.dtype)
                  if v.ndim else cast_elem(v.a[()], arr.dtype), axis)
    return SymArray(r, arr.dtype)


def delete(arr, obj, axis=None):
    arr = asarr(arr)
    return SymArray(RN.delete(arr.a, conc_index(obj), axis), arr.dtype)


def pad(a, width, mode='constant', constant_values=0, **kw):
    a = asarr(a)
    if mode != 'constant':
        raise Unsupported('pad mode')
    return SymArray(RN.pad(a.a, width, mode='constant',
                           constant_values=cast_elem(constant_values,
                                                     a.dtype)), a.dtype)


class _RClass:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(arange(k.start or 0, k.stop, k.step or 1))
            elif isinstance(k, str):
                raise Unsupported('r_ directive')
            elif is_scalar(k):
                parts.append(asarr(k).reshape(1))
            else:
                parts.append(asarr(k))
        if self.axis == 1:
            parts = [p.reshape(p.shape + (1,)) if p.ndim == 1 else p
                     for p in parts]
            return concatenate(parts, axis=-1)
        return concatenate(parts, axis=0)


def atleast_1d(*arys):
    res = []
    for a in arys:
        if isinstance(a, RecArray):
            res.append(a if a.ndim else a.reshape((1,)))
            continue
        a = asarr(a)
        res.append(a.reshape(1) if a.ndim == 0 else a)
    return res[0] if len(res) == 1 else res


def atleast_2d(*arys):
    res = []
    for a in arys:
        a = asarr(a)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = SymArray(a.a[None, :], a.dtype)
        res.append(a)
    return res[0] if len(res) == 1 else res


def asarray(a, dtype=None, order=None, **kw):
    if isinstance(a, RecArray):
        return a
    return array(a, dtype=dtype, copy=False)


asanyarray = ascontiguousarray = asfortranarray = asarray


def asarray_chkfinite(a, dtype=None, order=None):
    a = asarray(a, dtype)
    if any(is_special(e) for e in a.a.reshape(-1)):
        raise ValueError('array must not contain infs or NaNs')
    return a


def copy_(a, *x, **k):
    return array(a, copy=True)


def require(a, dtype=None, *x, **k):
    return asarray(a, dtype)


def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = where_(where, src, dst)


def _struct(name):
    f = getattr(RN, name)

    def g(a, *args, **kw):
        if isinstance(a, RecArray):
            return getattr(a, name)(*args, **kw)
        a = asarr(a)
        args = [conc_index(x) if isinstance(x, (SymArray, Sym, NInt)) else x
                for x in args]
        r = f(a.a, *args, **kw)
        if isinstance(r, list):
            return [SymArray(i, a.dtype) for i in r]
        return SymArray(r, a.dtype) if isinstance(r, RN.ndarray) else \
            scalar_out(r, a.dtype)
    g.__name__ = name
    return g


STRUCT = ['squeeze', 'expand_dims', 'ravel', 'transpose', 'swapaxes',
          'moveaxis', 'rollaxis', 'flip', 'fliplr', 'flipud', 'roll', 'rot90',
          'broadcast_to', 'diag', 'diagonal', 'array_split', 'split',
          'hsplit', 'vsplit', 'triu', 'tril', 'diagflat']


def reshape(a, s, order='C'):
    return asarr(a).reshape(s)


def broadcast_arrays(*arrs, **kw):
    arrs = [asarr(a) for a in arrs]
    bs = RN.broadcast_arrays(*[a.a for a in arrs])
    return [SymArray(b, a.dtype) for a, b in zip(arrs, bs)]


def meshgrid(*xi, **kw):
    xi = [asarr(a) for a in xi]
    r = RN.meshgrid(*[a.a for a in xi], **kw)
    return [SymArray(b, a.dtype) for a, b in zip(xi, r)]


def ix_(*args):
    out = []
    n = len(args)
    for i, a in enumerate(args):
        a = asarr(a)
        if a.dtype.kind == 'b':
            a = nonzero(a)[0]
        out.append(a.reshape((1,) * i + (a.size,) + (1,) * (n - i - 1)))
    return tuple(out)


def take(a, idx, axis=None, out=None, mode='raise'):
    if isinstance(a, RecArray):
        return a.take(idx, axis)
    return asarr(a).take(idx, axis, mode=mode)


def put(a, idx, v, mode='raise'):
    a.put(idx, v)


def take_along_axis(a, idx, axis):
    a, idx = asarr(a), asarr(idx)
    return SymArray(RN.take_along_axis(a.a, conc_index(idx), axis), a.dtype)


def apply_along_axis(f, axis, arr, *args, **kw):
    arr = asarr(arr)
    m = RN.moveaxis(arr.a, axis, -1)
    outs = []
    for p in RN.ndindex(*m.shape[:-1]):
        outs.append(f(SymArray(m[p].copy(), arr.dtype), *args, **kw))
    if not outs:
        raise ValueError('Cannot apply_along_axis when any iteration '
                         'dimensions are 0')
    r = array(outs)
    r = r.reshape(m.shape[:-1] + r.shape[1:])
    if r.ndim == arr.ndim:
        return SymArray(RN.moveaxis(r.a, -1, axis), r.dtype)
    return r


def vectorize(f, otypes=None, **kw):
    def g(*args):
        ar = [asarr(a) for a in args]
        bs = RN.broadcast_arrays(*[a.a for a in ar])
        out = [f(*[scalar_out(b[p], a.dtype) for a, b in zip(ar, bs)])
               for p in RN.ndindex(*bs[0].shape)]
        dt = real_dtype(otypes[0]) if otypes else None
        r = array(out, dtype=dt).reshape(bs[0].shape)
        return r if r.ndim else r
    return g


def fromiter(it, dtype, count=-1, **kw):
    return mk(list(it), real_dtype(dtype))


def ndindex(*shape):
    return RN.ndindex(*shape)


def ndenumerate(a):
    a = asarr(a)
    return ((p, scalar_out(a.a[p], a.dtype)) for p in RN.ndindex(*a.shape))


def shape(a):
    return a.shape if hasattr(a, 'shape') else asarr(a).shape


def ndim(a):
    return a.ndim if hasattr(a, 'ndim') else asarr(a).ndim


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def isscalar(x):
    return is_scalar(x) and x is not None


def iterable(x):
    return hasattr(x, '__iter__')


def may_share_memory(a, b, *x):
    return RN.may_share_memory(a.a, b.a)


def shares_memory(a, b, *x):
    return RN.shares_memory(a.a, b.a)


def result_type(*args):
    return RN.result_type(*[
        a.dtype if isinstance(a, SymArray) else (
            elem_dtype(a) if isinstance(a, Sym) else a) for a in args])


def can_cast(f, t, casting='safe'):
    if isinstance(f, SymArray):
        f = f.dtype
    return RN.can_cast(f, t, casting)


def divmod_(a, b):
    return UF['floor_divide'](a, b), UF['remainder'](a, b)


def histogram_bin_edges(a, bins=10, range=None, weights=None):
    return histogram(a, bins, range, weights=weights)[1]


def isposinf(x):
    return UF['equal'](asarr(x), math.inf)


def isneginf(x):
    return UF['equal'](asarr(x), -math.inf)


def setxor1d(a, b, assume_unique=False):
    return union1d(setdiff1d(a, b), setdiff1d(b, a))


def quantile(a, q, axis=None, method='linear', keepdims=False, **kw):
    if method != 'linear' or kw or keepdims:
        raise Unsupported('np.quantile with these arguments')
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('np.quantile along an axis')
    s = sort(a.ravel().astype(FLOAT))
    n = s.size
    if n == 0 or builtins.any(isnan(e) for e in s.a):
        return math.nan
    qs = concrete(q)

    def one(p):
        if not 0 <= p <= 1:
            raise ValueError('Quantiles must be in the range [0, 1]')
        t = Fraction(p).limit_denominator(10 ** 9) * (n - 1)
        i = t.numerator // t.denominator
        lo = tosymreal(s.a[i])
        hi = tosymreal(s.a[builtins.min(i + 1, n - 1)])
        return lo + (hi - lo) * SymReal(t - i)
    if RN.ndim(qs) == 0:
        return one(float(qs))
    return mk([one(float(p)) for p in RN.ravel(qs)], FLOAT).reshape(
        RN.shape(qs))


def percentile(a, q, *args, **kw):
    return quantile(a, RN.true_divide(concrete(q), 100), *args, **kw)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('np.interp with a period')
    xp, fp = asarr(xp), asarr(fp).astype(FLOAT)
    if xp.size != fp.size or not xp.size:
        raise ValueError('fp and xp are not of the same length.')
    lo = fp.a[0] if left is None else left
    hi = fp.a[-1] if right is None else right

    def one(v):
        r = ite(k_eq(v, xp.a[-1]), fp.a[-1], tosymreal(hi))
        for i in builtins.range(xp.size - 2, -1, -1):
            a, b = tosymreal(xp.a[i]), tosymreal(xp.a[i + 1])
            y = fp.a[i] + k_div((fp.a[i + 1] - fp.a[i]), b - a) * (
                tosymreal(v) - a)
            r = ite(k_lt(v, b), y, r)
        return ite(k_lt(v, xp.a[0]), tosymreal(lo), r)
    x = asarr(x)
    out = mk([one(v) for v in x.a.ravel()], FLOAT).reshape(x.shape)
    return out if x.ndim else scalar_out(out.a[()], FLOAT)


def ravel_multi_index(ix, dims, mode='raise', order='C'):
    if order != 'C' or mode != 'raise':
        raise Unsupported('np.ravel_multi_index with these arguments')
    r = 0
    for i, d in zip(ix, dims):
        i = asarr(i)
        if builtins.bool(any_(UF['logical_or'](
                UF['less'](i, 0), UF['greater_equal'](i, d)))):
            raise ValueError('invalid entry in coordinates array')
        r = UF['add'](UF['multiply'](r, d), i)
    return r


def unravel_index(ix, shape, order='C'):
    if order != 'C':
        raise Unsupported('np.unravel_index in this order')
    ix = asarr(ix)
    out = []
    for d in reversed(shape):
        out.append(UF['remainder'](ix, d))
        ix = UF['floor_divide'](ix, d)
    return tuple(reversed(out))


def putmask(a, mask, values):
    a[:] = where_(mask, values, a)


def nancumsum(a, axis=None):
    return cumsum(nan_to_num(a), axis)


def nanmedian(a, axis=None):
    if axis is not None:
        raise Unsupported('np.nanmedian along an axis')
    a = asarr(a).ravel()
    return median(a[UF['logical_not'](UF['isnan'](a))])


def resize(a, shape):
    a = asarr(a).ravel()
    n = 1
    for d in (shape if isinstance(shape, (tuple, list)) else (shape,)):
        n *= int(d)
    return a.take(conc_index(mk([i % a.size for i in builtins.range(n)],
                                INT))).reshape(shape)


def real(a):
    return asarr(a)


def issubdtype(a, b):
    return RN.issubdtype(a, b)


def logspace(*a, **k):
    return generic('logspace', *a, **k)


def generic(name, *args, **kw):
    """numpy function applied to concrete values only"""
    f = RN
    for part in name.split('.'):
        f = getattr(f, part)
    r = f(*[concrete(a) for a in args],
          **{k: concrete(v) for k, v in kw.items()})
    return _back(r)


def _back(r):
    if isinstance(r, tuple):
        return tuple(_back(i) for i in r)
    if isinstance(r, list):
        return [_back(i) for i in r]
    if isinstance(r, float):
        return norm(r)
    return sx(r)


def _method_argsort(self, axis=-1, **k):
    return argsort(self, axis)


METHODS = {
    'sum': sum_, 'prod': prod, 'mean': mean, 'std': std, 'var': var,
    'min': min_, 'max': max_, 'any': any_, 'all': all_, 'argmax': argmax,
    'argmin': argmin, 'cumsum': cumsum, 'cumprod': cumprod, 'ptp': ptp,
    'nonzero': nonzero, 'dot': dot, 'clip': clip, 'round': round_,
    'argsort': argsort, 'searchsorted': searchsorted, 'trace': trace,
    'choose': choose, 'conj': lambda a: a, 'conjugate': lambda a: a,
}

FUNCS = {
    'array': array, 'asarray': asarray, 'asanyarray': asanyarray,
    'ascontiguousarray': ascontiguousarray, 'asfortranarray': asfortranarray,
    'asarray_chkfinite': asarray_chkfinite, 'copy': copy_, 'copyto': copyto,
    'require': require,
    'sum': sum_, 'prod': prod, 'product': prod, 'all': all_, 'any': any_,
    'alltrue': all_, 'sometrue': any_,
    'max': max_, 'min': min_, 'amax': max_, 'amin': min_, 'mean': mean,
    'var': var, 'std': std, 'average': average, 'median': median,
    'nanmean': nanmean, 'nanstd': nanstd, 'nanvar': nanvar,
    'nansum': nansum, 'nanmax': nanmax, 'nanmin': nanmin,
    'argmax': argmax, 'argmin': argmin, 'count_nonzero': count_nonzero,
    'cumsum': cumsum, 'cumprod': cumprod, 'diff': diff, 'ediff1d': ediff1d,
    'ptp': ptp, 'sort': sort, 'argsort': argsort, 'lexsort': lexsort,
    'unique': unique, 'in1d': in1d, 'isin': isin,
    'intersect1d': intersect1d, 'setdiff1d': setdiff1d, 'union1d': union1d,
    'searchsorted': searchsorted, 'digitize': digitize,
    'histogram': histogram, 'bincount': bincount, 'nonzero': nonzero,
    'flatnonzero': flatnonzero, 'argwhere': argwhere, 'where': where_,
    'select': select, 'choose': choose, 'extract': extract,
    'compress': compress, 'clip': clip, 'round': round_, 'around': round_,
    'round_': round_, 'fix': fix, 'nan_to_num': nan_to_num,
    'array_equal': array_equal, 'array_equiv': array_equal,
    'isclose': isclose, 'allclose': allclose, 'dot': dot, 'matmul': matmul,
    'vdot': vdot, 'inner': inner, 'outer': outer, 'tensordot': tensordot,
    'einsum': einsum, 'trace': trace, 'full': full, 'zeros': zeros,
    'ones': ones, 'empty': empty, 'zeros_like': zeros_like,
    'ones_like': ones_like, 'empty_like': empty_like,
    'full_like': full_like, 'arange': arange, 'linspace': linspace,
    'eye': eye, 'identity': identity, 'tile': tile, 'repeat': repeat,
    'concatenate': concatenate, 'hstack': hstack, 'vstack': vstack,
    'row_stack': vstack, 'dstack': dstack, 'stack': stack,
    'column_stack': column_stack, 'append': append, 'insert': insert,
    'delete': delete, 'pad': pad, 'atleast_1d': atleast_1d,
    'atleast_2d': atleast_2d, 'reshape': reshape,
    'broadcast_arrays': broadcast_arrays, 'meshgrid': meshgrid, 'ix_': ix_,
    'take': take, 'put': put, 'take_along_axis': take_along_axis,
    'apply_along_axis': apply_along_axis, 'vectorize': vectorize,
    'fromiter': fromiter, 'ndindex': ndindex, 'ndenumerate': ndenumerate,
    'shape': shape, 'ndim': ndim, 'size': size, 'isscalar': isscalar,
    'iterable': iterable, 'may_share_memory': may_share_memory,
    'shares_memory': shares_memory, 'result_type': result_type,
    'can_cast': can_cast, 'divmod': divmod_,
    'histogram_bin_edges': histogram_bin_edges, 'isposinf': isposinf,
    'isneginf': isneginf, 'setxor1d': setxor1d, 'quantile': quantile,
    'percentile': percentile, 'interp': interp, 'real': real,
    'ravel_multi_index': ravel_multi_index, 'unravel_index': unravel_index,
    'putmask': putmask, 'nancumsum': nancumsum, 'nanmedian': nanmedian,
    'cumproduct': cumprod, 'resize': resize,
}
for _nm in STRUCT:
    FUNCS[_nm] = _struct(_nm)
r_, c_ = _RClass(0), _RClass(1)
