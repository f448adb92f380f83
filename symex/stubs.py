"""Stand-ins for scipy, scikit-learn, random numbers and files (symbolic)."""
import abc
import math
import os
import inspect
import numbers
from fractions import Fraction

import numpy as RN
import z3

from . import core, nparr, npfun, loader, npshim
from .core import (Sym, SymBool, SymInt, SymReal, SymStr, NInt, Unsupported,
                   mkbool, mkint, tosymreal, is_special, isnan, ite, eng)
from .nparr import (SymArray, SymMatrix, RecArray, asarr, array, mk, norm,
                    scalar_out, conc_index, cast_elem, real_dtype, FLOAT, INT,
                    BOOL, OBJ, elem_dtype, is_scalar, has_sym)
from .npfun import UF

SKROOT = '/opt/venv/lib/python3.12/site-packages/sklearn'


# ---------------------------------------------------------------------------
# random numbers: arbitrary values, a function of (seed, draw number)
# ---------------------------------------------------------------------------
class SymRandomState:
    """every draw is an arbitrary value of its distribution's support"""

    def __init__(self, seed=None):
        if isinstance(seed, SymArray):
            seed = seed.item()
        E = eng()
        if seed is None:
            n = E.rng_streams.setdefault('#anon', 0)
            E.rng_streams['#anon'] = n + 1
            self.key = 'anon%d' % n
        elif seed == '#global':
            self.key = 'global'
        else:
            self.key = 'seed%d' % int(seed)
        self.n = 0

    def seed(self, seed=None):
        self.key = 'seed%s' % seed
        self.n = 0

    def _next(self, method):
        k = '%s.%d.%s' % (self.key, self.n, method)
        self.n += 1
        return 'rng:' + k

    def _real(self, name, lo=None, hi=None, strict=False):
        E = eng()
        v = E.input_real(name)
        if lo is not None:
            E.assume(v > lo if strict else v >= lo)
        if hi is not None:
            E.assume(v < hi)
        return SymReal(v)

    def _fill(self, size, method, f):
        name = self._next(method)
        if size is None:
            return f(name + '.0')
        shape = npfun._shape(size)
        a = RN.empty(shape, dtype=object)
        for i, p in enumerate(RN.ndindex(*shape)):
            a[p] = f('%s.%d' % (name, i))
        return SymArray(a, FLOAT)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if not (is_scalar(loc) and is_scalar(scale)):
            raise Unsupported('array parameters of normal')
        loc, scale = tosymreal(norm(loc)), tosymreal(norm(scale))
        if is_special(scale) or is_special(loc):
            raise ValueError('scale')
        if scale < 0:
            raise ValueError('scale < 0')
        return self._fill(size, 'normal', lambda n: loc + scale * self._real(
            n, -8, 8))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def random_sample(self, size=None):
        return self._fill(size, 'uniform', lambda n: self._real(n, 0, 1))

    random = ranf = sample = random_sample

    def rand(self, *shape):
        return self.random_sample(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = tosymreal(norm(low)), tosymreal(norm(high))
        return self._fill(size, 'uniform', lambda n: lo + (
            hi - lo) * self._real(n, 0, 1))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError('low >= high')
        E = eng()

        def f(n):
            v = E.input_int(n)
            E.assume(z3.And(v >= low, v < high))
            return SymInt(v, True)
        r = self._fill(size, 'randint', f)
        if isinstance(r, SymArray):
            r.dtype = INT
        return r

    def dirichlet(self, alpha, size=None):
        al = asarr(alpha)
        k = al.size
        for e in al.a:
            if e <= 0:
                raise ValueError('alpha <= 0')
        if size is not None:
            shape = npfun._shape(size)
        else:
            shape = ()
        name = self._next('dirichlet')
        a = RN.empty(shape + (k,), dtype=object)
        E = eng()
        for i, p in enumerate(RN.ndindex(*shape)):
            vs = [E.input_real('%s.%d.%d' % (name, i, j))
                  for j in range(k - 1)]
            for v in vs:
                E.assume(v >= Fraction(1, 1000))
            if vs:
                last = E.input_real('%s.%d.%d' % (name, i, k - 1))
                E.assume(last >= Fraction(1, 1000))
                E.assume(z3.Sum(vs + [last]) == 1)
                E.linear[last.get_id()] = 1 - z3.Sum(vs)
            else:
                last = z3.RealVal(1)
            for j in range(k):
                a[p + (j,)] = SymReal(vs[j]) if j < k - 1 else core.mkreal(
                    last)
        return SymArray(a, FLOAT)

    def _perm(self, n):
        E = eng()
        name = self._next('permutation')
        vs = [E.input_int('%s.%d' % (name, i)) for i in range(n)]
        for v in vs:
            E.assume(z3.And(v >= 0, v < n))
        if n > 1:
            E.assume(z3.Distinct(*vs))
        if n == 1:
            return mk([0], INT)
        return SymArray(npfun._objarr([SymInt(v, True) for v in vs]), INT)

    def permutation(self, x):
        if isinstance(x, (int, SymInt)):
            return self._perm(int(x))
        x = asarr(x)
        return x[self._perm(x.shape[0])]

    def shuffle(self, x):
        p = self._perm(len(x))
        if isinstance(x, SymArray):
            x[...] = x[p].copy()
        else:
            idx = [int(i) for i in p]
            x[:] = [x[i] for i in idx]

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise Unsupported('weighted choice')
        arr = npfun.arange(int(a)) if isinstance(a, int) else asarr(a)
        n = arr.size
        if size is None:
            return arr[self.randint(n)]
        shape = npfun._shape(size)
        m = int(RN.prod(shape, dtype=int))
        if replace:
            return arr[self.randint(n, size=shape)]
        if m > n:
            raise ValueError("Cannot take a larger sample than population")
        return arr[self._perm(n)[:m]].reshape(shape)

    def get_state(self, *a, **k):
        return (self.key, self.n)

    def set_state(self, s):
        self.key, self.n = s

    def __deepcopy__(self, memo):
        r = SymRandomState.__new__(SymRandomState)
        r.key, r.n = self.key, self.n
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('random distribution %s' % n)


class SymRandomModule:
    RandomState = SymRandomState

    def __init__(self):
        self._global = None
        self.mtrand = loader.Namespace('mtrand')

    @property
    def glob(self):
        if self._global is None:
            self._global = SymRandomState('#global')
        return self._global

    def default_rng(self, seed=None):
        return SymRandomState(seed)

    def __getattr__(self, n):
        return getattr(self.glob, n)


def check_random_state(seed):
    if seed is None or isinstance(seed, SymRandomModule):
        return eng().np_random.glob
    if isinstance(seed, (int, SymInt)):
        if isinstance(seed, SymInt):
            seed = int(seed)
        return SymRandomState(seed)
    if isinstance(seed, SymRandomState):
        return seed
    raise ValueError('%r cannot be used to seed a numpy.random.RandomState '
                     'instance' % (seed,))


# ---------------------------------------------------------------------------
# scikit-learn helpers
# ---------------------------------------------------------------------------
def _finite(x, what='Input', allow_nan=False):
    x = asarr(x)
    if x.dtype.kind == 'f' or x.dtype.kind == 'O':
        for e in x.a.reshape(-1):
            if is_special(e) and not (allow_nan and isnan(e)):
                raise ValueError('%s contains NaN, infinity or a value too '
                                 'large' % what)


def assert_all_finite(X, *, allow_nan=False, estimator_name=None,
                      input_name=''):
    if hasattr(X, '_sx_sparse'):
        X = X.data
    _finite(X, allow_nan=allow_nan)


def as_float_array(X, *, copy=True, force_all_finite=True):
    if hasattr(X, '_sx_sparse'):
        return X.astype(FLOAT)
    if not isinstance(X, SymArray):
        return check_array(X, accept_sparse=True, dtype=FLOAT, copy=copy,
                           force_all_finite=force_all_finite,
                           ensure_2d=False)
    if X.dtype.kind == 'f' and X.dtype.itemsize in (4, 8):
        return X.copy() if copy else X
    if X.dtype.kind in 'uib' and X.dtype.itemsize <= 4:
        return X.astype(RN.dtype('float32'))
    return X.astype(FLOAT)


def check_array(array_, accept_sparse=False, *, accept_large_sparse=True,
                dtype='numeric', order=None, copy=False,
                force_all_finite=True, ensure_2d=True, allow_nd=False,
                ensure_min_samples=1, ensure_min_features=1, estimator=None,
                input_name=''):
    if hasattr(array_, '_sx_sparse'):
        if not accept_sparse:
            raise TypeError('A sparse matrix was passed')
        return array_
    x = array_ if isinstance(array_, SymArray) else array(array_)
    orig = x
    want = dtype
    if isinstance(dtype, (list, tuple)):
        dts = [real_dtype(d) for d in dtype]
        want = None if x.dtype in dts else dts[0]
    elif isinstance(dtype, str) and dtype == 'numeric':
        want = FLOAT if x.dtype.kind == 'O' else None
    elif dtype is not None:
        want = real_dtype(dtype)
    if want is not None and want.kind in 'iu' and x.dtype.kind == 'f':
        _finite(x)
    if want is not None and want != x.dtype:
        x = x.astype(want)
    if ensure_2d:
        if x.ndim == 0:
            raise ValueError('Expected 2D array, got scalar array instead')
        if x.ndim == 1:
            raise ValueError('Expected 2D array, got 1D array instead')
    if isinstance(dtype, str) and dtype == 'numeric' and \
            x.dtype.kind in 'USV':
        raise ValueError("dtype='numeric' is not compatible with arrays of "
                         "bytes/strings.")
    if not allow_nd and x.ndim >= 3:
        raise ValueError('Found array with dim %d' % x.ndim)
    if force_all_finite:
        _finite(x, allow_nan=force_all_finite == 'allow-nan')
    if ensure_min_samples > 0 and _num_samples(x) < ensure_min_samples:
        raise ValueError('Found array with %d sample(s)' % _num_samples(x))
    if ensure_min_features > 0 and x.ndim == 2 and \
            x.shape[1] < ensure_min_features:
        raise ValueError('Found array with %d feature(s)' % x.shape[1])
    if copy and x is orig:
        x = x.copy()
    return x


def _num_samples(x):
    if hasattr(x, 'shape') and x.shape is not None:
        if len(x.shape) == 0:
            raise TypeError('Singleton array cannot be considered a valid '
                            'collection.')
        return int(x.shape[0])
    return len(x)


def check_consistent_length(*arrays):
    lens = {_num_samples(x) for x in arrays if x is not None}
    if len(lens) > 1:
        raise ValueError('Found input variables with inconsistent numbers '
                         'of samples: %r' % sorted(lens))


def indexable(*its):
    r = []
    for x in its:
        if x is None or hasattr(x, '__getitem__'):
            r.append(x)
        elif hasattr(x, '_sx_sparse'):
            r.append(x.tocsr())
        else:
            r.append(array(x))
    check_consistent_length(*r)
    return r


def column_or_1d(y, *, dtype=None, warn=False):
    y = asarr(y)
    if y.ndim == 1:
        return y
    if y.ndim == 2 and y.shape[1] == 1:
        return y.ravel()
    raise ValueError('y should be a 1d array')


def _safe_indexing(X, indices, *, axis=0):
    if indices is None:
        return X
    if isinstance(X, (SymArray, RecArray)):
        return X[indices] if axis == 0 else X[:, indices]
    return [X[int(i)] for i in indices]


# metrics
def _two(y_true, y_pred):
    a = check_array(y_true, ensure_2d=False)
    b = check_array(y_pred, ensure_2d=False)
    check_consistent_length(a, b)
    return a.astype(FLOAT), b.astype(FLOAT)


def skm_mae(y_true, y_pred, *, sample_weight=None,
            multioutput='uniform_average'):
    a, b = _two(y_true, y_pred)
    return npfun.average(UF['absolute'](UF['subtract'](b, a)),
                         weights=sample_weight)


def skm_mse(y_true, y_pred, *, sample_weight=None,
            multioutput='uniform_average', squared=True):
    a, b = _two(y_true, y_pred)
    d = UF['subtract'](a, b)
    r = npfun.average(UF['multiply'](d, d), weights=sample_weight)
    return r if squared else UF['sqrt'](r)


def skm_auc(y_true, y_score, *, average='macro', sample_weight=None,
            max_fpr=None, multi_class='raise', labels=None):
    if sample_weight is not None or max_fpr is not None:
        raise Unsupported('weighted roc_auc_score')
    y = check_array(y_true, ensure_2d=False)
    s = check_array(y_score, ensure_2d=False)
    check_consistent_length(y, s)
    u = npfun.unique(y)
    if u.size != 2:
        raise ValueError('Only one class present in y_true. ROC AUC score '
                         'is not defined in that case.' if u.size < 2 else
                         "multi_class must be in ('ovo', 'ovr')")
    pos = [bool(e) for e in UF['equal'](y, u[1]).a]
    tot, n = SymReal(Fraction(0)), 0
    half, one, zero = (SymReal(Fraction(v)) for v in ('1/2', 1, 0))
    for i, pi in enumerate(pos):
        for j, pj in enumerate(pos):
            if pi and not pj:
                n += 1
                a, b = s.a[i], s.a[j]
                tot = tot + ite(npfun.k_gt(a, b), one, ite(
                    npfun.k_eq(a, b), half, zero))
    return tot / n


def _other_metric(name):
    def f(*a, **k):
        raise Unsupported('sklearn.metrics.%s' % name)
    return f


class _Metrics:
    mean_absolute_error = staticmethod(skm_mae)
    mean_squared_error = staticmethod(skm_mse)
    roc_auc_score = staticmethod(skm_auc)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _other_metric(n)


class BaseEstimator:
    """the parameter handling of sklearn.base.BaseEstimator"""

    @classmethod
    def _get_param_names(cls):
        sig = inspect.signature(cls.__init__)
        return sorted(p.name for p in sig.parameters.values()
                      if p.name != 'self' and p.kind != p.VAR_KEYWORD)

    def get_params(self, deep=True):
        return {n: getattr(self, n) for n in self._get_param_names()}

    def set_params(self, **p):
        for k, v in p.items():
            setattr(self, k, v)
        return self


class _Any:
    """accepts any construction (parameter validation declarations)"""

    def __init__(self, *a, **k):
        pass


class _MetadataRequester:
    pass


def validate_params(*a, **k):
    return lambda f: f


class _ModelSelection:
    """sklearn.model_selection: the real source, executed symbolically"""

    def __init__(self, ld):
        self._ld = ld

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        m = self._ld.load('sklearn.model_selection._split')
        if n == '_split':
            return m
        return getattr(m, n)


def comb(n, k, exact=False):
    return math.comb(int(n), int(k))


def make_sklearn(ld):
    ld.scripts['sklearn.model_selection._split'] = os.path.join(
        SKROOT, 'model_selection', '_split.py')
    N = loader.Namespace
    val = dict(
        check_random_state=check_random_state, check_array=check_array,
        as_float_array=as_float_array, assert_all_finite=assert_all_finite,
        check_consistent_length=check_consistent_length,
        indexable=indexable, column_or_1d=column_or_1d,
        _num_samples=_num_samples)
    utils = N('sklearn.utils', **val)
    utils._safe_indexing = _safe_indexing
    utils._approximate_mode = _other_metric('_approximate_mode')
    utils.validation = N('sklearn.utils.validation', **val)
    utils.metadata_routing = N('sklearn.utils.metadata_routing',
                               UNUSED='$UNUSED$',
                               _MetadataRequester=_MetadataRequester)
    utils._param_validation = N(
        'p', Interval=_Any, RealNotInt=_Any, validate_params=validate_params)
    utils.multiclass = N('m', type_of_target=_other_metric('type_of_target'))
    sk = N('sklearn', __version__='1.3.2')
    sk.utils = utils
    sk.base = N('sklearn.base', BaseEstimator=BaseEstimator,
                clone=_other_metric('clone'))
    sk.metrics = _Metrics()
    sk.model_selection = _ModelSelection(ld)
    return sk


# ---------------------------------------------------------------------------
# the optimiser: an arbitrary outcome
# ---------------------------------------------------------------------------
class OptimizeResult(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    __setattr__ = dict.__setitem__
    __delattr__ = dict.__delitem__


class Optimizer:
    """records every call of minimize and returns an arbitrary result"""

    def __init__(self, env):
        self.env = env
        self.calls = []

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None,
                 hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None, **kw):
        env = self.env
        if not isinstance(args, tuple):
            args = (args,)
        i = len(self.calls)
        x0 = asarr(x0)
        n = x0.size
        call = dict(fun=fun, x0=x0.copy(), args=args, method=method, jac=jac,
                    bounds=bounds, tol=tol, callback=callback, hess=hess,
                    options=dict(options) if options is not None else None,
                    raw_options=options, n=n, extra=kw)
        if x0.dtype.kind != 'f':
            raise Unsupported('optimising a non-float vector')
        x = None
        if 'solution' in env.cfg_hooks:
            x = env.cfg_hooks['solution'](call)
        if x is None:
            x = env.reals('opt%d.x' % i, n, lo=-100, hi=100)
        res = OptimizeResult(
            x=x.copy(), success=env.bool('opt%d.success' % i),
            status=env.int('opt%d.status' % i, 0, 5),
            message='opt%d message' % i,
            fun=env.real('opt%d.fun' % i, -1000, 1000),
            nit=env.int('opt%d.nit' % i, 0, 1000),
            nfev=env.int('opt%d.nfev' % i, 0, 1000),
            njev=env.int('opt%d.njev' % i, 0, 1000))
        if isinstance(method, str) and method.lower() in (
                'nelder-mead', 'powell', 'cobyla'):
            del res['njev']
        call['res'] = res
        call['x'] = x
        self.calls.append(call)
        hook = env.cfg_hooks.get('minimize')
        if hook is not None:
            hook(call, x0)
        return res


def make_scipy(env, opt):
    from . import sparse
    N = loader.Namespace
    sp = N('scipy', __version__='1.12.0')
    sp.optimize = N('scipy.optimize', minimize=opt.minimize,
                    OptimizeResult=OptimizeResult)
    sp.special = N('scipy.special', expit=UF['expit'], comb=comb,
                   xlogy=xlogy, xlog1py=xlog1py, log_expit=log_expit,
                   logit=logit)
    sp.sparse = sparse.module()
    return sp


def xlogy(x, y):
    f = RN.frompyfunc(lambda a, b: _xl(a, core.uf_log, b), 2, 1)
    return _lift(f, x, y)


def xlog1py(x, y):
    f = RN.frompyfunc(lambda a, b: _xl(a, npfun.k_log1p, b), 2, 1)
    return _lift(f, x, y)


def _xl(a, fn, b):
    a = tosymreal(a)
    if not is_special(a) and (a == 0):
        return SymReal(Fraction(0))
    return a * fn(b)


def log_expit(x):
    return _lift(RN.frompyfunc(
        lambda a: core.uf_log(core.uf_expit(a)), 1, 1), x)


def logit(x):
    def k(p):
        p = tosymreal(p)
        return core.uf_log(p) - core.uf_log(1 - p)
    return _lift(RN.frompyfunc(k, 1, 1), x)


def _lift(f, *args):
    ops = []
    for a in args:
        ops.append(asarr(a).a)
    r = f(*ops)
    if isinstance(r, RN.ndarray):
        return SymArray(r, FLOAT)
    return r
