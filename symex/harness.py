"""The two environments a property harness runs in.

SymEnv  inputs are symbolic, the project's source is executed by the engine
        and checks become solver queries.
RealEnv inputs come from a model, the project is imported normally; used to
        replay counterexamples and to validate the encoding.
"""
import importlib
import json
import math
import numbers
import os
import sys
import traceback
from fractions import Fraction

from . import texts

REPO = os.environ.get('VERIF_REPO', '/repo')

REL, ABS = 1e-6, 1e-9


def rank_str(n):
    return 'k%05d' % n


class CheckFailed(Exception):
    pass


class BaseEnv:
    sym = False

    def ids(self, name, n, kind='int', lo=None, hi=None):
        return [self.id('%s%d' % (name, i), kind, lo, hi) for i in range(n)]

    def id(self, name, kind='int', lo=None, hi=None):
        if kind == 'int':
            return self.int(name, -50 if lo is None else lo,
                            1000 if hi is None else hi)
        return self.str(name)

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def reals(self, name, n, lo=-100, hi=100):
        """a 1-d float array"""
        return self.np.array([self.real('%s%d' % (name, i), lo, hi)
                              for i in range(n)], dtype=float)

    def real_list(self, name, n, lo=-100, hi=100):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def bools(self, name, n):
        return [self.bool('%s%d' % (name, i)) for i in range(n)]

    def fail(self, label, why=''):
        self.check(False, label, why)

    def runs(self, label, f, *a, **k):
        """call f, which must not raise"""
        try:
            return f(*a, **k)
        except (AssertionError, KeyboardInterrupt):
            raise
        except Exception as ex:
            if os.environ.get('SYMEX_TB'):
                traceback.print_exc()
            self.check(False, label, 'raised %s: %s' % (
                type(ex).__name__, ex))
            raise StopHarness()

    def raises(self, exc, label, f, *a, **k):
        """f must raise exc (or a subclass)"""
        try:
            f(*a, **k)
        except exc:
            self.check(True, label)
            return True
        except Exception as ex:
            self.check(False, label, 'raised %s: %s' % (
                type(ex).__name__, ex))
            return False
        self.check(False, label, 'no exception')
        return False

    def outcome(self, f, *a, **k):
        """('ok', value) or ('raise', exception type name)"""
        try:
            return 'ok', f(*a, **k)
        except Exception as ex:
            return 'raise', type(ex)

    def snap(self, x):
        """an independent deep copy for later comparison"""
        if isinstance(x, dict):
            return [(k, self.snap(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [self.snap(v) for v in x]
        if hasattr(x, 'copy') and hasattr(x, 'shape'):
            return x.copy()
        return x

    def same(self, x, snap, label):
        if isinstance(x, dict):
            self.check(len(x) == len(snap), label + ': keys')
            for (k, v), (k2, v2) in zip(x.items(), snap):
                self.eq(k, k2, label + ': key')
                self.same(v, v2, label)
        elif isinstance(x, (list, tuple)):
            self.check(len(x) == len(snap), label + ': length')
            for v, v2 in zip(x, snap):
                self.same(v, v2, label)
        else:
            self.eq(x, snap, label)


class StopHarness(Exception):
    """a reported failure that ends the run of the harness"""


# ---------------------------------------------------------------------------
# concrete
# ---------------------------------------------------------------------------
class RealEnv(texts.RealText, BaseEnv):
    sym = False

    def __init__(self, model, world):
        import numpy
        self.np = numpy
        self.model = model['inputs']
        self.choices = model['choices']
        self.world = world
        self.failed = []
        self.checked = []
        self.observed = []
        self.cfg_hooks = {}
        self.used = set()
        world.begin(self)
        self.optimizer = world.optimizer
        self.json = json

    def load(self, name):
        return importlib.import_module(name)

    @property
    def sparse(self):
        import scipy.sparse
        return scipy.sparse

    def is_bool(self, x):
        return isinstance(x, (bool, self.np.bool_))

    def jsonable(self, x):
        import json
        try:
            json.dumps(x)
            return True
        except (TypeError, ValueError):
            return False

    # inputs
    def int(self, name, lo, hi):
        v = self.model.get(name)
        self.used.add(name)
        return int(v) if v is not None else (0 if lo <= 0 <= hi else lo)

    def real(self, name, lo=-100, hi=100, strict=False):
        v = self.model.get(name)
        self.used.add(name)
        if v is None:
            return 0.0 if lo <= 0 <= hi else float(lo)
        return float(Fraction(v)) if isinstance(v, str) else float(v)

    def str(self, name):
        v = self.model.get(name)
        return rank_str(int(v) if v is not None else 0)

    def bool(self, name):
        return bool(self.model.get(name, False))

    def expit(self, x):
        import scipy.special
        return float(scipy.special.expit(float(x)))

    def log(self, x):
        return float(self.np.log(float(x)))

    def choice(self, name, options):
        i = self.choices.get(name, 0)
        return options[i if i < len(options) else 0]

    # control
    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    def If(self, c, a, b):
        return a if c else b

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    # checks
    def check(self, c, label, why=''):
        self.checked.append(label)
        if not bool(c):
            self.failed.append((label, str(why)[:300]))
        return bool(c)

    def eq(self, a, b, label):
        self.observe('=' + label, a)
        ok, why = real_eq(a, b)
        return self.check(ok, label, why)

    def le(self, a, b, label):
        a, b = float(a), float(b)
        return self.check(a <= b + ABS + REL * max(abs(a), abs(b)), label,
                          '%r > %r' % (a, b))

    def close(self, a, b):
        return real_eq(a, b)[0]

    def observe(self, name, v):
        self.observed.append((name, plain(v)))

    def diff_check(self, fun, grad, point, label):
        """grad equals the numerical derivative of fun at point"""
        np = self.np
        x = np.array(point, dtype=float)
        g = np.asarray(grad(x.copy()), dtype=float)
        if g.shape != x.shape:
            return self.check(False, label, 'gradient shape %s' % (g.shape,))
        for i in range(len(x)):
            best = None
            for h in (1e-4, 1e-5):
                d = np.zeros(len(x))
                d[i] = h * max(1.0, abs(x[i]))
                n = (float(fun(x + d)) - float(fun(x - d))) / (2 * d[i])
                e = abs(n - g[i])
                best = e if best is None else min(e, best)
            tol = 1e-3 * max(1.0, abs(g[i]), abs(n))
            self.check(best <= tol, label,
                       'd/dx%d: %r, numerically %r' % (i, g[i], n))


class AssumptionFailed(Exception):
    pass


def plain(v):
    """JSON-able rendering of a concrete value, for comparison"""
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return [[f, plain(v[f])] for f in v.dtype.names]
        return [list(v.shape), [plain(x) for x in v.ravel().tolist()]]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return v if math.isfinite(v) else repr(v)
    if isinstance(v, dict):
        return sorted([str(k), plain(x)] for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, np.void):
        return [[f, plain(v[f])] for f in v.dtype.names]
    return str(v)


def plain_close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-7 + 1e-6 * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            plain_close(x, y) for x, y in zip(a, b))
    return a == b


def real_eq(a, b):
    import numpy as np
    if isinstance(a, np.void):
        a = a.item()
    if isinstance(b, np.void):
        b = b.item()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.names or b.dtype.names:
            if a.dtype.names != b.dtype.names or a.shape != b.shape:
                return False, 'structure %s vs %s' % (a.dtype, b.dtype)
            for f in a.dtype.names or ():
                r = real_eq(a[f], b[f])
                if not r[0]:
                    return r
            return True, ''
        if a.shape != b.shape:
            return False, 'shape %s vs %s' % (a.shape, b.shape)
        for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
            r = real_eq(x, y)
            if not r[0]:
                return False, '%s in %r vs %r' % (r[1], a.tolist(),
                                                  b.tolist())
        return True, ''
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False, 'length %d vs %d' % (len(a), len(b))
        for x, y in zip(a, b):
            r = real_eq(x, y)
            if not r[0]:
                return r
        return True, ''
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False, 'keys %s vs %s' % (sorted(map(str, a)),
                                             sorted(map(str, b)))
        for k in a:
            r = real_eq(a[k], b[k])
            if not r[0]:
                return False, '%s: %s' % (k, r[1])
        return True, ''
    num = (numbers.Number, np.generic)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or \
            not isinstance(a, num) or not isinstance(b, num):
        ok = type(a) is type(b) and a == b or (
            isinstance(a, str) and isinstance(b, str) and a == b)
        return bool(ok), '%r vs %r' % (a, b)
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) < 1e-9, '%r vs %r' % (a, b)
    if isinstance(a, (bool, np.bool_, int, np.integer)) and isinstance(
            b, (bool, np.bool_, int, np.integer)):
        return int(a) == int(b), '%r vs %r' % (a, b)
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a and b != b), '%r vs %r' % (a, b)
    if math.isinf(a) or math.isinf(b):
        return a == b, '%r vs %r' % (a, b)
    return (abs(a - b) <= ABS + REL * max(abs(a), abs(b)),
            '%r vs %r' % (a, b))


class RealWorld:
    """stand-ins (optimiser, random numbers) for running the real code"""

    def __init__(self):
        sys.dont_write_bytecode = True
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        sp = os.path.join(REPO, 'scripts')
        if sp not in sys.path:
            sys.path.insert(1, sp)
        import numpy as np
        import scipy.optimize
        import scipy.stats
        import sklearn.metrics
        import sklearn.utils
        import sklearn.model_selection
        self.np = np
        self.env = None
        world = self
        orig = np.random.RandomState

        class RandomState(orig):
            """a generator whose draws come from the model, when there"""

            def __init__(self, seed=None):
                try:
                    orig.__init__(self, None if seed == '#global' else seed)
                except TypeError:
                    orig.__init__(self, seed)
                self._key(seed)
                self.n = 0
                world.log.append(('new', self.key))

            def _key(self, seed):
                if seed is None:
                    self.key = 'anon%d' % world.anon
                    world.anon += 1
                elif isinstance(seed, str):
                    self.key = 'global'
                else:
                    self.key = 'seed%s' % (seed,)

            def seed(self, seed=None):
                orig.seed(self, seed)
                self._key(seed)
                self.n = 0

            def _next(self, m):
                k = 'rng:%s.%d.%s' % (self.key, self.n, m)
                self.n += 1
                world.log.append(('draw', k))
                return k

            def _get(self, name, default):
                if world.env is None:
                    return default
                v = world.env.model.get(name)
                if v is None:
                    return default
                return float(Fraction(v)) if isinstance(v, str) else v

            def _fill(self, m, size, base, conv=float):
                k = self._next(m)
                if size is None:
                    return conv(self._get(k + '.0', base))
                base = np.asarray(base)
                out = base.copy()
                flat = out.reshape(-1)
                for i in range(flat.size):
                    flat[i] = self._get('%s.%d' % (k, i), flat[i])
                return flat.reshape(base.shape)

            def normal(self, loc=0.0, scale=1.0, size=None):
                z = orig.normal(self, 0.0, 1.0, size)
                return loc + scale * self._fill('normal', size, z)

            def standard_normal(self, size=None):
                return self.normal(size=size)

            def randn(self, *shape):
                return self.normal(size=shape or None)

            def random_sample(self, size=None):
                return self._fill('uniform', size,
                                  orig.random_sample(self, size))

            random = ranf = sample = random_sample

            def rand(self, *shape):
                return self.random_sample(shape or None)

            def uniform(self, low=0.0, high=1.0, size=None):
                u = self._fill('uniform', size,
                               orig.random_sample(self, size))
                return low + (high - low) * u

            def randint(self, low, high=None, size=None, dtype=int):
                if high is None:
                    low, high = 0, low
                return self._fill('randint', size, orig.randint(
                    self, low, high, size), int)

            def dirichlet(self, alpha, size=None):
                base = orig.dirichlet(self, alpha, size)
                k = self._next('dirichlet')
                m = len(alpha)
                flat = base.reshape(-1, m).copy()
                for i in range(flat.shape[0]):
                    for j in range(m - 1):
                        flat[i, j] = self._get('%s.%d.%d' % (k, i, j),
                                               flat[i, j])
                    flat[i, m - 1] = 1 - flat[i, :m - 1].sum()
                return flat.reshape(base.shape)

            def _perm(self, n):
                base = np.argsort(orig.random_sample(self, n))
                k = self._next('permutation')
                vals = [self._get('%s.%d' % (k, i), None)
                        for i in range(n)]
                if n > 1 and None not in vals:
                    return np.array([int(v) for v in vals])
                return base

            def permutation(self, x):
                if isinstance(x, (int, np.integer)):
                    return self._perm(int(x))
                x = np.asarray(x)
                return x[self._perm(len(x))]

            def shuffle(self, x):
                p = self._perm(len(x))
                if isinstance(x, np.ndarray):
                    x[...] = x[p].copy()
                else:
                    x[:] = [x[i] for i in p]

            def choice(self, a, size=None, replace=True, p=None):
                if p is not None:
                    return orig.choice(self, a, size, replace, p)
                arr = np.arange(a) if isinstance(a, (int, np.integer)) \
                    else np.asarray(a)
                if size is None:
                    return arr[self.randint(len(arr))]
                if replace:
                    return arr[self.randint(len(arr), size=size)]
                m = int(np.prod(size))
                if m > len(arr):
                    raise ValueError('Cannot take a larger sample')
                return arr[self._perm(len(arr))[:m]].reshape(size)

            def get_state(self, *a, **k):
                return (self.key, self.n)

            def set_state(self, s):
                self.key, self.n = s

            def __deepcopy__(self, memo):
                r = RandomState(0)
                r.key, r.n = self.key, self.n
                return r

            def __reduce__(self):
                return (RandomState, (0,))

        self.log = []
        self.anon = 0
        self.RandomState = RandomState
        np.random.RandomState = RandomState
        g = RandomState('#global')
        self.glob = g
        np.random.mtrand._rand = g
        for m in ('normal', 'uniform', 'rand', 'randn', 'random_sample',
                  'random', 'randint', 'permutation', 'shuffle', 'choice',
                  'dirichlet', 'seed', 'standard_normal', 'get_state',
                  'set_state', 'sample', 'ranf'):
            setattr(np.random, m, getattr(g, m))
        np.random.default_rng = lambda seed=None: RandomState(seed)
        scipy.optimize.minimize = self._minimize
        self.genfromtxt = np.genfromtxt
        np.genfromtxt = self._genfromtxt
        self.optimizer = None

    def begin(self, env):
        self.env = env
        self.log = []
        self.anon = 0
        self.glob.key, self.glob.n = 'global', 0
        self.optimizer = RealOptimizer(env)
        self.files = None

    def _minimize(self, *a, **k):
        return self.optimizer.minimize(*a, **k)

    def _genfromtxt(self, *a, **k):
        h = self.env.cfg_hooks.get('genfromtxt') if self.env else None
        if h is not None:
            return h(*a, **k)
        return self.genfromtxt(*a, **k)


class RealOptimizer:
    def __init__(self, env):
        self.env = env
        self.calls = []

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None,
                 hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None, **kw):
        import numpy as np
        from scipy.optimize import OptimizeResult
        env = self.env
        if not isinstance(args, tuple):
            args = (args,)
        i = len(self.calls)
        x0 = np.asarray(x0)
        n = x0.size
        call = dict(fun=fun, x0=x0.copy(), args=args, method=method, jac=jac,
                    bounds=bounds, tol=tol, callback=callback, hess=hess,
                    options=dict(options) if options is not None else None,
                    raw_options=options, n=n, extra=kw)
        x = None
        if 'solution' in env.cfg_hooks:
            x = env.cfg_hooks['solution'](call)
        if x is None:
            x = env.reals('opt%d.x' % i, n, lo=-100, hi=100)
        res = OptimizeResult(
            x=x.copy(), success=env.bool('opt%d.success' % i),
            status=env.int('opt%d.status' % i, 0, 5),
            message='opt%d message' % i,
            fun=env.real('opt%d.fun' % i, -1000, 1000),
            nit=env.int('opt%d.nit' % i, 0, 1000),
            nfev=env.int('opt%d.nfev' % i, 0, 1000),
            njev=env.int('opt%d.njev' % i, 0, 1000))
        if isinstance(method, str) and method.lower() in (
                'nelder-mead', 'powell', 'cobyla'):
            del res['njev']
        call['res'] = res
        call['x'] = x
        self.calls.append(call)
        hook = env.cfg_hooks.get('minimize')
        if hook is not None:
            hook(call, x0)
        return res
