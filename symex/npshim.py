"""The numpy / math module stand-ins."""
import math as RM

import numpy as RN

from . import core, nparr, npfun
from .core import Sym, SymReal, SymInt, SymBool, Unsupported, is_special
from .nparr import SymArray, norm, RecArray


class _Linalg:
    norm = staticmethod(npfun.linalg_norm)
    LinAlgError = RN.linalg.LinAlgError

    def __getattr__(self, n):
        f = getattr(RN.linalg, n)
        return lambda *a, **k: npfun.generic('linalg.' + n, *a, **k)


class Numpy:
    __name__ = 'numpy'

    def __init__(self, random=None, genfromtxt=None):
        self.random = random
        self.linalg = _Linalg()
        self.ndarray = SymArray
        self.matrix = nparr.SymMatrix
        self.r_ = npfun.r_
        self.c_ = npfun.c_
        self.pi = SymReal(core.frac(RM.pi))
        self.e = SymReal(core.frac(RM.e))
        if genfromtxt is not None:
            self.genfromtxt = genfromtxt
            self.loadtxt = genfromtxt

    def __getattr__(self, n):
        if n in npfun.UF and hasattr(RN, n):
            return npfun.UF[n]
        if n in npfun.FUNCS:
            return npfun.FUNCS[n]
        v = getattr(RN, n)
        if isinstance(v, (type, RN.ufunc)) and not isinstance(v, RN.ufunc):
            return v
        if isinstance(v, RN.ufunc):
            return lambda *a, **k: npfun.generic(n, *a, **k)
        if callable(v) and n not in ('dtype', 'errstate', 'finfo', 'iinfo',
                                     'issubdtype', 'seterr', 'geterr',
                                     'issctype', 'set_printoptions',
                                     'broadcast_shapes', 'iterable'):
            return lambda *a, **k: npfun.generic(n, *a, **k)
        return v


def _sc(x):
    if isinstance(x, SymArray):
        x = x._one()
    return norm(x)


class Math:
    __name__ = 'math'
    inf, nan = RM.inf, RM.nan

    def __init__(self):
        self.pi = SymReal(core.frac(RM.pi))
        self.e = SymReal(core.frac(RM.e))

    def sqrt(self, x):
        x = core.tosymreal(_sc(x))
        if not is_special(x) and x < 0:
            raise ValueError('math domain error')
        return core.uf_sqrt(x)

    def exp(self, x):
        return core.uf_exp(_sc(x))

    def log(self, x, *base):
        if base:
            raise Unsupported('logarithm base')
        x = core.tosymreal(_sc(x))
        if not is_special(x) and x <= 0:
            raise ValueError('math domain error')
        return core.uf_log(x)

    def log1p(self, x):
        return npfun.k_log1p(_sc(x))

    def expm1(self, x):
        return npfun.k_expm1(_sc(x))

    def tanh(self, x):
        return npfun.k_tanh(_sc(x))

    def floor(self, x):
        x = _sc(x)
        return x.floor_() if isinstance(x, SymReal) else (
            x if isinstance(x, (int, SymInt)) else RM.floor(x))

    def ceil(self, x):
        x = _sc(x)
        return x.ceil_() if isinstance(x, SymReal) else (
            x if isinstance(x, (int, SymInt)) else RM.ceil(x))

    def trunc(self, x):
        x = _sc(x)
        return x.trunc() if isinstance(x, SymReal) else x

    def fabs(self, x):
        return abs(core.tosymreal(_sc(x)))

    def isnan(self, x):
        return core.isnan(_sc(x))

    def isinf(self, x):
        x = _sc(x)
        return is_special(x) and not core.isnan(x)

    def isfinite(self, x):
        return not is_special(_sc(x))

    def pow(self, a, b):
        return core.tosymreal(_sc(a)) ** _sc(b)

    def fsum(self, it):
        r = SymReal(core.Fraction(0))
        for x in it:
            r = r + x
        return r

    def prod(self, it, start=1):
        for x in it:
            start = start * x
        return start

    def copysign(self, a, b):
        a = abs(core.tosymreal(_sc(a)))
        return core.ite(npfun.k_ge(_sc(b), 0), a, -a)

    def isclose(self, a, b, rel_tol=1e-09, abs_tol=0.0):
        a, b = core.tosymreal(_sc(a)), core.tosymreal(_sc(b))
        d = abs(a - b)
        m = npfun.k_max(abs(a), abs(b))
        return npfun.k_or(d <= m * rel_tol, d <= abs_tol)

    def __getattr__(self, n):
        v = getattr(RM, n)
        if callable(v):
            return lambda *a: npfun._back(v(*[npfun.concrete(i) for i in a]))
        return v
